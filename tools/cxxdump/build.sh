#!/bin/bash
# builds cxxdump into $1
set -e
here=$(cd "$(dirname "$0")" && pwd)
clang++-18 -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$here/cxxdump.cpp" -o "$1" /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18 /usr/lib/llvm-18/lib/libLLVM-18.so
