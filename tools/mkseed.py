"""dev tool: python3 tools/mkseed.py SEEDFILE.py [ids]  -- build, test and store seeded bugs.  SEEDFILE defines SEEDS = [dict(id,prop,edits=[(file,old,new)],needs,breaks,demo)]"""
import sys, os, subprocess, shutil, json, runpy
M = "/tmp/mseed"
DEMO_SH = '''#!/bin/bash
# compiles demo.cpp against the library built in the current directory and runs it
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export CANTERA_DATA="$PWD/data"
g++ -std=c++17 -O0 -w -fno-access-control -I"$PWD/include" -I"$PWD" %s "$d/demo.cpp" "$PWD/build/lib/libcantera.a" -lsundials_cvodes -lsundials_idas -lfmt -lyaml-cpp -lopenblas -lpthread -o "$t/demo" || exit 2
cd "$t" && ./demo
'''
PRE = '''#include <cstdio>
#include <cmath>
#include <string>
#include <vector>
#include <memory>
#include <functional>
#include <exception>
%s
using namespace Cantera;
static int bad = 0;
static void near(const char* what, double got, double want, double rtol = 1e-9, double atol = 1e-280) { if (!(std::fabs(got - want) <= rtol * std::max(std::fabs(got), std::fabs(want)) + atol)) { printf("%%s: got %%.15g, expected %%.15g\\n", what, got, want); bad = 1; } }
static void ok(const char* what, bool c) { if (!c) { printf("failed: %%s\\n", what); bad = 1; } }
int main() { try {
%s
} catch (std::exception& e) { printf("exception: %%s\\n", e.what()); bad = 1; }
return bad; }
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    sys.path.insert(0, "/verif"); from engine import extract
    inc = " ".join(f for f in extract.incflags() if "/repo/" not in f or True).replace("/repo", "$PWD")
    ns = runpy.run_path(sys.argv[1]); want = sys.argv[2:]
    for s in ns["SEEDS"]:
        if want and s["id"] not in want: continue
        d = "/verif/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
        sh("[ -d /tmp/mrepo ] || cp -a /repo /tmp/mrepo; git -C /tmp/mrepo checkout -q -- .; git -C /tmp/mrepo fetch -q /repo HEAD; git -C /tmp/mrepo reset -q --hard FETCH_HEAD")
        for f, a, b in s["edits"]:
            p = "/tmp/mrepo/" + f; t = open(p).read()
            if t.count(a) != 1: print(s["id"], "EDIT MATCHES", t.count(a), f, repr(a)[:80]); sh("git -C /tmp/mrepo checkout -- ."); break
            open(p, "w").write(t.replace(a, b))
        else:
            diff = sh("git -C /tmp/mrepo diff").stdout; sh("git -C /tmp/mrepo checkout -- .")
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.cpp", "w").write(PRE % ("\n".join('#include "%s"' % i for i in s["inc"]), s["demo"]))
            open(d + "/demo.sh", "w").write(DEMO_SH % inc); os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            r = sh(d + "/demo.sh", cwd="/repo"); print(s["id"], "unchanged demo rc", r.returncode, (r.stdout + r.stderr)[-400:])
main()
