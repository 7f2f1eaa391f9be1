#!/bin/bash
# where does the extractor crash on a TU:  tools/dumpdbg.sh src/base/Units.cpp
cd /verif; python3-vt - "$1" <<'P'
import sys; sys.path.insert(0,'/verif')
from engine import extract as e
import subprocess
exe,_=e.cxxdump()
cmd=[exe,e.REPO+"/",e.REPO+"/"+sys.argv[1],"--"]+e.FLAGS+e.incflags()
r=subprocess.run(["gdb","-batch","-ex","run","-ex","bt 12","--args"]+cmd,capture_output=True)
print(r.stdout[-3000:].decode(errors='replace'))
P
