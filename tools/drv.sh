#!/bin/bash
# run only the bounded driver of a property:  tools/drv.sh C08
cd /verif && python3-vt - "$@" <<'P'
import sys, importlib, tempfile, json
sys.path.insert(0, "/verif")
import check
pid = sys.argv[1]; mod = importlib.import_module("specs." + pid)
with tempfile.TemporaryDirectory() as d:
    r = check.run_driver(pid, mod, "quick", int(sys.argv[2]) if len(sys.argv) > 2 else 1, d, [])
    for k, v in r.items(): print(k, ":", v if not isinstance(v, list) else "\n".join(map(str, v))[:6000])
P
