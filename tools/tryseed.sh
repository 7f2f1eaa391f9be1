#!/bin/bash
# dev: apply seeds in a scratch copy, build, run demo and stable tests; then run the property's check against it.  tools/tryseed.sh id...
M=/tmp/mrepo
[ -d $M ] || cp -a /repo $M
for id in "$@"; do
  d=/verif/seeded/$id; git -C $M checkout -q -- . ; git -C $M fetch -q /repo HEAD 2>/dev/null; git -C $M reset -q --hard FETCH_HEAD
  git -C $M apply $d/patch.diff || { echo "$id does not apply"; continue; }
  P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /verif; VERIF_REPO=$M python3-vt check.py $P > /tmp/seed_$id.log 2>&1; echo "$id $P check rc=$?"; grep VIOLATION /tmp/seed_$id.log | cut -c1-160 | head -3; tail -1 /tmp/seed_$id.log | cut -c1-200)
done
