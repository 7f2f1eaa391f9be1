#!/bin/bash
# dev: does a seed count?  in a scratch copy: apply, build, demo must fail, stable tests must pass.   tools/seedtest.sh id...
M=/tmp/mrepo
[ -d $M ] || cp -a /repo $M
for f in build test; do sed "s#/repo#$M#g; s#/opt/vp/build.sh#/tmp/mb_build.sh#g" /opt/vp/$f.sh > /tmp/mb_$f.sh; done
for id in "$@"; do
  d=/verif/seeded/$id; git -C $M checkout -q -- . ; git -C $M fetch -q /repo HEAD 2>/dev/null; git -C $M reset -q --hard FETCH_HEAD
  git -C $M apply $d/patch.diff || { echo "$id does not apply"; continue; }
  bash /tmp/mb_test.sh /tmp/mb_$id.json > /tmp/mb_$id.log 2>&1
  (cd $M; timeout 300 bash $d/demo.sh > /tmp/mb_demo_$id.log 2>&1; echo "$id demo with patch rc=$?")
  python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/mb_%s.json'%sys.argv[1]))
st=set(b.get('passed') or b.get('stable') or b)
if not isinstance(r.get('passed'),list): print(r.keys())
miss=sorted(st-set(r['passed']))
print(sys.argv[1],'stable',len(st),'not passed',len(miss),miss[:6])
P
done
git -C $M checkout -q -- .
