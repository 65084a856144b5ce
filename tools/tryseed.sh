#!/bin/bash
# tryseed.sh ID... : for each planted change under seeded/ID, confirm it and run its property's check
cd /repo || exit 2
for id in "$@"; do
  d=/verif/seeded/$id
  [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash $d/demo.sh >/tmp/demo0.log 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/build.log 2>&1; b=$?
  t=$(bash /opt/vp/test.sh /tmp/o.json 2>/dev/null | tail -1)
  timeout 300 bash $d/demo.sh >/tmp/demo1.log 2>&1; c=$?
  (cd /verif; timeout 900 python3 check.py $prop >/tmp/chk.log 2>&1); e=$?
  git checkout -q -- .
  echo "$id prop=$prop demo0=$a build=$b tests='$t' demo1=$c check=$e $(grep -m1 '^  \[' /tmp/chk.log | cut -c1-220)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
