#!/bin/bash
# seedtest.sh ID... : applies each planted bug to /repo, runs build, tests, demo and its check, and undoes it.
cd /verif
for i in "$@"; do
  d=/verif/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo not clean"; exit 1; }
  (cd /repo && bash $d/demo.sh >/tmp/st_demo0 2>&1); d0=$?
  git -C /repo apply $d/patch.diff || { echo "$i: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/st_build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/st_out.json >/tmp/st_test 2>&1
  t=$(tail -1 /tmp/st_test)
  (cd /repo && bash $d/demo.sh >/tmp/st_demo1 2>&1); d1=$?
  full=""; [ -n "$FULL" ] && full=$(/tmp/runall.sh | grep -E "test result" | cut -c1-60)
  ./check.sh $p quick >/tmp/st_check 2>&1; c=$?
  v=$(grep -c "^VIOLATION property=$p" /tmp/st_check)
  git -C /repo checkout -q -- .
  echo "$i [$p]: demo0=$d0 build=$b tests='$t' demo1=$d1 check=$c violations=$v $full"
  tail -2 /tmp/st_demo1 | cut -c1-200
done
