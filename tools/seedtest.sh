#!/bin/bash
# tools/seedtest.sh [-c] ID... : applies each planted bug to /repo in turn, builds, runs the stable tests and the
# demonstration, and with -c the property's quick check; undoes the change. (-C PROPS: checks of these properties too)
cd "$(dirname "$0")/.." || exit 2
checks=0; [ "$1" = -c ] && { checks=1; shift; }
W=$(mktemp -d); trap 'git -C /repo checkout -q -- .; rm -rf "$W"' EXIT
for id in "$@"; do
  id=$(basename "$id"); d=$PWD/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo checkout -q -- .
  git -C /repo apply "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; continue; }
  bash /opt/vp/build.sh > $W/build.log 2>&1 || { echo "$id: DOES NOT BUILD"; grep -m3 -A5 '^error' $W/build.log; continue; }
  bash /opt/vp/test.sh $W/test.json > $W/test.log 2>&1
  miss=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];r=json.load(open('$W/test.json'))
p=r.get('passed') or r.get('pass') or []
print(len(set(b)-set(p)))")
  (cd /repo && timeout 300 bash "$d/demo.sh" > $W/demo.log 2>&1); demo=$?
  res="-"
  if [ $checks = 1 ]; then
    s=$(date +%s.%N)
    ./check $prop quick > $W/check.log 2>&1; rc=$?
    res="check rc=$rc $(grep -m1 VIOLATION $W/check.log | cut -c1-200) $(python3 -c "import time;print(round(time.time()-$s,1))")s"
  fi
  echo "$id [$prop]: tests lost=$miss demo=$demo ($(tail -1 $W/demo.log | cut -c1-140)) $res"
  git -C /repo checkout -q -- .
done
