#!/bin/bash
# tools/detect.sh SEEDS ID... : run index at which the quick check of its property finds each planted bug, for several seeds
cd "$(dirname "$0")/.." || exit 2
seeds=$1; shift
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo checkout -q -- . && git -C /repo apply "$PWD/seeded/$id/patch.diff" || continue
  printf '%s [%s]:' "$id" "$prop"
  for s in $seeds; do
    printf ' %s' "$(VERIF_SEED=$s ./check $prop quick 2>&1 | grep -m1 -o 'run [0-9]* \|exit 0\|exit 2' | tr -d 'a-z ')"
  done
  echo
  git -C /repo checkout -q -- .
done
