#!/bin/bash
# development aid: which planted bugs does the check of their property catch?
# usage: tools/seeded.sh [id...]
cd /verif/seeded
for id in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  t0=$(date +%s)
  out=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-t0 ))s $(echo "$out" | grep VIOLATION | cut -c1-150)"
done
