#!/bin/bash
# runall.sh ids... : run each seed's own check
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id APPLYFAIL"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep -c VIOLATION) $(echo "$out" | grep -m1 VIOLATION)"
  [ $rc = 1 ] || echo "$out" | tail -3
done
