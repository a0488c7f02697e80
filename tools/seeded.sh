#!/bin/bash
# Applies each seeded change to /repo in turn and runs its property's check. usage: seeded.sh [id...]
# Not used by any check.
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $p 2>&1); rc=$?
  e=$(( $(date +%s) - s ))
  git -C /repo checkout -- .
  if [ $rc = 1 ] && echo "$out" | grep -q "^VIOLATION property=$p "; then r=CAUGHT; else r="MISSED(rc=$rc)"; fi
  echo "$id $p $r ${e}s $(echo "$out" | grep -m1 -E '^(VIOLATION|BUILD)' | cut -c1-160)"
done
