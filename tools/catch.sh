#!/bin/bash
# catch.sh NAME...: applies a planted bug to /repo, runs its property's quick check, undoes it.
cd /verif
for n in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$n/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$n/patch.diff || { echo "$n: does not apply"; continue; }
  s=$(date +%s); out=$(./check.sh $p quick 2>&1 | tail -3 | cut -c1-300); rc=${PIPESTATUS[0]}
  git -C /repo checkout -- .
  if echo "$out" | grep -q "VIOLATION property=$p"; then echo "CAUGHT $n ($p) $(( $(date +%s)-s ))s"; echo "$out" | grep -v VIOLATION | tail -1 | cut -c1-160; else echo "MISSED $n ($p)"; echo "$out"; fi
done
