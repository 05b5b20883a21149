#!/bin/bash
# tryseeds.sh [id...]: applies each planted bug to /repo, runs its property's check (or $CHECKS), undoes it
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  for c in ${CHECKS:-$p}; do
    timeout 900 python3 check.py $c > /tmp/seed-$id-$c.log 2>&1; rc=$?
    echo "$id $c rc=$rc $(grep -c VIOLATION /tmp/seed-$id-$c.log) $(grep -B1 VIOLATION /tmp/seed-$id-$c.log | head -1 | cut -c1-150) $(grep 'other div' /tmp/seed-$id-$c.log | tail -1 | cut -c1-200)"
  done
  git -C /repo checkout -- .
done
