#!/bin/bash
# runseeds.sh [ID...]: applies each planted bug to /repo, runs its property's quick check, undoes it.
cd /verif || exit 1
[ $# -eq 0 ] && set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  [ -f "harness/$p/harness.json" ] || { echo "$id $p: no check"; continue; }
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  VERIF_TIER=quick VERIF_SEED=1 ./check.sh "$p" > "/tmp/seed-$id.log" 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 '^VIOLATION' /tmp/seed-$id.log)"
done
