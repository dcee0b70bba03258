#!/bin/bash
# catch.sh id...: apply each planted bug to /repo, run its property's quick check, undo.
cd /verif
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  [ -n "$ALSO" ] && p="$ALSO"
  for q in $p; do
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
  VERIF_SEED=1 ./check.py $q quick > /tmp/catch.$b.$q.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$b $q rc=$rc $(grep -m1 -A1 VIOLATION /tmp/catch.$b.$q.log | tail -1 | cut -c1-260)"
  done
done
