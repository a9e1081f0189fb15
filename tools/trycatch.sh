#!/bin/bash
# tools/trycatch.sh SEED...: applies each planted bug to /repo, runs its property's check, undoes it
cd "$(dirname "$0")/.."
for s in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  out=$(timeout 900 bash check.sh "$p" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" <<< "$out"; then echo "$s $p: caught"; else echo "$s $p: MISSED rc=$rc $(tail -1 <<< "$out")"; fi
done
