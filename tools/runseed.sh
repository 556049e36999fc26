#!/bin/bash
# usage: runseed.sh ID...: apply each planted bug to /repo, run the check of its property, undo
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply $PWD/seeded/$id/patch.diff || { echo "NOAPPLY $id"; continue; }
  o=$(bin/check ${PROP:-$p} 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id rc=$rc $(echo "$o" | grep -m1 VIOLATION) | $(echo "$o" | grep -c VIOLATION) | $(echo "$o" | tail -1)"
done
