#!/bin/bash
# runseed.sh ID...: apply each planted bug to /repo, run its property's check, undo
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  (cd /verif && timeout 900 python3 vp/check.py $p > /tmp/s/$id.log 2>&1; echo "$id $p rc=$? $(grep -h VIOLATION /tmp/s/$id.log)")
  git -C /repo checkout -- .
done
