#!/bin/bash
# runs the check of each planted change's property against it (in place, undone straight afterwards)
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  W=$(mktemp -d); cp -a /repo/. $W; git -C $W apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  s=$(date +%s); o=$(python3-vt check.py $p --repo $W --evidence $W/ev 2>&1); rc=$?
  echo "$d $p rc=$rc $(( $(date +%s)-s ))s $(echo "$o" | grep -E 'VIOLATION|FAIL|obligation "' | cut -c1-200 | tr '\n' '|')"
  rm -rf "$W"
done
