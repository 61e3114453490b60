#!/bin/bash
# run the checks of each seeded bug's property against it: tools/bugs.sh [id...]; applies to /repo and undoes
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  s=$(date +%s); out=$(timeout 900 /opt/venv/bin/python check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep VIOLATION | head -2 | cut -c1-150 | tr '\n' ' ')"
done
