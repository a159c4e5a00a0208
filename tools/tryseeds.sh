#!/bin/bash
# tryseeds.sh [id...]: applies each planted bug to /repo, runs its property's check, undoes it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  s=$(date +%s)
  out=$(python3-vt run.py check $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d: rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -a VIOLATION | head -1) $([ $rc = 0 ] && echo "$out" | grep -a UNDECIDED | head -1 | cut -c1-200)"
done
