#!/bin/bash
# catch.sh [ID...]: apply each planted bug to /repo, run the check of its property, undo.
cd /verif/seeded
for b in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
  o=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$b $p rc=$rc $(echo "$o" | grep -m1 '^VIOLATION')"; echo "$o" | head -${N:-3} | cut -c1-260 | sed 's/^/      /'
done
