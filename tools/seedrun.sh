#!/bin/bash
# seedrun.sh ID...: applies each planted bug to /repo, runs its property's quick check, undoes it
cd /verif
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  t0=$(date +%s)
  out=$(bash run.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  n=$(echo "$out" | grep -c "^VIOLATION property=$p")
  echo "$s: $p exit=$rc violations=$n $(( $(date +%s)-t0 ))s"
  if [ $rc -ne 1 ]; then echo "$out" | tail -15; fi
done
