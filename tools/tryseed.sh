#!/bin/bash
# tryseed.sh SEED... : apply each planted change to /repo, run its property's check, undo
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s APPLY FAILED"; continue; }
  t0=$(date +%s)
  out=$(cd /verif && timeout 900 bin/gosym check $p -noevidence 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc $(( $(date +%s)-t0 ))s $(echo "$out" | grep -c VIOLATION) $(echo "$out" | grep -E 'violated|INCONC' | head -1 | cut -c1-160)"
done
