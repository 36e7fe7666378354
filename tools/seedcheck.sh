#!/bin/bash
# seedcheck.sh [ids...]: apply each planted bug to /repo, run its property's quick check, undo (development)
cd /verif || exit 1
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$d/patch.diff" || { echo "$d: patch does not apply"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick ./check $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(( $(date +%s) - s ))s :: $(echo "$out" | grep -m1 -E 'FAILING-INPUT|no theorems|BOUNDED' | cut -c1-150) :: obligations: $(echo "$out" | grep -c FAILED-OBLIGATION) :: $(echo "$out" | grep VIOLATION | grep -c no-failing)"
done
