#!/bin/bash
# runseeds.sh [ID...]: run each planted bug's check (quick) against it.
cd /verif
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  grep -q "'$p': p" bin/plans.py || { echo "$i $p NO CHECK"; continue; }
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i DOES NOT APPLY"; continue; }
  s=$(date +%s); out=$(python3 bin/check.py $p ${TIER:-quick} 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep '^violation' | cut -c1-150)"
done
git -C /repo status --short
