#!/bin/bash
# runseeds.sh [ids]: run each planted bug's own check (quick) against it, in /repo, and undo it.
cd /verif
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || continue
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py ${CHECK:-$p} quick >/tmp/w/seed_$i.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$i ${CHECK:-$p} rc=$rc $(( $(date +%s)-s ))s $(grep -c ^VIOLATION /tmp/w/seed_$i.out)"
done
