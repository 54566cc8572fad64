#!/bin/bash
# runall.sh [ids]: every check (quick) on the current tree.
cd /verif; mkdir -p /tmp/w
for p in ${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])" 2>/dev/null || ls evidence | sed 's/.json//')}; do
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $p ${TIER:-quick} >/tmp/w/$p.out 2>&1; rc=$?
  echo "$p rc=$rc $(( $(date +%s)-s ))s $(grep -c ^VIOLATION /tmp/w/$p.out) $(tail -1 /tmp/w/$p.out | cut -c1-200)"
done
