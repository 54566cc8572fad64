#!/bin/bash
# tryseed.sh IDS: each planted bug's own check (quick), on a scratch copy of /repo. CHECK=id: another check.
cd /verif; mkdir -p /tmp/w
for i in $@; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  d=/tmp/ts_$i; rm -rf /tmp/ts_$i; mkdir -p $d; cp -a /repo $d/; git -C $d/repo apply /verif/seeded/$i/patch.diff || continue
  s=$(date +%s)
  VERIF_REPO=$d/repo VERIF_SEED=1 VERIF_TIER=quick timeout 900 nice -n 10 python3-vt check.py ${CHECK:-$p} quick >/tmp/w/seed_$i.out 2>&1; rc=$?
  echo "$i ${CHECK:-$p} rc=$rc $(( $(date +%s)-s ))s $(grep -c ^VIOLATION /tmp/w/seed_$i.out) $(tail -1 /tmp/w/seed_$i.out | cut -c1-110)"
  rm -rf /tmp/ts_$i
done
