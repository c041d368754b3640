#!/bin/bash
# trybugs.sh [ID...]: runs the check of each planted bug's property against it (development only)
cd /verif
[ $# -eq 0 ] && set -- $(ls seeded)
for b in "$@"; do
    prop=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
    git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; continue; }
    out=$(VERIF_SEED=1 VERIF_TIER=${VERIF_TIER:-quick} timeout 900 python3 tools/run.py check $prop 2>&1); rc=$?
    git -C /repo checkout -q -- .
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop" <<<"$out"; then echo "caught  $b ($prop): $(grep -m1 ^VIOLATION <<<"$out")"; else echo "MISSED  $b ($prop) rc=$rc: $(tail -2 <<<"$out" | tr '\n' ' ' | cut -c1-200)"; fi
done
