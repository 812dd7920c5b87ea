#!/bin/bash
# trybugs.sh [ID...]: applies each planted bug to /repo in turn, runs its property's check, undoes it
cd /verif
for d in ${@:-$(ls seeded)}; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
    git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
    s=$(date +%s)
    out=$(timeout 900 python3 check/check.py $p 2>&1); rc=$?
    git -C /repo checkout -- .
    echo "$d $p exit $rc $(($(date +%s)-s))s $(echo "$out" | grep -E '^VIOLATION' )"
    echo "$out" | grep -E "^(failing input|undischarged|not established|ERROR)" | cut -c1-220 | head -4
done
