#!/bin/bash
# trybugs.sh [ID...]: applies each planted bug to /repo, runs its property's check (and others given by PROPS="..."), undoes it
cd "$(dirname "$0")/.." || exit 1
ids=${*:-$(ls seeded)}
for id in $ids; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
    for q in ${PROPS:-$p}; do
        out=$(timeout 900 python3 check.py "$q" quick 2>&1); rc=$?
        echo "$id [$q] rc=$rc $(echo "$out" | grep -E '^VIOLATION' | tail -1)"
        [ -n "$VERBOSE" ] && echo "$out" | tail -12
    done
    git -C /repo checkout -q -- .
done
