#!/bin/bash
# runseeds.sh [ids...]: applies each seeded change to /repo in turn, runs its property's check, undoes it
cd "$(dirname "$0")/.."
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply $PWD/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  out=$(timeout 900 python3-vt check.py $p $ARGS 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc $(echo "$out" | grep -c ^VIOLATION) violations: $(echo "$out" | grep -B1 ^VIOLATION | head -1 | cut -c1-150) $(echo "$out" | tail -1)"
done
