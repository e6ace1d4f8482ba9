#!/bin/bash
# tools/bug.sh ID...: run each seeded change against the check of its property
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  python3-vt /verif/checks/run.py ${CHECK:-$p} > /tmp/bug.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id ($p): rc=$rc $(head -c 300 /tmp/bug.out | tr '\n' ' ')"
done
