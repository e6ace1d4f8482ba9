#!/bin/bash
# tools/bugs_scratch.sh ID...: run each seeded change against its property's check, in a scratch copy (VERIF_REPO)
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  c=$(mktemp -d /dev/shm/bug.XXXXXX); cp -a /repo/. $c/; git -C $c apply $d/patch.diff || { echo "$id: does not apply"; rm -rf "$c"; continue; }
  VERIF_REPO=$c VERIF_SEED=1 VERIF_TIER=quick timeout 800 python3-vt /verif/checks/run.py ${CHECK:-$p} > $c.out 2>&1; rc=$?
  echo "$id ($p): rc=$rc $(head -c 250 $c.out | tr '\n' ' ')"
  rm -rf "$c" "$c.out"
done
