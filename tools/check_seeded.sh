#!/bin/bash
# For every planted bug (or those named): apply it to a scratch copy of /repo and run its property's quick check.
cd "$(dirname "$0")/.."
[ $# -eq 0 ] && set -- $(ls seeded)
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  w=/tmp/verif_seeded_$i; rm -rf "$w"; cp -a /repo "$w"
  git -C "$w" apply "$PWD/seeded/$i/patch.diff" || { echo "$i: does not apply"; continue; }
  s=$(date +%s); VERIF_REPO=$w VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick python3 run.py "$p" >/tmp/verif_seeded_out 2>&1; rc=$?
  echo "$i $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/verif_seeded_out | cut -c1-160)"
  rm -rf "$w"
done
rm -f /tmp/verif_seeded_out
