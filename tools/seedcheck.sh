#!/bin/bash
# seedcheck.sh ID...: apply each seeded change to the scratch copy /tmp/sw and run the quick check of its property on it
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /tmp/sw checkout -q -- . && git -C /tmp/sw apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s); out=$(cd /verif && WILLOW_REPO=/tmp/sw VERIF_TIER=quick VERIF_SEED=1 python3 mc/run.py check $p quick 2>&1); rc=$?
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep VIOLATION | head -1)"
  echo "$out" | grep -A3 VIOLATION | head -8
  git -C /tmp/sw checkout -q -- .
done
