#!/bin/bash
# try.sh ID...: applies a seeded change in a scratch copy and runs the check of its property against it
cd "$(dirname "$0")/.."
for id in "$@"; do
  wt=/tmp/wt-$id; git clone -q /repo $wt && git -C $wt apply $PWD/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  s=$(date +%s)
  VERIF_SEED=1 VERIF_REPO=$wt /opt/venv/bin/python check.py $prop > /tmp/try-$id.out 2>&1; rc=$?
  echo "$id $prop rc=$rc $(( $(date +%s)-s ))s $(grep -m1 '^---' /tmp/try-$id.out | cut -c1-90)"
  rm -rf /tmp/wt-$id
done
