#!/bin/bash
# tryseed.sh ID...: applies each planted change to /repo, runs its property's check, undoes it
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  python3 check.py $p ${TIER:-quick} > /tmp/try-$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id: rc=$rc $(grep -m1 VIOLATION /tmp/try-$id.log)"
done
