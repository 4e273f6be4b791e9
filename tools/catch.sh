#!/bin/bash
# catch.sh ID... : runs the property's quick check against each seeded change and restores /repo.
# Appends "ID rc seconds first-violation" to work/catch.log
cd "$(dirname "$0")/.." || exit 2
mkdir -p work
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  [ -n "$(git -C /repo status --porcelain --untracked-files=no)" ] && { echo "/repo dirty"; exit 2; }
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id NOAPPLY"; continue; }
  s=$SECONDS
  timeout 900 ./check.sh "$p" ${TIER:-quick} >work/catch.$id.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $((SECONDS-s))s $(grep -m1 VIOLATION work/catch.$id.out)" | tee -a work/catch.log
done
