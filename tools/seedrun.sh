#!/bin/bash
# usage: tools/seedrun.sh [ID...]   run each planted change's own check against it (applies it to /repo and undoes it)
V=$(cd "$(dirname "$0")/.." && pwd)
[ $# -gt 0 ] || set -- $(ls "$V/seeded")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id; do
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$V/seeded/$id/meta.json")
  git -C /repo apply "$V/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  t=$(date +%s)
  VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1} bash "$V/check.sh" "$p" > /tmp/seedrun.$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s) - t ))s $(grep -m1 VIOLATION /tmp/seedrun.$id.log)"
done
