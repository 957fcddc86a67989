#!/bin/bash
# catch.sh ID...: apply each seeded change to /repo, run its own property's quick check, undo.
cd /repo || exit 2
for id in "$@"; do
  [ -z "$(git status --porcelain)" ] || { echo "/repo dirty"; exit 2; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git apply /verif/seeded/$id/patch.diff || continue
  t=$(date +%s); /verif/check.sh $p quick > /tmp/catch.$id.log 2>&1; rc=$?
  git checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-t ))s $(grep -m1 '^VIOLATION' /tmp/catch.$id.log | cut -c1-150)"
done
