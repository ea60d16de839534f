#!/bin/bash
# runseed.sh [ID ...]: applies each planted bug to /repo, runs the check of its property, and undoes it.
cd /verif
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
for id in "${@:-$(ls seeded)}"; do
  for id in $id; do
    prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply "/verif/seeded/$id/patch.diff" || continue
    s=$(date +%s)
    out=$(timeout 900 bin/check "$prop" ${TIER:-quick} 2>&1); rc=$?
    git -C /repo checkout -q -- .
    echo "$id $prop rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION) $( [ $rc -gt 1 ] && echo "$out" | tail -2)"
  done
done
