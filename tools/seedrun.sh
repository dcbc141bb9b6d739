#!/bin/bash
# run the quick check of the property of each planted bug against it (patch applied in /repo, undone afterwards)
cd "$(dirname "$0")/.."
[ -z "$(git -C /repo status --porcelain)" ] || { echo dirty /repo; exit 2; }
for i in "${@:-$(ls seeded)}"; do for id in $i; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || continue
  s=$(date +%s); timeout 900 python3 run.py $p quick > /tmp/seedrun.$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 '^VIOLATION' /tmp/seedrun.$id.log)"
done; done
