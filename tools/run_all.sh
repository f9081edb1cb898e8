#!/bin/bash
# Runs the quick (or given) tier of all claimed checks one after another.
cd "$(dirname "$0")/.." || exit 1
tier=${1:-quick}; shift
ids=${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
for id in $ids; do
  s=$SECONDS
  out=$(python3 check.py "$id" --tier "$tier" 2>&1); rc=$?
  echo "$id rc=$rc $((SECONDS - s))s $(echo "$out" | tail -1)"
  [ $rc = 0 ] || echo "$out" | grep -E "violated|VIOLATION|error" | head -8
done
