#!/bin/bash
# run every claimed check, one after another: tools/all.sh [quick|thorough]
cd "$(dirname "$0")/.."
export VERIF_TIER=${1:-quick}
for id in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])" 2>/dev/null || ls harness | sed -n 's/^\([A-Z][0-9]*\)_.*cpp/\1/p'); do
  s=$(date +%s.%N)
  ./check.py $id > /tmp/all_$id.log 2>&1; rc=$?
  printf '%s rc=%s %.1fs %s\n' $id $rc $(echo "$(date +%s.%N) - $s" | bc) "$(tail -1 /tmp/all_$id.log)"
done
