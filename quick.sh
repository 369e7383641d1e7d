#!/bin/bash
# quick.sh [IDs]: runs the quick tier of the checks one after another, prints what is not quiet
cd "$(dirname "$0")"
for id in ${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
    start=$(date +%s)
    VERIF_TIER=quick ./check.sh $id > /tmp/quick.$id.log 2>&1
    echo "$id exit $? $(($(date +%s) - start)) s $(grep -E 'VIOLATION|KNOWN' /tmp/quick.$id.log | head -2)"
done
