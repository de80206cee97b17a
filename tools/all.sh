#!/bin/bash
# runs every claimed check one after the other
cd "$(dirname "$0")/.."
rc=0
for p in ${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
  python3-vt check.py $p --tier quick || { rc=1; echo "^^^ $p"; }
done
exit $rc
