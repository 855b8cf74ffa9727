#!/bin/bash
# catch.sh ID...: applies each planted bug to /repo, runs the check of its property, undoes it
for ID in "$@"; do D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git -C /repo apply $D/patch.diff || continue
t=$(date +%s); (cd /verif && python3 check.py $P) >/tmp/catch-$ID.log 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$ID: $P rc=$rc $(( $(date +%s)-t ))s $(grep -m1 -A0 '^failure' /tmp/catch-$ID.log) $(grep -c ^VIOLATION /tmp/catch-$ID.log)"; done
