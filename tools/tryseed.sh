#!/bin/bash
# tryseed.sh ID: confirms a planted bug in a scratch copy of /repo (demo passes before, builds, stable tests pass, demo fails after)
ID=$1; D=/verif/seeded/$ID; W=/tmp/seed-$ID-$$
cp -a /repo $W || exit 1
run() { unshare -Urm bash -c "mount --bind $W /repo && cd /repo && $1"; }
run "bash $D/demo.sh" >/tmp/seed-$ID.before 2>&1; b=$?
git -C $W apply $D/patch.diff || { echo "patch does not apply"; rm -rf "$W"; exit 1; }
run "bash /opt/vp/test.sh /tmp/seed-$ID.json" >/tmp/seed-$ID.test 2>&1
run "bash $D/demo.sh" >/tmp/seed-$ID.after 2>&1; a=$?
python3 - $ID <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/seed-%s.json'%sys.argv[1]))
m=b-set(t['passed']); print("tests: %d missing"%len(m), sorted(m)[:5])
P
echo "demo before: $b (want 0), after: $a (want nonzero)"; tail -3 /tmp/seed-$ID.after
rm -rf "$W"
