#!/bin/bash
# revns.sh PROP COMMIT...: the check of PROP on a private copy of /repo with each fix commit reverted (it must report)
P=$1; shift; W=$(mktemp -d /tmp/revns.XXXXXX); cp -a /repo $W/repo; mkdir $W/verif; (cd /verif; tar cf - --exclude=./evidence --exclude=./.git .) | tar xf - -C $W/verif
for H in "$@"; do git -C /repo show -R $H > $W/$H.diff; done
unshare -Urm bash -c "mount --bind $W/repo /repo && mount --bind $W/verif /verif && cd /verif && for H in $*; do git -C /repo apply $W/\$H.diff || continue; python3 check.py $P > $W/log 2>&1; echo \$H rc=\$? \$(grep -m2 '^failure' $W/log | tr '\n' ' '); git -C /repo checkout -q -- .; done"
rm -rf "$W"
