#!/bin/bash
# catchns.sh ID...: as catch.sh, on copies of /repo and /verif in a private mount namespace (the real trees stay untouched)
W=$(mktemp -d /tmp/catchns.XXXXXX); cp -a /repo $W/repo; mkdir $W/verif; (cd /verif; tar cf - --exclude=./evidence --exclude=./.git .) | tar xf - -C $W/verif
unshare -Urm bash -c "mount --bind $W/repo /repo && mount --bind $W/verif /verif && cd /verif && bash tools/catch.sh $*"
rm -rf "$W"
