#!/bin/bash
# d.sh BIN PROP CASES [SEED] [maxshow]: dev build and run
cd /verif; python3 dev.py $1 > /tmp/dev-$1.log 2>&1 || { grep -E "error|undefined" /tmp/dev-$1.log | head -20; exit 1; }
build/dev-$1-rel/exe --prop $2 --seed ${4:-1} --cases $3 --dev 1 --maxshow ${5:-40} 2>&1 | grep -vE "^   |^$|^VIOL" | cut -c1-330 | head -${6:-120}
