#!/bin/bash
# asan_triage.sh BIN PROP CASES: development aid, shows the sanitizer message behind each failure of a dev asan build
cd /verif; d=/tmp/rp/as-$1-$2; mkdir -p $d; rm -f $d/*.replay
export ASAN_OPTIONS=detect_leaks=0:malloc_context_size=6:quarantine_size_mb=8:exitcode=55:handle_abort=0
build/dev-$1-asan/exe --prop $2 --seed ${4:-1} --cases $3 --dev 1 --maxshow 12 --replaydir $d > $d/out 2>&1; grep "failure:\|quick seed" $d/out | cut -c1-160
for f in $d/*.replay; do [ -f $f ] || continue; echo "== $f $(grep -m1 ^signature $f)"; VERIF_STDERR=1 build/dev-$1-asan/exe --prop $2 --replay $f 2>&1 | grep -a "runtime error\|Assertion\|ERROR: Add\|    #[0-5] " | head -${5:-3} | cut -c1-250; done
