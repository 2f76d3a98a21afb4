#!/bin/bash
# Determinism: the same seeds in other processes, at another time and under another string-hash seed give the same logs.
# selftest.sh [seeds] [runs per seed] [properties...]
cd "$(dirname "$0")"
seeds=${1:-1,2,3,4,5,6}; per=${2:-12}; shift 2
props=${*:-$(ls dst/props/c[0-9]*.py | xargs -n1 basename | sed 's/.py//' | tr c C)}
rc=0
t=$(mktemp -d /tmp/dst-self.XXXXXX)
one() { DST_HASHSEED=$2 /opt/venv/bin/python check.py detlog $1 $3 $4 > $5 2>&1; }
export -f one
for p in $props; do
  for k in 0 1 2; do echo $p $((k * 4711)) $seeds $per $t/$p.$k; done
done | xargs -P 8 -L 1 bash -c 'one "$@"' _
for p in $props; do
  if grep -qv ' ok ' $t/$p.0 || ! cmp -s $t/$p.0 $t/$p.1 || ! cmp -s $t/$p.0 $t/$p.2; then
    echo "$p DIFFERS"; diff $t/$p.0 $t/$p.1 | head -4; grep -v ' ok ' $t/$p.0 | head -2; rc=1
  else echo "$p identical ($(wc -l < $t/$p.0) runs x 3 processes)"; fi
done
rm -rf "$t"
exit $rc
