#!/bin/bash
# Runs every registered quick check once and prints one line per check.
cd "$(dirname "$0")"
for f in dst/props/c[0-9]*.py; do
  p=$(basename $f .py | tr c C)
  out=$(/opt/venv/bin/python check.py $p "$@" 2>&1); rc=$?
  echo "$p rc=$rc $(echo "$out" | grep -v '^KNOWN' | tail -1 | cut -c1-110)"
done
