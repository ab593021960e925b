#!/bin/bash
# dev/runall.sh REPO OUT: every check on REPO, summary lines in OUT
cd "$(dirname "$0")/.."
: > "$2"
for i in $(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))"); do
  python3-vt check.py $i --repo "$1" -v > /tmp/runall.$i.log 2>&1; rc=$?
  echo "$i rc=$rc $(grep -c ^VIOLATION /tmp/runall.$i.log) $(grep '^property' /tmp/runall.$i.log)" >> "$2"
done
