#!/bin/bash
# every check in turn: tools/all.sh [thorough]
cd "$(dirname "$(realpath "$0")")/.."
for p in $(python3 -c 'import json;print(*[c["property"] for c in json.load(open("MANIFEST.json"))["checks"]])'); do
  t=$SECONDS; ./check.sh check $p $1 > /tmp/all.$p.log 2>&1; echo "$p rc=$? $((SECONDS-t)) s: $(grep -c VIOLATION /tmp/all.$p.log) violations; $(tail -1 /tmp/all.$p.log | cut -c1-200)"
done
