#!/bin/bash
# run every registered quick check, print its last line
cd "$(dirname "$0")/.."
export PYTHONHASHSEED=0 TZ=UTC PYTHONDONTWRITEBYTECODE=1
for c in $(python3 -c 'import json;print(*[x["property"] for x in json.load(open("MANIFEST.json"))["checks"]])'); do
  [ -n "$1" ] && [[ ! " $* " =~ " $c " ]] && continue
  out=$(timeout 900 python3-vt engine/run.py $c 2>&1); rc=$?
  echo "$(echo "$out" | grep -v '^inconcl\|^KNOWN' | tail -1 | cut -c1-200) rc=$rc"
  echo "$out" | grep 'VIOLATION\|inconcl' | head -4 | cut -c1-200
done
