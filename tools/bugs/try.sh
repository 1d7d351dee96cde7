#!/bin/bash
# try.sh <id>...: apply the planted bug to /repo, run its property's check, undo
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$id APPLY"; continue; }
  s=$(date +%s); /verif/check.sh "$p" quick > /tmp/try.$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(grep -m1 -A1 -E '^VIOLATION' /tmp/try.$id.log | tail -1 | cut -c1-150) $(grep -m1 -E '^ERROR' /tmp/try.$id.log | cut -c1-200)"
done
