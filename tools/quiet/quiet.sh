#!/bin/bash
# quiet.sh NAME: apply refactoring NAME to /repo, run all checks
python3 /verif/tools/quiet/refactor.py $1 || exit 1
cd /repo && git diff > /verif/tools/quiet/$1.diff
bash /opt/vp/test.sh /tmp/q.json 2>&1 | grep -E "^test result|^error" -A5 | head -20
cd /verif
for p in ${2:-$(seq -f C%02g 1 27)}; do s=$(date +%s); ./check.sh $p quick > /tmp/quiet.$1.$p.log 2>&1; rc=$?; echo "$p rc=$rc $(($(date +%s)-s))s $(grep -E -A1 -m2 'VIOLATION|^ERROR' /tmp/quiet.$1.$p.log | cut -c1-220)"; done
git -C /repo checkout -q -- .
