#!/bin/bash
# try.sh BUG...: apply each planted bug to /repo, run its property's quick check, undo
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b APPLY-FAIL"; continue; }
  out=$(cd /verif && python3 check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$b $p rc=$rc $(echo "$out" | grep -m1 VIOLATION)"
done
