#!/bin/bash
# seedcheck.sh ID...: run the check of the property of each planted bug against it
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" 2>/dev/null || { echo "$id: patch does not apply"; continue; }
  s=$(date +%s)
  timeout 900 python3 check.py "$p" >"/tmp/seedcheck_$id.log" 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s :: $(grep VIOLATION "/tmp/seedcheck_$id.log")"
done
