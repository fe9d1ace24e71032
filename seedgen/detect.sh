#!/bin/bash
# detect.sh [id...]: apply each planted bug to /repo, run its property's quick check, undo it.
cd "$(dirname "$0")/.."
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for i in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i APPLY"; continue; }
  s=$(date +%s)
  out=$(timeout 900 ./check.sh "${PROP:-$p}" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$i ${PROP:-$p} rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 VIOLATION)"
done
