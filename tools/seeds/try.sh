#!/usr/bin/env bash
# try.sh ID...: runs each planted bug's own check (quick) against it in /repo and undoes it.
cd /verif
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  for q in ${PROPS:-$p}; do
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; continue; }
  s=$(date +%s)
  out=$(./check $q quick 2>/tmp/try.err); rc=$?
  git -C /repo checkout -q -- .
  echo "$b ${q} rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep '^property' | head -1 | cut -c1-150)"
  done
done
