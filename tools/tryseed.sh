#!/bin/bash
# tryseed.sh [id...]: applies each planted bug to /repo, runs the check of its property and undoes it.
cd /verif/seeded || exit 1
[ $# -eq 0 ] && set -- *
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  out=$(timeout 900 bash /verif/check.sh ${PROP:-$p} ${TIER:-quick} 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id ($p): rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep -c ^VIOLATION) violations; $(echo "$out" | grep -m1 '^  ' | cut -c1-200)"
done
