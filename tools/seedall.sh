#!/bin/bash
# seedall.sh [ID...]: runs the quick check of each planted bug's property with
# the bug applied to /repo (undone afterwards) and prints whether it is caught.
cd /verif
for i in ${*:-$(ls seeded)}; do
  d=seeded/$i; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $PWD/$d/patch.diff || { echo "$i NOAPPLY"; continue; }
  s=$(date +%s); ./check.sh $p quick >/tmp/seedall.out 2>&1; rc=$?
  git -C /repo checkout -- .
  v=$(grep -c "^VIOLATION property=$p" /tmp/seedall.out); h=$(grep -oE "^HC[A-Za-z0-9]+: .*" /tmp/seedall.out | head -1 | cut -c1-90)
  echo "$i $p rc=$rc violations=$v $(( $(date +%s)-s ))s $h"
done
