#!/bin/bash
# tryseed.sh ID...: apply each planted bug to /repo, run the check of its property, undo
cd /verif
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: patch does not apply"; continue; }
  python3-vt engine/check.py $p quick > /tmp/tryseed.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "== $s $p rc=$rc $(grep -c . /tmp/tryseed.out) lines; $(grep VIOLATION /tmp/tryseed.out)"; [ -n "$V" ] && cat /tmp/tryseed.out
done
