#!/bin/bash
# dev tool: try.sh <seed id>...: applies each seed to /repo, runs its check, undoes it
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  python3-vt /verif/lib/run.py $p > /tmp/try.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p exit $rc $(grep -c 'violation at' /tmp/try.log) $(grep 'violation at' /tmp/try.log | head -2 | cut -c1-200)"
done
