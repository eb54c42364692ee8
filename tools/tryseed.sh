#!/bin/bash
# tryseed.sh ID...: does the check of the planted bug's property catch it? Uses a copy of /repo and SIM_REPO.
W=/tmp/trywork; mkdir -p $W
for id in "$@"; do
  rm -rf $W/repo; mkdir -p $W/repo; cp -a /repo/src /repo/libirc /repo/*.h $W/repo/ ; 
  (cd $W/repo && git init -q . && git apply /verif/seeded/$id/patch.diff) || { echo "$id: no apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  for q in ${PROPS:-$p}; do
    o=$(SIM_REPO=$W/repo python3 /verif/tools/check.py $q 2>&1); r=$?
    echo "$id $q rc=$r $(echo "$o" | grep -B0 -A0 -E 'VIOLATION|error' | head -2) :: $(echo "$o" | grep -E '^(P[0-9]+\.|relay|reply|session|CRASH|HANG|attach|client)' | head -1 | cut -c1-160)"
  done
done
