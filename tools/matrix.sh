#!/bin/bash
# matrix.sh [seed ids]: run each seed's own property check (quick) ; ALL=1 runs all checks
cd /verif
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for s in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s APPLYFAIL"; continue; }
  if [ -n "$ALL" ]; then L=$(seq -f 'C%02g' 1 31); else L=$p; fi
  r=""
  for c in $L; do
    bash run.sh $c quick >/tmp/mx.out 2>&1; rc=$?
    if [ $rc = 1 ] && grep -q "VIOLATION property=$c" /tmp/mx.out; then r="$r $c"; elif [ $rc != 0 ]; then r="$r $c(rc=$rc)"; fi
  done
  git -C /repo checkout -- .
  echo "$s own=$p caught:$r"
done
bash run.sh build >/dev/null 2>&1
