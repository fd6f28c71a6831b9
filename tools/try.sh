#!/bin/bash
# try.sh ID...: runs the check of the property that each planted bug breaks against it
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 1; }
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ./run.sh $p 2>&1); rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ] && echo "$out" | grep -q "^VIOLATION property=$p "; then echo "$id $p CAUGHT"; else echo "$id $p MISSED rc=$rc"; fi
done
