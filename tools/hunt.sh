#!/bin/bash
# hunt.sh ID... : quick check of each planted bug's property with it applied to /repo
cd /verif; export VERIF_SHRINK_S=${VERIF_SHRINK_S:-2}
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  for q in $p ${ALSO:-}; do
  o=$(./run.sh $q quick 2>&1); rc=$?
  echo "$id $q rc=$rc $(echo "$o" | grep VIOLATION | head -1)"
  [ $rc = 1 ] || echo "   MISSED: $(echo "$o" | tail -1)"
  done
  git -C /repo checkout -- .
done
