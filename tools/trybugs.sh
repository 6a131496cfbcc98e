#!/bin/bash
# usage: trybugs.sh [id...] -- applies each planted change to /repo in turn, runs its property's quick check, undoes it
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  VERIF_SEED=1 VERIF_TIER=quick bash run.sh $p quick > /tmp/bug-$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " /tmp/bug-$id.log; then echo "$id: caught by $p"; else echo "$id: MISSED by $p (rc=$rc)"; fi
done
