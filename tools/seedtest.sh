#!/bin/bash
# seedtest.sh [id...]: applies each planted change to /repo, runs the check of
# its property, undoes it, and says whether the check reports it.
cd /verif
ids=("$@"); [ $# -eq 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "NOAPPLY $id"; continue; }
  out=$(bash check.sh $p 2>&1); rc=$?
  git -C /repo checkout -- .
  if [ $rc -eq 1 ] && grep -q "VIOLATION property=$p" <<<"$out"; then echo "caught  $id ($p) $(grep -m1 VIOLATION <<<"$out" | cut -c1-150)"; else echo "MISSED  $id ($p) rc=$rc"; fi
done
