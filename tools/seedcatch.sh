#!/bin/bash
# usage: seedcatch.sh ID...   applies each planted change to the scratch clone /tmp/se of /repo, runs its
# property's check built against that clone, undoes it. (/repo itself stays untouched: vcheck may be reading it.)
for ID in "$@"; do
  D=/verif/seeded/$ID; P=$(python3 -c "import json,sys;print(json.load(open('$D/meta.json'))['property'])")
  git -C /tmp/se checkout -q -- . ; git -C /tmp/se fetch -q /repo HEAD && git -C /tmp/se reset -q --hard FETCH_HEAD
  git -C /tmp/se apply $D/patch.diff || { echo "$ID does not apply"; continue; }
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 1000 /verif/tools/dev.sh ${P,,} > /tmp/catch.$ID.log 2>&1; rc=$?
  git -C /tmp/se checkout -q -- .
  echo "$ID $P rc=$rc $(grep -h -m1 VIOLATION /tmp/catch.$ID.log)"; grep -h -B1 -m1 -E '^VIOLATION' /tmp/catch.$ID.log | head -1 | cut -c1-200
done
