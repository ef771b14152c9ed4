#!/bin/bash
# trybug.sh ID...: runs the quick check of each planted bug's property against a copy of /repo with the bug.
for id in "$@"; do
  W=/tmp/try/$id; mkdir -p /tmp/try; rm -rf $W; cp -a /repo $W
  git -C $W apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  p=${PROP:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  VERIF_REPO=$W VERIF_BUILD=/tmp/try/build python3 /verif/check.py $p ${TIER:-quick} > /tmp/try/$id.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -E '^  [a-z-]+: |ERROR' /tmp/try/$id.log | head -1 | cut -c1-160) | $(grep -E ' runs ' /tmp/try/$id.log | tail -1)"
  rm -rf $W
done
