#!/bin/bash
# tools/retry.sh [ids...]: applies each planted bug to a scratch copy of /repo and runs its property's quick check
cd "$(dirname "$0")/.."
for i in ${@:-$(ls seeded)}; do
  wt=/tmp/plant/$i; rm -rf /tmp/plant/$i; mkdir -p /tmp/plant; cp -a /repo $wt
  git -C $wt apply $PWD/seeded/$i/patch.diff || { echo "NOAPPLY $i"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  o=$(VERIF_REPO=$wt python3 run.py $p 2>/dev/null); rc=$?
  [ $rc = 1 ] && echo "CAUGHT $i $p $(echo "$o" | head -1 | cut -c1-90)" || echo "MISSED($rc) $i $p"
  rm -rf /tmp/plant/$i
done
