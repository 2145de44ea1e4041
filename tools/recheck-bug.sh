#!/bin/bash
# rb.sh bugid...: apply each bug, run its property's quick check, restore
for b in "$@"; do p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])"); git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
cd /verif; s=$(date +%s); VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 1000 python3 check.py $p --tier quick > /tmp/rb.out 2>&1; rc=$?; git -C /repo checkout -- .; echo "$b $p rc=$rc $(( $(date +%s)-s ))s $(grep -c VIOLATION /tmp/rb.out) violations"; done
