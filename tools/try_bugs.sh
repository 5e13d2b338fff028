#!/bin/bash
# Development tool: apply each planted bug to /repo, run its property's check, undo it.
# try_bugs.sh [id ...]
cd /verif || exit 2
[ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 2; }
ids=("$@"); [ ${#ids[@]} -gt 0 ] || ids=($(ls seeded))
for id in "${ids[@]}"; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
    s=$(date +%s)
    out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./run.sh "$p" 2>&1); rc=$?
    git -C /repo checkout -q -- .
    echo "$id $p rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep -m1 VIOLATION)"
done
