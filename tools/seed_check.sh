#!/bin/bash
# seed_check.sh ID [PROP] : applies the planted change to /repo, runs the property's quick check, undoes it
id=$1; p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
[ -n "$(git -C /repo status --porcelain -uno)" ] && { echo "/repo is not clean"; exit 2; }
git -C /repo apply /verif/seeded/$id/patch.diff || exit 2
t0=$(date +%s)
VERIF_SEED=${VERIF_SEED:-1} python3 /verif/check.py $p ${TIER:-quick} > /tmp/seed_check.out 2>&1; rc=$?
git -C /repo checkout -- .
echo "SEED $id $p rc=$rc $(( $(date +%s) - t0 ))s: $(grep -E '^VIOLATION|^error|ERROR' /tmp/seed_check.out | head -1 | cut -c1-150)"
grep -hoE "key=\S+" /tmp/seed_check.out | sort | uniq -c | head -5
