#!/bin/bash
# seed_verify.sh ID : demo passes without / fails with the patch, stable tests pass with it (in a scratch copy ${MUT:-/tmp/mut})
id=$1; d=/verif/seeded/$id
cd ${MUT:-/tmp/mut} && git checkout -q -- . && git -C ${MUT:-/tmp/mut} reset -q --hard $(git -C /repo rev-parse HEAD) 2>/dev/null
git apply $d/patch.diff || exit 1
bash $d/demo.sh; bad=$?
git checkout -q -- .
bash $d/demo.sh; good=$?
echo "SEED $id with patch: $bad   without: $good"
