#!/bin/bash
# seed_new.sh ID : takes the scratch copy's diff (${MUT:-/tmp/mut}) as seeded/ID/patch.diff and adds the demo kit
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C ${MUT:-/tmp/mut} diff > $d/patch.diff
cp /verif/tools/demo_kit/* $d/
