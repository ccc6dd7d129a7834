#!/bin/bash
# new.sh ID: make seeded/ID from the scratch tree /tmp/mut/repo (git diff) and /tmp/mut/demo.rs + meta.json
# then confirm it: patch builds, stable tests pass, demo 0 without and nonzero with.
set -e
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
cp /verif/harness/demo/demo.sh $D/; cp /tmp/mut/$ID.rs $D/demo.rs; cp /tmp/mut/$ID.json $D/meta.json
git -C /tmp/mut/repo diff > $D/patch.diff
