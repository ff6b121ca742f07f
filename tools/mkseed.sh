#!/bin/bash
# mkseed.sh ID  : turns the working-tree change of /tmp/sw/r into seeded/ID/patch.diff and resets the tree
cd /tmp/sw/r && mkdir -p /verif/seeded/$1 && git diff > /verif/seeded/$1/patch.diff && git checkout -q -- . && wc -l /verif/seeded/$1/patch.diff
