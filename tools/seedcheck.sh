#!/bin/bash
# seedcheck.sh ID... : runs the quick check of each planted bug's property against a scratch copy with the bug applied
for i in "$@"; do S=$(mktemp -d /tmp/sc_XXXXXX); git -C ${BASE:-/repo} archive HEAD | tar x -C $S; (cd $S; git init -q .; git apply /verif/seeded/$i/patch.diff) || echo "$i does not apply"
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
cp /verif/evidence/$p.json $S/ev.json 2>/dev/null
a=$(date +%s); VERIF_REPO=$S python3 /verif/tools/check.py $p quick > $S/log 2>&1; rc=$?; echo "$i $p rc=$rc $(( $(date +%s)-a ))s $(grep -m1 -A1 '^VIOLATION' $S/log | tail -1 | cut -c1-150)"
cp $S/ev.json /verif/evidence/$p.json 2>/dev/null; rm -rf $S; done
