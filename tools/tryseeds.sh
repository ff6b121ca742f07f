#!/bin/bash
# Confirms planted bugs: tryseeds.sh ID...  All patches are tried together in one scratch copy of /repo that is
# bind-mounted over /repo inside a private mount namespace; demos are tried one by one with and without their patch.
set -u
S=$(mktemp -d /tmp/seedtry_XXXXXX); cp -a /repo $S/repo; [ -n "${PULL:-}" ] && git -C $S/repo pull -q "$PULL" HEAD; export S; IDS="$*"; export IDS
unshare -Urm bash -c '
mount --bind $S/repo /repo || exit 9
cd /repo; git config --global --add safe.directory /repo 2>/dev/null
for i in $IDS; do ( cp -a /verif/seeded/$i $S/d_$i; cd /repo; timeout 300 bash $S/d_$i/demo.sh >$S/o 2>&1; echo "$i clean demo rc=$?"; ) ; done
for i in $IDS; do git apply /verif/seeded/$i/patch.diff || { echo "$i DOES NOT APPLY"; }; ( cd /repo; timeout 300 bash $S/d_$i/demo.sh >$S/o 2>&1; echo "$i patched demo rc=$?"; tail -2 $S/o); git checkout -q -- . ; done
for i in $IDS; do git apply /verif/seeded/$i/patch.diff || echo "$i conflicts"; done
if [ -z "${NOTEST:-}" ]; then
HOME=/root nice bash /opt/vp/test.sh $S/out.json > $S/test.log 2>&1; tail -3 $S/test.log
python3 - $S/out.json <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open(sys.argv[1]))
def tests(x):
    for k in("passed","pass","stable","tests"):
        if k in x: return x[k]
    return list(x)
bp=set(tests(b)); op=set(tests(o)); miss=bp-op
print("baseline",len(bp),"now",len(op),"missing",len(miss),sorted(miss)[:15])
P
fi
'
rm -rf $S
