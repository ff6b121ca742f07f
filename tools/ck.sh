#!/bin/bash
# run one check and print only what is not an ordinary quick success
cd "$(dirname "$0")/.."; (time timeout 1500 python3 tools/check.py "$@" ) 2>&1 | cut -c1-${CW:-260} | grep -v "ok  *[0-${CK:-4}]\.[0-9]s\|built\|lemmas\|^user\|^sys\|^$" | awk '{k=$0; sub(/^\[[^]]*\] *(\[[^]]*\])? */,"",k); split(k,a," "); if(a[2]=="error"||a[2]=="viol"){ e=k; sub(/^[^ ]+ +/,"",e); sub(/[0-9.]+s q=[0-9]+ st=[0-9]+ as=[0-9]+ /,"",e); if(c[e]++>=2) next; } print }' | head -${CL:-45}
