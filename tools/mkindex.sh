#!/bin/bash
# regenerates libindex.json (hint: which library file defines a symbol; the checks fall back to all files)
cd /verif/tools; W=$(mktemp -d); for f in /repo/lib/*.cpp; do b=$(basename $f .cpp); echo $b; done | xargs -P8 -I{} sh -c "clang++ -std=c++11 -O0 -DNDEBUG -w -I/repo/include -c /repo/lib/{}.cpp -o $W/{}.o"
python3 - $W <<'P'
import sys,os,subprocess,json
d={}
for f in sorted(os.listdir(sys.argv[1])):
    for l in subprocess.run(['nm','-P','--defined-only',sys.argv[1]+'/'+f],capture_output=True,text=True).stdout.splitlines():
        p=l.split()
        if p[1] in 'TDRB': d.setdefault(p[0],f[:-2])
json.dump(d,open('libindex.json','w'),indent=0,sort_keys=True)
print(len(d))
P
rm -rf $W
