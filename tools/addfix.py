#!/usr/bin/env python3
# record repaired defects: addfix.py PROP HASH 'text'
import json,sys
p='/verif/known_findings.json'; d=json.load(open(p))
for pr,h,t in zip(*[iter(sys.argv[1:])]*3):
    if any(f.get('commit')==h and f['property']==pr for f in d['findings']): continue
    d['findings'].append(dict(property=pr,status='fixed',commit=h,line='fixed: property=%s %s %s'%(pr,h,t),what=t))
json.dump(d,open(p,'w'),indent=1); open(p,'a').write('\n')
