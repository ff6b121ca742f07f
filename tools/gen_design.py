#!/usr/bin/env python3
"""writes DESIGN.md: tools/design_head.md + one section per property (bounds from props.py) + findings + planted bugs"""
import json,os,sys
H=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(H); sys.path.insert(0,H); sys.argv=['x','P01']; import props
exec(open(H+'/design_how.py').read())
o=open(H+'/design_head.md').read().rstrip()+'\n\n'
o+='## 5. The properties\n\nFor each: what is decided and against which oracle, the bounds, what lies outside, the size (configurations quick / thorough, seconds of the quick run alone on this sandbox), and why the tests cannot settle it.\n\n'
P=[json.loads(l) for l in open(V+'/properties.jsonl')]
for p in P:
    i=p['id']; q=props.PROPS.get(i)
    o+='### %s %s\n\n'%(i,p['title'])
    if not q: o+='Not claimed.\n\n'; continue
    h=HOW[i]; cf=q['configs']; nq=sum(1 for c in cf if c.get('tier','quick') in('quick','quickonly')); nt=sum(1 for c in cf if c.get('tier','quick')!='quickonly')
    src=sorted(set(c.get('src') or q.get('src') or i.lower()+'.cpp' for c in cf))
    o+='*Decided:* %s\n\n*Oracle:* %s\n\n*Bounds:* %s.\n\n*Outside:* %s.\n\n*Harness:* %s; *configurations:* %d quick, %d thorough; *quick run:* %s s. *Beyond the tests:* %s\n\n'%(h['what'],h['oracle'],q.get('bounds','').rstrip('.'),(q.get('outside') or 'nothing that the statement names').rstrip('.'),', '.join('`harness/%s`'%s for s in src),nq,nt,h['s'],h['why'])
o+=open(H+'/design_tail.md').read().rstrip()+'\n\n'
o+='## 8. Genuine defects found and repaired\n\nAll are `fix:` commits in /repo; `known_findings.json` lists them as `fixed`. No finding is open.\n\n'
for f in json.load(open(V+'/known_findings.json'))['findings']:
    o+='- %s `%s` (%s): %s\n'%(f['property'],f.get('commit','-'),f['status'],f.get('what') or f['line'].split(' ',3)[-1])
o+='\n## 9. Planted bugs and which check catches them\n\n| bug | property | what it needs | caught by |\n|---|---|---|---|\n'
C=json.load(open(H+'/seed_results.json')) if os.path.exists(H+'/seed_results.json') else {}
SD={s:d for d in ('seeded_more','seeded') if os.path.isdir(V+'/'+d) for s in os.listdir(V+'/'+d)}
for s in sorted(SD):
    m=json.load(open(V+'/%s/%s/meta.json'%(SD[s],s))); n=m['needs']; 
    o+='| %s | %s | %s | %s |\n'%(s,m['property'],n.replace('|','/'),C.get(s,'(see below)'))
o+='\n'+open(H+'/design_seeds.md').read() if os.path.exists(H+'/design_seeds.md') else ''
open(V+'/DESIGN.md','w').write(o)
