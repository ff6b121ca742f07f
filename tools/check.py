#!/usr/bin/env python3
"""Decide one property by symbolic execution of the current /repo sources.
usage: check.py PID [quick|thorough] [--only NAME] [--keep] [--jobs N]"""
import sys, os, re, json, time, subprocess, tempfile, shutil, signal, threading, queue, random
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE); REPO=os.environ.get('VERIF_REPO','/repo')
sys.path.insert(0,HERE)
import props
PID=sys.argv[1]; args=sys.argv[2:]
TIER=os.environ.get('VERIF_TIER','quick')
if args and args[0] in('quick','thorough'): TIER=args.pop(0)
ONLY=None; KEEP=False; JOBS=8
while args:
    a=args.pop(0)
    if a=='--only': ONLY=args.pop(0)
    elif a=='--keep': KEEP=True
    elif a=='--jobs': JOBS=int(args.pop(0))
SEED=int(os.environ.get('VERIF_SEED','1') or 1)
T0=time.time()
def now(): return time.time()-T0
def log(*a):
    print('[%6.1fs]'%now(),*a,flush=True)
P=props.PROPS[PID]
BUDGET=P.get('budget',{}).get(TIER, 240 if TIER=='quick' else 780)
WORK=tempfile.mkdtemp(prefix='sdslverif_')
procs=set(); plock=threading.Lock()
def run(cmd,timeout=None,env=None,cwd=None,outfile=None,limit_gb=None):
    """returns (rc,stdout+stderr); rc=-999 on timeout"""
    def pre():
        import resource
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE,(0,0))
        if limit_gb: resource.setrlimit(resource.RLIMIT_AS,(int(limit_gb*(1<<30)),)*2)
    p=subprocess.Popen(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=env,cwd=cwd,preexec_fn=pre)
    with plock: procs.add(p)
    try: out,_=p.communicate(timeout=timeout); rc=p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid,signal.SIGKILL)
        except OSError: pass
        out,_=p.communicate(); rc=-999
    with plock: procs.discard(p)
    return rc,out.decode('utf-8','replace')
def cleanup():
    for p in list(procs):
        try: os.killpg(p.pid,signal.SIGKILL)
        except OSError: pass
    if KEEP: print('kept',WORK)
    else: shutil.rmtree(WORK,ignore_errors=True)
def die(msg,rc=2):
    log('ERROR',msg); cleanup(); sys.exit(rc)
def pool(jobs,n=None):
    """jobs: list of callables; runs them on n threads"""
    q=queue.Queue(); res=[None]*len(jobs)
    for i,j in enumerate(jobs): q.put((i,j))
    def w():
        while True:
            try: i,j=q.get_nowait()
            except queue.Empty: return
            try: res[i]=j()
            except Exception as e: res[i]=e
    ts=[threading.Thread(target=w) for _ in range(min(n or JOBS,len(jobs)))]
    [t.start() for t in ts]; [t.join() for t in ts]
    for r in res:
        if isinstance(r,Exception): raise r
    return res
# ---------------------------------------------------------------- engine
def engine():
    d=os.environ.get('IRSYM_DIR') or os.path.join(VERIF,'build')
    exe=os.path.join(d,'irsym'); src=os.path.join(VERIF,'irsym')
    newest=max(os.path.getmtime(os.path.join(src,f)) for f in os.listdir(src))
    if os.path.exists(exe) and os.path.getmtime(exe)>=newest: return exe
    d=os.path.join(WORK,'eng'); rc,o=run(['bash',os.path.join(src,'build.sh'),d],600)
    if rc: die('cannot build the executor:\n'+o)
    return os.path.join(d,'irsym')
# ---------------------------------------------------------------- bitcode
LIBS=sorted(f[:-4] for f in os.listdir(REPO+'/lib') if f.endswith('.cpp') and f!='structure_tree.cpp')+['structure_tree']
PREH=WORK+'/pre.h'
open(PREH,'w').write('#include <bits/c++config.h>\n#undef _GLIBCXX_EXTERN_TEMPLATE\n#define _GLIBCXX_EXTERN_TEMPLATE 0\n#ifdef __BMI2__\n#include <immintrin.h>\nstatic inline unsigned long long __sym_pdep(unsigned long long v,unsigned long long m){ unsigned long long r=0; unsigned k=0; for(int i=0;i<64;i++){ unsigned long long b=(m>>i)&1; r|=(b&(v>>(k&63)))<<i; k+=b; } return r; }\n#define _pdep_u64 __sym_pdep\n#endif\n')
st=open(REPO+'/lib/structure_tree.cpp.cmake').read().replace('@PROJECT_SOURCE_DIR@',REPO)
open(WORK+'/structure_tree.cpp','w').write(st)
def libsrc(l): return WORK+'/structure_tree.cpp' if l=='structure_tree' else REPO+'/lib/'+l+'.cpp'
HOOK='-DSDSL_VERIF_MAX_BUFFERSIZE=%d'%P.get('bufsize',128)
BCFL=['-std=c++11','-O1','-Xclang','-disable-llvm-passes','-DNDEBUG','-DSYM_ENGINE',HOOK,'-include',PREH,'-fno-vectorize','-fno-slp-vectorize','-fno-unroll-loops','-fno-math-errno','-emit-llvm','-c','-w','-gline-tables-only','-I'+REPO+'/include','-I'+VERIF+'/rt','-I'+VERIF+'/harness']
_bc={}; bclock=threading.Lock()
def bc(src,out,defs=()):
    rc,o=run(['clang++']+BCFL+list(defs)+[src,'-o',out],600)
    if rc: raise RuntimeError('compile failed: '+src+'\n'+o[-3000:])
    return out
def syms(f):
    rc,o=run(['llvm-nm-18','--format=just-symbols','-u',f],60); und=set(o.split())
    rc,o=run(['llvm-nm-18','--format=posix','--defined-only',f],60)
    de=set(l.split()[0] for l in o.splitlines() if len(l.split())>1 and l.split()[1] in 'TDRBV')
    return und,de
def build_variant(name,src,defs):
    """compile one harness variant to an executable bitcode file; returns (bc, libs used)"""
    h=bc(os.path.join(VERIF,'harness',src),WORK+'/h_%s.bc'%name,defs)
    und,de=syms(h); used=[]; defined=set(de); 
    idx=json.load(open(HERE+'/libindex.json')) if os.path.exists(HERE+'/libindex.json') else {}
    def getlib(l):
        with bclock:
            e=_bc.get(l)
            if e is None: e=_bc[l]={'lock':threading.Lock(),'ok':False}
        with e['lock']:
            if not e['ok']:
                f=bc(libsrc(l) if l!='__models' else VERIF+'/rt/models.cpp',WORK+'/l_%s.bc'%l); u,d=syms(f); e.update(ok=True,f=f,u=u,d=d)
        return e
    need=set(und)-defined; allc=False
    m=getlib('__models'); need|=m['u']; defined|=m['d']; need-=defined
    while True:
        cand=set(idx[s] for s in need if s in idx and idx[s] in LIBS)-set(used)
        if not cand:
            miss=[s for s in need if '4sdsl' in s and s not in defined]
            if not miss or allc: break
            allc=True
            es=pool([lambda l=l:(l,getlib(l)) for l in LIBS])
            cand=set(l for l,e in es if (e['d']&need) and l not in used); 
            for l,e in es:
                for s in e['d']: idx.setdefault(s,l)
                for s in e['d']&need: idx[s]=l
            if not cand: break
        for l,e in pool([lambda l=l:(l,getlib(l)) for l in sorted(cand)]):
            used.append(l); need|=e['u']; defined|=e['d']
        need-=defined
    b=WORK+'/'+name
    def x(cmd):
        rc,o=run(cmd,600)
        if rc: raise RuntimeError(' '.join(cmd[:3])+' failed\n'+o[-3000:])
    x(['llvm-link-18',h]+[_bc[l]['f'] for l in used]+['--override',m['f'],'-o',b+'.l.bc'])
    x(['opt-18','-passes=internalize,globaldce','--internalize-public-api-list=__sym_main',b+'.l.bc','-o',b+'.d.bc'])
    x(['opt-18','-passes=forceattrs']+['-force-attribute=%s:noinline'%f for f in SUMM]+[b+'.d.bc','-o',b+'.e.bc'])
    x(['opt-18','-passes=default<O1>','-vectorize-loops=false','-vectorize-slp=false',b+'.e.bc','-o',b+'.bc'])
    for s in('.l.bc','.d.bc','.e.bc'): os.unlink(b+s)
    return b+'.bc',used
SUMM={'_ZN4sdsl4bits3cntEm':1,'_ZN4sdsl4bits2hiEm':2,'_ZN4sdsl4bits2loEm':3,'_ZN4sdsl4bits3selEmj':4}
SUMN={1:'bits::cnt',2:'bits::hi',3:'bits::lo',4:'bits::sel'}
# ---------------------------------------------------------------- native builds (replay, trace validation)
_nat={}; _natlk={}
def native_lib(l,fl,tag):
    o=WORK+'/n%s_%s.o'%(tag,l)
    with bclock: e=_nat.setdefault((l,tag),{'lock':threading.Lock(),'ok':False})
    with e['lock']:
        if not e['ok']:
            rc,t=run(['g++']+fl+['-c',libsrc(l),'-o',o],600)
            if rc: raise RuntimeError('native compile of '+l+'\n'+t[-2000:])
            e['ok']=True
    return o
NFL=['-std=c++11','-O1','-DNDEBUG',HOOK,'-w','-I'+REPO+'/include','-I'+VERIF+'/rt','-I'+VERIF+'/harness']
SAN=['-g','-fsanitize=thread' if P.get('tsan') else '-fsanitize=address']
def native(name,src,defs,used,asan=False):
    fl=NFL+(SAN+['-fno-omit-frame-pointer'] if asan else []); tag='a' if asan else 'p'; exe=WORK+'/nat%s_%s'%(tag,name)
    with bclock: lk=_natlk.setdefault(exe,threading.Lock())
    with lk: return native2(name,src,defs,used,fl,tag,exe)
def native2(name,src,defs,used,fl,tag,exe):
    if os.path.exists(exe): return exe
    objs=pool([lambda l=l: native_lib(l,fl,tag) for l in used]) if used else []
    rc,t=run(['g++']+fl+list(defs)+[os.path.join(VERIF,'harness',src),VERIF+'/rt/native.cpp']+objs+['-o',exe,'-ldivsufsort','-ldivsufsort64','-lpthread'],900)
    if rc: raise RuntimeError('native link of '+src+'\n'+t[-2000:])
    return exe
NENV=dict(os.environ,MALLOC_PERTURB_='90',ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1',TSAN_OPTIONS='exitcode=66:halt_on_error=1',TMPDIR=WORK)
def natrun(exe,opts,timeout=60):
    d=tempfile.mkdtemp(dir=WORK)
    return run([exe]+opts,timeout,env=NENV,cwd=d)
def cfgopts(c):
    o=[]
    for k,v in sorted(c.items()): o+=['-c','%s=%d'%(k,v)]
    return o
# ---------------------------------------------------------------- main
def main():
    confs=[dict(c) for c in P['configs'] if (TIER=='thorough' or c.get('tier','quick')=='quick') and not (TIER=='thorough' and c.get('tier')=='quickonly')]
    if ONLY: confs=[c for c in confs if c['name']==ONLY or c['name'].startswith(ONLY)]
    if not confs: die('no configuration')
    variants={}
    for c in confs:
        c.setdefault('src',P.get('src',PID.lower()+'.cpp')); c.setdefault('defs',P.get('defs',[])); c.setdefault('cfg',{})
        c['variant']=re.sub(r'\W','_',c['src'].replace('.cpp','')+'_'+'_'.join(c['defs'])); variants[c['variant']]=(c['src'],tuple(c['defs']))
    uselem=P.get('summaries',True)
    eng={}
    def doeng(): eng['exe']=engine()
    jobs=[doeng]+[lambda v=v,sd=sd:(v,build_variant(v,*sd)) for v,sd in variants.items()]
    if uselem: jobs.append(lambda:('lemma',build_variant('lemma','lemma.cpp',())))
    built=dict(r for r in pool(jobs) if r)
    log('built',', '.join(variants),'libs:',sorted(set(l for v in built.values() for l in v[1])))
    exe=eng['exe']
    # native builds in the background
    nats={}
    def bgnat():
        for v,(s,d) in variants.items():
            try: nats[v]=native(v,s,d,built[v][1])
            except Exception as e: nats[v]=e
    bt=threading.Thread(target=bgnat); bt.start()
    # lemmas
    summ=[]; lemres={}
    if uselem:
        lj=[('cnt',{'lemma':1}),('hi',{'lemma':2}),('lo',{'lemma':3})]+[('sel',{'lemma':4,'ilo':a,'ihi':a+10 if a<55 else 64}) for a in (1,12,23,34,45,56)]
        def lem(n,c,i):
            o=WORK+'/lem%d.json'%i; rc,t=run([exe,built['lemma'][0],'-t','60','-o',o]+cfgopts(c),90)
            try: return n,rc,json.load(open(o))
            except Exception: return n,3,{'queries':0,'solver_time':0,'detail':t[-300:]}
        for n,rc,j in pool([lambda n=n,c=c,i=i:lem(n,c,i) for i,(n,c) in enumerate(lj)]):
            r=lemres.setdefault(n,{'proved':True,'queries':0,'solver_time':0}); r['proved']&=(rc==0); r['queries']+=j['queries']; r['solver_time']+=j['solver_time']
        num={'cnt':1,'hi':2,'lo':3,'sel':4}
        for f,k in SUMM.items():
            n=[a for a,b in num.items() if b==k][0]
            if lemres[n]['proved']: summ+=['-s','%s=%d'%(f,k)]
        log('lemmas:',{n:r['proved'] for n,r in lemres.items()})
    os.makedirs(VERIF+'/replays',exist_ok=True)
    known=[k for k in json.load(open(VERIF+'/known_findings.json'))['findings'] if k['property']==PID and k.get('status')=='known'] if os.path.exists(VERIF+'/known_findings.json') else []
    results=[]; viol=[]; rl=threading.Lock(); stop=threading.Event(); nconf=[]
    def one(c):
        name=c['name']; left=BUDGET-now()
        if left<3: return dict(c,status='skipped',detail='time budget of the run exhausted',j={})
        t=min(c.get('t',100 if TIER=='quick' else 400),left); o=WORK+'/r_%s.json'%re.sub(r'\W','_',name)
        cmd=[exe,built[c['variant']][0],'-o',o,'-t','%.0f'%t,'-q',str(c.get('q',60)),'-z',str(c.get('z',4 if TIER=='quick' else 20))]+cfgopts(c['cfg'])+(summ if c.get('summ',True) else [])+c.get('opts',[])
        rc,t_=run(cmd,t+60)
        try: j=json.load(open(o))
        except Exception: return dict(c,status='error',detail='executor ended with %s: %s'%(rc,t_[-200:]),j={})
        return dict(c,status=j['status'],detail=j['detail'],j=j)
    def cand(c,r):
        """a counterexample: replay it natively. returns path if confirmed"""
        j=r['j']; rp=VERIF+'/replays/%s_%s'%(PID,re.sub(r'\W','_',c['name'])); os.makedirs(rp,exist_ok=True)
        with open(rp+'/values','w') as f:
            for k,v in j['values'].items(): f.write('%s %d\n'%(k,v))
        s,d=variants[c['variant']]; conf=None
        rlib=built[c['variant']][1]; json.dump({'property':PID,'config':c['name'],'cfg':c['cfg'],'src':s,'defs':list(d),'detail':r['detail'],'kind':j['kind'],'libs':rlib},open(rp+'/info.json','w'),indent=1)
        opts=['-V',rp+'/values']+cfgopts(c['cfg'])
        for asan in (False,True):
            try: e=native(c['variant'],s,d,rlib,asan)
            except Exception as ex: log('native build failed',str(ex)[:300]); continue
            for _ in range(6 if asan and P.get('tsan') else 1): # a race does not show up in every run
                rc,t=natrun(e,opts,120)
                if rc: break
            bad = rc==77 or rc==-999 or rc<0 or (asan and ('AddressSanitizer' in t)) or (rc not in(0,77))
            open(rp+'/native_%s.txt'%('asan' if asan else 'plain'),'w').write('rc=%s\n%s'%(rc,t[-20000:]))
            if bad: conf=('asan' if asan else 'plain',rc,t); break
        with open(rp+'/replay.sh','w') as f:
            f.write('#!/bin/bash\n# native replay of the counterexample (exit 77: property assertion violated)\nset -e; D=$(cd "$(dirname "$0")"; pwd); W=$(mktemp -d); trap "rm -rf $W" EXIT; cd $W\nsed "s#@PROJECT_SOURCE_DIR@#/repo#" /repo/lib/structure_tree.cpp.cmake > structure_tree.cpp\nfor l in %s; do s=/repo/lib/$l.cpp; [ $l = structure_tree ] && s=structure_tree.cpp; g++ %s -c $s -o $l.o & done; wait\ng++ %s %s %s/harness/%s %s/rt/native.cpp *.o -o t -ldivsufsort -ldivsufsort64 -lpthread 2>/dev/null || g++ %s %s %s/harness/%s %s/rt/native.cpp -o t -ldivsufsort -ldivsufsort64 -lpthread\nset +e; TSAN_OPTIONS=exitcode=66 MALLOC_PERTURB_=90 ./t %s\n'%(' '.join(rlib),' '.join(NFL+SAN),' '.join(NFL+SAN),' '.join(d),VERIF,s,VERIF,' '.join(NFL+SAN),' '.join(d),VERIF,s,VERIF,' '.join(['-V','$D/values']+cfgopts(c['cfg']))))
        return rp if conf else None,conf
    def work(c):
        if stop.is_set(): return
        r=one(c); r['t_end']=now()
        if r['status']=='violation':
            rp,conf=cand(c,r)
            if rp: r['replay']=rp; r['confirmed']=conf[0]; r['conf_text']=conf[2][-300:]
            if rp and not any(k['config']==c['name'] for k in known):
                nconf.append(1)
                if len(nconf)>=6: stop.set() # enough to report
            else: r['status']='unconfirmed'; r['detail']='counterexample not reproduced natively: '+r['detail']
        j=r['j']
        log('%-28s %-12s %5.1fs q=%d st=%d as=%d %s'%(c['name'],r['status'],j.get('time',0),j.get('queries',0),j.get('states',0),j.get('asserts',0),'' if r['status']=='ok' else r['detail'][:300]))
        with rl: results.append(r)
    def validate():
        """same values natively and in the executor: the traces of observations must agree"""
        bt.join(); rng=random.Random(SEED); out=[]
        cs=[c for c in confs if not c.get('novalidate')]; rng.shuffle(cs); cs=cs[:P.get('ntraces',12 if TIER=='quick' else 40)]
        def v(c):
            if now()>BUDGET+60: return []
            n=nats.get(c['variant']); res=[]
            if isinstance(n,Exception) or n is None: return [('nonative',c,str(n)[:400])]
            b=re.sub(r'\W','_',c['name']); got=0
            for k in range(40):
                s=rng.randrange(1<<30); w=WORK+'/v_%s_%d'%(b,k); rc,t=natrun(n,['-R',str(s),'-W',w,'-O',w+'.no']+cfgopts(c['cfg']),60)
                if rc==0 and 'COMPLETED' not in t: continue
                rc2,t2=run([exe,built[c['variant']][0],'-V',w,'-O',w+'.eo','-o',w+'.json','-t','60']+cfgopts(c['cfg'])+c.get('opts',[]),90)
                try: a=open(w+'.no').read(); e=open(w+'.eo').read()
                except OSError: a,e='?','??'
                res.append(('ok' if (rc==0 and rc2==0 and a==e) else 'native-violation' if rc==77 else 'mismatch',c,'native rc %s engine rc %s'%(rc,rc2),w)); got+=1
                if got>=2: break
            return res
        for r in pool([lambda c=c:v(c) for c in cs],4): out+=r
        return out
    order=confs
    pool([lambda c=c:work(c) for c in order])
    val=validate()
    # ------------------------------------------------------------ verdict
    rc=0; nviol=0
    for r in results:
        if r['status']!='violation': continue
        kf=[k for k in known if k['config']==r['name'] and re.search(k['match'],r['detail'])]
        if kf:
            for k in kf: print('KNOWN-FINDING: property=%s %s'%(PID,k['what']),flush=True)
            r['status']='known-finding'; continue
        print('VIOLATION property=%s replay=%s'%(PID,r['replay']),flush=True); print('  config %s: %s'%(r['name'],r['detail'][:600]),flush=True); nviol+=1; rc=1
    tok=sum(1 for v in val if v[0]=='ok'); tbad=[v for v in val if v[0] in('mismatch','native-violation','nonative')]
    for v in tbad: log('trace validation:',v[0],v[1]['name'],v[2][:1000])
    for v in val:
        if v[0]=='native-violation' and rc==0 and not any(k['config']==v[1]['name'] for k in known):
            # the concrete run of the real code violates the property although the symbolic run did not decide it
            c=v[1]; rp=VERIF+'/replays/%s_%s_trace'%(PID,re.sub(r'\W','_',c['name'])); os.makedirs(rp,exist_ok=True); shutil.copy(v[3],rp+'/values'); json.dump({'property':PID,'config':c['name'],'cfg':c['cfg']},open(rp+'/info.json','w'))
            print('VIOLATION property=%s replay=%s'%(PID,rp),flush=True); nviol+=1; rc=1; break
    done=set(r['name'] for r in results); results+=[dict(c,status='skipped',detail='not run: enough violations were found',j={}) for c in confs if c['name'] not in done]
    okc=[r for r in results if r['status']=='ok']; nok=[r for r in results if r['status'] not in('ok','violation','known-finding')]
    S=lambda k: sum(r['j'].get(k,0) for r in results)
    fns=sorted(set(f for r in results for f in r['j'].get('functions',[])))
    miss=[(r['name'],x) for r in okc for x in r.get('covers',P.get('covers',[])) if x not in r['j'].get('covers',[])]
    vac=[r['name'] for r in okc if r['j'].get('asserts',0)==0]
    def bound(r): return {'config':r['name'],'parameters':r['cfg'],'variant':r['defs'],'symbolic_bits':r['j'].get('var_bits'),'symbolic_variables':r['j'].get('vars'),'what':r.get('what','')}
    ev={'property':PID,'tier':TIER,'seed':SEED,'level':'model_checking','wall_s':round(now(),2),'violations':nviol,
     'coverage':{'states':S('states'),'transitions':S('steps'),'traces_validated_against_impl':tok,'exhaustive':not nok,
       'samples':[{'config':r['name'],'cfg':r['cfg'],'paths_finished':r['j'].get('finished'),'symbolic_bits':r['j'].get('var_bits'),'asserts':r['j'].get('asserts'),'assertions':dict(list(r['j'].get('assertions',{}).items())[:8]),'queries':r['j'].get('queries'),'solver_s':r['j'].get('solver_time')} for r in okc[:12]],
       'decided_configurations':[bound(r) for r in okc],'undecided_configurations':[{'config':r['name'],'why':r['status']+': '+r['detail'][:200],'asserts_checked_before':r['j'].get('asserts',0)} for r in nok],
       'assertions_checked':S('asserts'),'assertions_by_rewriting':S('asserts_by_rewriting'),'assertions_by_solver':S('asserts_by_solver'),
       'solver_queries':S('queries'),'solver_sat':S('sat'),'solver_unsat':S('unsat'),'solver_unknown':S('unknown'),'solver_time_s':round(S('solver_time'),2),'z3_crosschecks':S('z3_queries'),'z3_agreed':S('z3_agree'),
       'paths_finished':S('finished'),'path_cover':{'configurations_proved_complete':sum(1 for r in results if r['j'].get('path_cover') in('proved','whole input space on one path','unsat')),'status':sorted(set(str(r['j'].get('path_cover')) for r in results)),'paths':S('path_cover_paths'),'solver_s':round(S('path_cover_time'),2)},'forks':S('forks'),'merges':S('merges'),'symbolic_loads':S('symbolic_loads'),'symbolic_stores':S('symbolic_stores'),
       'lemmas':lemres,'functions_encoded_count':len(fns),'functions_encoded':fns[:400],'missing_reachability_witnesses':miss,'vacuous':vac,
       'trace_validation_problems':[(v[0],v[1]['name'],v[2][:200]) for v in tbad],'bounds':P.get('bounds',''),'outside':P.get('outside','')},
     'assumptions':P.get('assumptions',[])+['clang 18 -O1 IR of the current sources (libstdc++ headers included), portable code path (no SSE4.2/BMI2) except in the configurations compiled for them','models in rt/models.cpp stand for the C++ runtime parts that exist only as binaries']}
    os.makedirs(VERIF+'/evidence',exist_ok=True); json.dump(ev,open(VERIF+'/evidence/%s.json'%PID,'w'),indent=1)
    log('%s: %d decided, %d undecided, %d violations, %d asserts, %d queries, solver %.1fs, traces ok %d'%(PID,len(okc),len(nok),nviol,S('asserts'),S('queries'),S('solver_time'),tok))
    if miss: log('missing witnesses',miss)
    if vac: log('vacuous',vac)
    if rc==0 and not okc and not any(r['status']=='known-finding' for r in results): die('nothing was decided')
    cleanup(); return rc
if __name__=='__main__':
    try: rc=main()
    except RuntimeError as e: die(str(e))
    sys.exit(rc)
