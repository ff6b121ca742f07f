# Configurations of the checks: which harness, which bounds, which tier.
PROPS={}
def C(name,cfg=None,**k): return dict(name=name,cfg=cfg or {},**k)
PROPS['P01']=dict(summaries=False,configs=
 [C('cnt',{'op':0}),C('cnt_tl',{'op':0},defs=['-DPOPCOUNT_TL']),C('hi_lo',{'op':1}),C('pairs',{'op':2}),C('rev',{'op':6})]
 +[C('sel_%d_%d'%(a,min(a+10,64)),{'op':3,'ilo':a,'ihi':min(a+10,64)},covers=['sel']) for a in(1,12,23,34,45,56)]
 +[C('cnt11_64',{'op':4,'w':64},t=120,q=110)]
 +[C('cnt11_w24_%d_%d'%(sh,bg),{'op':4,'w':24,'sh':sh,'bg':bg}) for sh in (0,20,40) for bg in (0,1,2,3)]
 +[C('sel11_%d'%sh,{'op':5,'w':10,'sh':sh,'carry':1 if sh==0 else 0},covers=['sel11']) for sh in (0,5,27,31,54)]
 +[C('nextprev',{'op':7,'nw':2},covers=['next','prev'])]
 +[C('nextprev4',{'op':7,'nw':4},covers=['next','prev'],tier='thorough')]
 +[C(nm+t,cfg,covers=cv,defs=d,novalidate=(t=='_bmi')) for t,d in (('_sse',['-msse4.2','-mpopcnt','-mno-bmi2']),('_bmi',['-msse4.2','-mpopcnt','-mbmi2'])) for nm,cfg,cv in [('cnt',{'op':0},[]),('hi_lo',{'op':1},[])]+[('sel_%d_%d'%(a,min(a+10,64)),{'op':3,'ilo':a,'ihi':min(a+10,64)},['sel']) for a in(1,12,23,34,45,56)]+[('nextprev',{'op':7,'nw':2},['next','prev'])] if not(t=='_sse' and nm in('sel_12_22','sel_23_33','sel_34_44'))]
 +[C('sel_%d_sse'%i,{'op':3,'ilo':i,'ihi':i},defs=['-msse4.2','-mpopcnt','-mno-bmi2'],covers=['sel'],tier='quick' if i in(16,24,32,40) else 'thorough',t=100 if i in(16,24,32,40) else 300) for i in range(12,45)],
 bounds='all 64-bit words; all admissible i; carry 0/1; cnt11 on the whole word where decided, else 24-bit windows at 3 positions over 4 background patterns; sel11/hi11 on all contents of 10-bit windows at 5 positions; next/prev over 2 (thorough 4) words, all positions',
 outside='sel11/hi11 on words with bits outside the window; all other properties are decided for the portable code path only (cnt, hi, lo, sel, next and prev are also decided as compiled for SSE4.2 and for BMI2, pdep by its definition)')
PROPS['P02']=dict(summaries=True,configs=
 [C('raw_%d_%d'%(a,b),{'op':0,'lo':a,'hi':b}) for a,b in((0,7),(8,15),(16,23),(24,31),(32,39),(40,47),(48,55),(56,64))]
 +[C('unary_%d'%n,{'op':1,'nw':n},covers=['unary'],tier='quick' if n<4 else 'thorough') for n in(1,2,3,4)]
 +[C('vec_%d_%d'%(a,a+7),{'op':2,'lo':a,'hi':a+7}) for a in range(1,64,8)]+[C('fixed',{'op':3})]
 +[C('arith_%d_%d'%(a,a+7),{'op':4,'lo':a,'hi':a+7}) for a in range(1,64,8)]
 +[C('ranges_%d'%a,{'op':5,'lo':a,'hi':a}) for a in(1,2,7,8,31,33,63,64)]
 +[C('ranges_all_%d'%a,{'op':5,'lo':a,'hi':a+7},tier='thorough') for a in range(1,64,8)],
 bounds='every length 0..64 and offset 0..63 of the raw bit-pointer primitives; every width 1..64 of int_vector<0> (5 elements) and 11 fixed widths; unary codes spanning up to 3 (thorough 4) words; word contents and values are symbolic 64-bit',
 outside='vectors with more elements than stated (accesses only depend on idx*width)')
PROPS['P03']=dict(summaries=True,configs=
 [C('hist0_%d_%d'%(a,b),{'op':0,'steps':1,'wa':a,'wb':b,'n':4},covers=['step']) for a,b in((7,7),(64,64),(1,1),(33,12),(16,32),(6,8))]
 +[C('hist0_2_%d_%d'%(a,b),{'op':0,'steps':2,'wa':a,'wb':b,'n':3},covers=['step'],t=200) for a,b in((7,7),(21,5))]
 +[C('hist8',{'op':1,'steps':2,'n':3},covers=['step']),C('hist64',{'op':2,'steps':2,'n':2},covers=['step']),C('hist1',{'op':5,'steps':2,'n':5},covers=['step'])]
 +[C('bv_%d'%n,{'op':3,'n':n}) for n in(0,1,5,63,64,65,127,128)]
 +[C('widths_%d'%a,{'op':4,'lo':a,'hi':a+7}) for a in range(1,64,8)]
 +[C('iter_%d_%d'%(a,a+7),{'op':6,'lo':a,'hi':a+7,'n':20},covers=['iter']) for a in range(1,64,8)]+[C('iter_n%d'%n,{'op':6,'lo':7,'hi':7,'n':n}) for n in(1,2,3,137)]+[C('iterf_%d_%d'%(o,n),{'op':o,'n':n},covers=['iter']) for o in(7,8,9,10) for n in(5,135)],
 bounds='iterators: every width, vectors of 20 elements (some widths 1..137), all pairs of 7 positions, whole traversals; two vectors of up to 4 elements, histories of up to 2 operations from 12 (assignment, copy, move, swap, resize, write, default construction, bitwise operators); widths 1..64 for construction and width changes; bit vectors of 0..128 bits')
PROPS['P04']=dict(summaries=True,configs=
 [C('compress_%d'%a,{'op':0,'lo':a,'hi':a+1,'n':3},covers=['bc']) for a in range(1,64,6)]+[C('compress4_%d'%a,{'op':0,'lo':a,'hi':a+3,'n':4},covers=['bc'],tier='thorough') for a in range(1,64,4)]
 +[C('expand_%d'%a,{'op':1,'lo':a,'hi':a+7,'n':5}) for a in range(1,64,8)]
 +[C('fill_%d'%a,{'op':2,'lo':a,'hi':a+7,'n':5}) for a in range(1,64,8)]
 +[C('mod_%d'%w,{'op':3,'lo':w,'n':2,'mmax':9}) for w in(3,5)]
 +[C('counts_%d'%n,{'op':4,'n':n}) for n in(0,1,2,63,64,65,127,128,129,192,200)]
 +[C('nextprev_%d_%d'%(n,t),{'op':5,'n':n,'tail':t},covers=['np']) for n in(1,63,64,65,128) for t in (0,1)],
 bounds='all widths 1..64, up to 5 (fill: 67) elements with symbolic values; bit vectors up to 200 bits, also with arbitrary bits beyond the size')
PATS=['0','1','00','01','10','11']; RK=['v','v5','scan']
PROPS['P05']=dict(configs=
 [C('%s_%s_%d'%(RK[w],PATS[p],n),{'n':n,'pat':p,'which':w}) for w in range(3) for p in range(6) for n in (0,1,64,65,130,384,512,700,768)]
 +[C('%s_%s_%d'%(RK[w],PATS[p],n),{'n':n,'pat':p,'which':w,'step':31}) for w in range(2) for p in range(6) for n in (2048,1536,4096)]
 +[C('%s_%s_resized%d'%(RK[w],PATS[p],n),{'n':n,'pat':p,'which':w,'how':1}) for w in range(3) for p in range(6) for n in (64,)]
 +[C('%s_%s_2300'%(RK[w],PATS[p]),{'n':2300,'pat':p,'which':w,'step':17}) for w in range(3) for p in range(6)]
 +[C('%s_%s_win%d_%d'%(RK[w],PATS[p],n,bg),{'n':n,'pat':p,'which':w,'bg':bg,'wo':n-300,'wl':128,'step':29},tier='thorough') for w in range(2) for p in range(6) for n in (4608,6145) for bg in (1,3,7)],
 bounds='every content (and arbitrary bits beyond the size) of vectors of 0,1,64,65,130,700 and 2300 bits, all positions (2300: every 17th and those around word borders); thorough: 128-bit symbolic windows in 4608/6145-bit vectors',
 outside='vectors longer than 6145 bits')
def _p06():
    c=[]
    for p in range(6):
        for n,tl in ((1,1),(2,1),(7,1),(12,0)): c.append(C('mcl_%s_%d'%(PATS[p],n),{'n':n,'pat':p,'mode':1,'tail':tl},covers=['sel'] if n>2 else []))
        if p in(0,1,3,4):
            for n,tl in ((2,1),(7,1),(12,0)): c.append(C('scan_%s_%d'%(PATS[p],n),{'n':n,'pat':p,'which':1,'mode':1,'tail':tl},covers=['sel'] if n>2 else []))
            for n,bg,wo in ((130,3,58),(300,1,186),(200,0,122)): c.append(C('scan_%s_win_%d_%d'%(PATS[p],n,bg),{'n':n,'pat':p,'which':1,'mode':1,'bg':bg,'wo':wo,'wl':10,'step':7}))
        for n,bg,wo,tail in ((64,0,52,1),(130,3,58,1),(130,1,120,1),(300,1,186,1),(300,0,186,1),(200,2,122,1),(192,3,120,1)):
            c.append(C('mcl_%s_win_%d_%d'%(PATS[p],n,bg),{'n':n,'pat':p,'mode':1,'bg':bg,'wo':wo,'wl':10 if n<300 else 9,'step':7,'tail':tail}))
    B={0:(0,14,18,22,3),1:(1,12,17,21,3),2:(0,16,20,24,3),3:(2,12,17,21,3),4:(2,12,17,21,3),5:(1,15,19,23,3)}
    for p in range(6):
        for bg in B[p]:
            for n in (8300,90000,100000,128000):
                wos={8300:(4090,),90000:(4,),100000:(81010,),128000:(4094,)}[n]
                if n==8300 and bg not in(B[p][0],B[p][4]): continue
                for wo in wos: c.append(C('mcl_%s_big_%d_%d_%d'%(PATS[p],n,bg,wo),{'n':n,'pat':p,'mode':1,'bg':bg,'wo':wo,'wl':3,'step':97},tier='thorough' if (n==128000 and bg!=B[p][3]) or (n==100000 and bg==3 and p<2) else 'quick'))
                for wo in (65530,n-6): 
                    if n>9000: c.append(C('mcl_%s_big_%d_%d_%d'%(PATS[p],n,bg,wo),{'n':n,'pat':p,'mode':1,'bg':bg,'wo':wo,'wl':4,'step':97},tier='thorough'))
        bg=(26,25,28,25,25,27)[p]
        for n,t in ((280000,0),(600000,1)): c.append(C('mcl_%s_pow_%d'%(PATS[p],n),{'n':n,'pat':p,'mode':1,'bg':bg,'wo':n-3000,'wl':2,'step':61},tier='thorough' if t else 'quick'))
        c.append(C('mcl_%s_merged_16'%PATS[p],{'n':16,'pat':p,'mode':0},tier='thorough'))
    return c
PROPS['P06']=dict(configs=_p06(),bounds='every content of vectors of up to 12 bits; windows of 9-10 symbolic bits inside vectors of 64..300 bits; windows of 3-4 symbolic bits inside vectors of 8300, 90000, 100000 and 128000 bits over dense, sparse and mixed backgrounds (short and long superblocks, both construction algorithms, arbitrary bits beyond the size)',
 outside='vectors longer than 128000 bits')
def _p07():
    c=[]
    IL=[64,128,256,512,1024,4096]
    for w,bs in enumerate(IL):
        for n in (0,1,9): c.append(C('il%d_%d'%(bs,n),{'n':n,'which':w}))
        for n,bg,wo in ((bs,3,bs-5),(bs*2+3,4,bs-3),(64,1,58),(bs*3-1,5,bs*3-7),(bs*2,2,bs-4),(bs+64,0,bs-3)):
            c.append(C('il%d_%d_%d_%d'%(bs,n,bg,wo),{'n':n,'which':w,'bg':bg,'wo':wo,'wl':7 if bs<600 else 4,'step':11 if bs<600 else 61,'tail':0}))
        n=bs*2+37; c.append(C('il%d_tail'%bs,{'n':n,'which':w,'bg':3,'wo':n-6,'wl':6,'step':53,'tail':1}))
    for bg in (3,4,5,6): c.append(C('il64_long_%d'%bg,{'n':2100000,'long':1,'which':0,'bg':bg,'wo':1050000,'wl':3,'step':4099}))
    for w,k in ((10,8),(11,16),(12,2)):
        for n in (0,1,9): c.append(C('hyb%d_%d'%(k,n),{'n':n,'which':w}))
        for bg in (0,1,2,3,4,5,6,7,11):
            for n,wo in ((256,0),(256,247),(300,252),(256*k+5,256*k-4),(256*(k+1),256*k-2),(256*2*k+9,256*k-1)):
                c.append(C('hyb%d_%d_%d_%d'%(k,n,bg,wo),{'n':n,'which':w,'bg':bg,'wo':wo,'wl':7 if n<2000 else 5,'step':13 if n<2000 else 131,'tail':0,'conc':int(bg!=3)}))
    return c
PROPS['P07']=dict(configs=_p07(),covers=['done'],bounds='bit_vector_il with block sizes 64..4096 and hyb_vector with 2, 8 and 16 superblock sizes: every content of vectors of up to 9 bits; every content of 3-7-bit windows at block and superblock borders inside vectors of up to 3 blocks/superblocks over dense, sparse, run and mixed backgrounds, one 2.1-million-bit vector per background, arbitrary bits beyond the size; queries at every position near windows/word borders and every step-th one elsewhere',outside='hyb_vector has no select; longer vectors; windows wider than stated')
def _p08():
    c=[]
    for bs,k,qk in ((15,2,1),(15,32,1),(63,2,1),(63,32,1),(31,3,1),(127,4,1),(4,5,1),(3,2,1),(5,2,0),(10,4,0),(16,3,0),(20,8,0),(64,2,0),(100,2,0),(128,3,1),(192,3,0),(255,2,1),(256,2,0),(256,32,0)):
        d=['-DBS=%d'%bs,'-DK=%d'%k]
        def A(n,bg,wo,wl,step,tail=0,conc=None,**kw):
            conc=int(n>700 or bs*k>1000) if conc is None else conc
            c.append(C('bs%d_k%d_n%d_bg%d_%d%s'%(bs,k,n,bg,wo,'t' if tail else ''),dict(n=n,bg=bg,wo=wo,wl=wl,step=step,tail=tail,conc=conc),defs=d,tier='quick' if qk else 'thorough',**kw))
        A(0,0,0,0,1); A(1,0,0,1,1); A(8,0,0,8,1)
        sb=bs*k
        for bg in (0,1,2,3):
            A(bs,bg,max(0,bs-6),min(6,bs),7); A(sb+2,bg,max(0,sb-3),4,7 if sb<200 else 61); A(2*sb+bs//2,bg,2*sb-2,4,7 if sb<200 else 61); A(3*sb+1,bg,sb-2,4,17 if sb<200 else 97)
        A(2*sb+1,7,sb-2,3,31); A(2*sb+bs+5,8,sb+1,4,31); A(3*sb-1,10,sb,4,31)
        A(sb+bs//2+1,3,sb-2,3,31,tail=1)
    return c
PROPS['P08']=dict(configs=_p08(),covers=['done'],bounds='block sizes 3,4,15,31,63,127,128,255 (thorough also 5,10,16,20,64,100,192,256) with sampling rates 1..32: every content of vectors of up to 8 bits; every content of 3-6-bit windows at block and superblock borders of vectors of up to 3 superblocks over empty, full, alternating and mixed backgrounds; arbitrary bits beyond the size',outside='windows wider than stated; longer vectors')
def _p09():
    c=[]
    for op in (0,1,2,5):
        for n in (0,1,2,9): c.append(C('all%d_%d'%(op,n),{'op':op,'n':n,'conc':1}))
        for n,bg,wo in ((64,0,58),(100,4,40),(130,1,62),(200,3,121),(300,8,270),(257,2,250),(600,4,500),(128,0,0),(1000,17,700),(190,11,66)): c.append(C('win%d_%d_%d'%(op,n,bg),{'op':op,'n':n,'bg':bg,'wo':wo,'wl':7,'step':17,'conc':1}))
    c.append(C('builder',{'op':3,'n':7,'conc':1})); c.append(C('tail',{'op':0,'n':120,'bg':3,'wo':114,'wl':6,'tail':1,'step':5,'conc':1}))
    for m,g,sc in ((1,20,97),(2,12,1000003),(3,8,97),(4,4,4096),(5,2,123456789),(3,6,1<<40)): c.append(C('sparse_%d_%d_%d'%(m,g,sc),{'op':4,'m':m,'g':g,'scale':sc}))
    return c
PROPS['P09']=dict(configs=_p09(),covers=['done'],bounds='all three constructions and a second high-part vector type: every content of vectors of up to 9 bits, every content of 7-bit windows in vectors of 64..1000 bits, builder misuse, sparse sets of up to 5 positions with symbolic gaps of up to 2.4e14',outside='windows wider than 7 bits')
def _p10():
    c=[]
    CO=[('delta','coder::elias_delta',1),('gamma','coder::elias_gamma',1),('fib','coder::fibonacci',1),('comma2','coder::comma<2>',0),('comma3','coder::comma<3>',0),('comma8','coder::comma<8>',0),('comma16','coder::comma<16>',0),('comma30','coder::comma<30>',0)]
    for nm,cl,z in CO:
        d=['-DCODER='+cl,'-DZERO=%d'%z]
        if nm in('delta','gamma'):
            for a in range(0,64,16): c.append(C('%s_all_%d'%(nm,a),{'op':0,'lo':a,'hi':a+15},defs=d,covers=['one']))
        for a in range(0,94,24): c.append(C('%s_win_%d'%(nm,a),{'op':1,'lo':a,'hi':min(93,a+23)},defs=d,covers=['one']))
        for n,wl,w,na in ((1,1,64,19),(2,2,64,19),(3,3,64,19),(3,3,8,12),(3,3,16,13),(2,2,33,19)): c.append(C('%s_seq_%d_w%d'%(nm,n,w),{'op':2,'n':n,'wl':wl,'w':w,'na':na},defs=d,covers=['seq']))
        for n,bg,wo,wl in ((130,0,63,2),(130,0,0,2),(200,3,100,2),(150,1,75,2),(60,2,30,2),(120,4,60,2),(150,5,31,2)): c.append(C('%s_long_%d_%d_%d'%(nm,n,bg,wo),{'op':2,'n':n,'bg':bg,'wo':wo,'wl':wl,'na':10,'step':29},defs=d,covers=['seq']))
    return c
PROPS['P10']=dict(configs=_p10(),bounds='delta and gamma: every 64-bit value at 4 bit offsets; Fibonacci and comma: windows of 8 around every Fibonacci number, 2^62.., 2^64 and powers of two; sequences: every choice of up to 3 values from a 19-value alphabet covering all length classes (alone or inside sequences of 60..200 values), all start positions, counts and end positions',outside='coder::comma with 31 or more bits per digit (does not compile)')

def _p11():
    c=[]
    E=[('enc_delta2','enc_vector<coder::elias_delta,2>',1),('enc_delta3','enc_vector<coder::elias_delta,3>',0),('enc_delta128','enc_vector<coder::elias_delta,128>',1),('enc_gamma4','enc_vector<coder::elias_gamma,4>',1),('enc_gamma64','enc_vector<coder::elias_gamma,64,64>',0),('enc_fib4','enc_vector<coder::fibonacci,4>',1),('enc_fib33','enc_vector<coder::fibonacci,33,32>',0),('enc_comma8','enc_vector<coder::comma<8>,5>',1)]
    for nm,t,q in E:
        d=['-DVEC='+t,'-DKIND=0']
        def A(k,tier='quick' if q else 'thorough',**cf): c.append(C('%s_%s'%(nm,k),cf,defs=d,tier=tier,covers=['vec']))
        w=32 if ',32>' in t else 64
        A('empty',n=0); A('one',n=1,w=w); A('two',n=2,w=w); A('sym1',n=1,w=w,sy=1); A('sym2',n=2,w=w,sy=1) if 'delta2' in nm else None; A('three',n=3,w=w,small=1); A('four',n=4,w=w,small=1,cont=1); A('n5',n=5,wo=2,wl=2,small=1,w=w)
        if 'gamma' not in nm: pass
        for bg in (0,2,3,4,5) if w==64 else (0,2):
            for n,wo in ((140,63),(131,126),(260,129),(70,64)): A('n%d_bg%d'%(n,bg),n=n,bg=bg,wo=wo,wl=1,w=w)
    for nm,t,q in [('vlc_delta2','vlc_vector<coder::elias_delta,2>',1),('vlc_delta128','vlc_vector<coder::elias_delta,128>',1),('vlc_gamma4','vlc_vector<coder::elias_gamma,4>',1),('vlc_fib8','vlc_vector<coder::fibonacci,8>',1),('vlc_comma4','vlc_vector<coder::comma<4>,16>',1)]:
        d=['-DVEC='+t,'-DKIND=1']
        def A(k,tier='quick' if q else 'thorough',**cf): c.append(C('%s_%s'%(nm,k),cf,defs=d,tier=tier,covers=['vec']))
        A('empty',n=0); A('one',n=1); A('two',n=2); (A('sym1',n=1,sy=1),A('sym2',n=2,sy=1,small=1)) if nm not in('vlc_fib8','vlc_comma4','dac1') else None; A('three',n=3,small=1); A('four',n=4,small=1,cont=1,w=20)
        for bg in (0,1,2,3,4,5):
            for n,wo in ((140,63),(131,126),(260,129)): A('n%d_bg%d'%(n,bg),n=n,bg=bg,wo=wo,wl=1)
    for nm,t,k in [('dac4','dac_vector<4>',2),('dac8','dac_vector<8>',2),('dac3','dac_vector<3,rank_support_v<>>',2),('dac1','dac_vector<1>',2),('dac63','dac_vector<63>',2),('dacdp','dac_vector_dp<>',3),('dacdp_rrr','dac_vector_dp<rrr_vector<>>',3)]:
        d=['-DVEC='+t,'-DKIND=%d'%k]
        def A(kk,tier='quick',**cf): c.append(C('%s_%s'%(nm,kk),cf,defs=d,tier=tier,covers=['vec']))
        A('empty',n=0); A('one',n=1); A('two',n=2); (A('sym1',n=1,sy=1),A('sym2',n=2,sy=1,small=1)) if nm not in('vlc_fib8','vlc_comma4','dac1') else None; A('three',n=3,small=1); A('four',n=4,small=1,cont=1,w=20)
        for bg in (0,1,2,3,4,5,6):
            for n,wo in ((70,63),(131,126)): A('n%d_bg%d'%(n,bg),n=n,bg=bg,wo=wo,wl=1)
    for nm,t in [('ip2','inv_perm_support<2>'),('ip32','inv_perm_support<32>'),('ip3','inv_perm_support<3>'),('ip1','inv_perm_support<1>'),('ip4_rrr','inv_perm_support<4,rrr_vector<>,rrr_vector<>::rank_1_type>')]:
        d=['-DVEC='+t,'-DKIND=4']
        def A(kk,tier='quick',**cf): c.append(C('%s_%s'%(nm,kk),cf,defs=d,tier=tier,covers=['vec']))
        for n in (1,2,3,4,5,6): A('all%d'%n,n=n)
        for bg in (0,1,2,3):
            for n,wo in ((65,31),(130,60),(33,0),(34,10)): A('n%d_bg%d'%(n,bg),n=n,wo=wo,wl=4,bg=bg)
    return c
PROPS['P11']=dict(configs=_p11(),bounds='enc_vector (delta, gamma, Fibonacci, comma; densities 2,4,5,128; thorough 3,33,64 and fixed widths), vlc_vector (4 coders), dac_vector (1,3,4,8,63-bit blocks) and dac_vector_dp (plain and rrr): every sequence of up to 4 elements over 5-9 magnitude classes up to 2^64-1 with two low-bit patterns each (every low bits for 1-2 elements where decided), one such element inside sequences of 70..260 elements over 6 backgrounds; inv_perm_support<1,2,3,4,32>: every permutation of up to 6 elements and of 4 positions inside cyclic and structured permutations of 33..130',outside='construction from int_vector_buffer is covered by P27-P28 models only; vlc_vector of 2^64-1 (rejected)')

WB={'huff':'wt_huff<>','huff5':'wt_huff<bit_vector,rank_support_v5<>>','huffil':'wt_huff<bit_vector_il<>,bit_vector_il<>::rank_1_type,bit_vector_il<>::select_1_type,bit_vector_il<>::select_0_type>','huffrrr':'wt_huff<rrr_vector<63>>','hutu':'wt_hutu<>','hutursd':'wt_hutu<rrr_vector<15>>','blcd':'wt_blcd<>','blcdsd':'wt_blcd<sd_vector<>>','pcnp':'wt_pc<huff_shape,bit_vector,rank_support_v<>,select_support_scan<>,select_support_scan<0>,byte_tree<true>>','rlmn':'wt_rlmn<>','ap':None}
def _wdefs(t,iw,extra=()): return ['-DWTT='+t,'-DIW=%d'%iw]+list(extra)
def _p12():
    c=[]
    for k,t in WB.items():
        if not t: continue
        d=_wdefs(t,8)
        def A(nm,cfg,**o): c.append(C('%s_%s'%(k,nm),cfg,defs=d,**o))
        A('n0',{'n':0},covers=[]); A('n1',{'n':1,'k':4,'al':1}); A('n5k4',{'n':5,'k':4,'al':2}); A('n7k3',{'n':7,'k':3,'al':1}); A('n9k2',{'n':9,'k':2,'al':0}); A('n3k8',{'n':3,'k':8,'al':3}); A('extra',{'n':4,'k':3,'al':0,'extra':3})
        for bg,n,wo,wl,kk,al in ((1,130,62,4,4,0),(2,200,126,3,4,1),(3,330,250,2,4,3),(4,520,254,1,4,1),(5,300,140,3,4,0),(6,470,66,2,6,1),(7,300,68,4,3,2),(8,260,128,4,3,3)):
            A('bg%d'%bg,{'n':n,'bg':bg,'wo':wo,'wl':wl,'k':kk,'al':al,'step':37})
    return c
PROPS['P12']=dict(configs=_p12(),src='p12.cpp',covers=['wt'],bounds='wt_huff (over bit_vector with three support types, bit_vector_il, rrr), wt_hutu, wt_blcd, wt_pc with DFS node order, wt_rlmn: every text of up to 7 symbols over 3, 5 over 4, 9 over 2 and 3 over 8 byte values (4 alphabets including 0 and 255), every content of 2-4-symbol windows in texts of 130..520 bytes over 8 backgrounds (cyclic, runs, skewed, all 256 bytes, single symbol, Fibonacci frequencies), text prefix of a longer file; every position and every symbol of the alphabets plus absent ones (longer texts: every 37th position and those near the window)',outside='longer symbolic windows; texts longer than 520 bytes')

WI={'int':'wt_int<>','intrrr':'wt_int<rrr_vector<63>>','intil':'wt_int<bit_vector_il<>>','intsd':'wt_int<sd_vector<>>','wm':'wm_int<>','wmrrr':'wm_int<rrr_vector<15>>','gmr':'wt_gmr<>','gmr2':'wt_gmr<enc_vector<>,inv_multi_perm_support<2,enc_vector<>>,sd_vector<>>','gmrrs':'wt_gmr_rs<>','gmrrs2':'wt_gmr_rs<dac_vector<>,rrr_vector<63>>','ap':'wt_ap<>','ap2':'wt_ap<wt_hutu<rrr_vector<63>>,wm_int<>>','rlmn':'wt_rlmn<sd_vector<>,sd_vector<>::rank_1_type,sd_vector<>::select_1_type,wt_int<>>','rlmnbv':'wt_rlmn<bit_vector,rank_support_v<>,select_support_mcl<>,wm_int<>>','huffint':'wt_huff_int<>','hutuint':'wt_hutu_int<>','blcdint':'wt_blcd_int<>','huffintrrr':'wt_huff_int<rrr_vector<63>>'}
def _p13():
    c=[]
    for k,t in WI.items():
        d=_wdefs(t,0,['-DNOITER'] if k[:2] in('gm','ap') else [])
        big=t.startswith('wt_int') or t.startswith('wm')
        def A(nm,cfg,**o): c.append(C('%s_%s'%(k,nm),cfg,defs=d,**o))
        A('n0',{'n':0},covers=[]); A('n1',{'n':1,'k':4,'al':1}); T='quick' if k in('int','wm','gmr','ap','huffint','rlmn','gmrrs') else 'thorough'; A('n5k4',{'n':5,'k':4,'al':1},tier=T); A('n4k4',{'n':4,'k':4,'al':1}); A('n6k3',{'n':6,'k':3,'al':0},tier=T); A('n8k2',{'n':8,'k':2,'al':6}); A('n3k7',{'n':3,'k':7,'al':5}); A('extra',{'n':4,'k':3,'al':0,'extra':3}); A('n8k2b',{'n':8,'k':2,'al':1})
        if big: A('n3big',{'n':3,'k':8,'al':3}); A('n3mid',{'n':3,'k':8,'al':2},tier='quick' if k in('int','wm') else 'thorough'); A('n4big',{'n':4,'k':6,'al':3},tier='thorough')
        for bg,n,wo,wl,kk,al in ((1,130,62,3,4,0),(2,200,126,3,4,1),(3,330,250,2,4,0),(4,300,126,2,4,4),(5,300,140,3,4,0),(6,240,66,2,6,1),(7,300,68,3,3,0),(8,260,128,3,3,5)):
            A('bg%d'%bg,{'n':n,'bg':bg,'wo':wo,'wl':wl,'k':kk,'al':al,'step':37})
    return c
PROPS['P13']=dict(configs=_p13(),src='p12.cpp',covers=['wt'],bounds='wt_int and wm_int (over bit_vector, il, rrr, sd), wt_gmr, wt_gmr_rs, wt_ap, wt_rlmn over wt_int/wm_int, integer Huffman/Hu-Tucker/balanced trees, several container parameters: every sequence of up to 4-5 values over 4, 6 over 3, 8 over 2 and 3 over 7-8 values (7 alphabets, for wt_int/wm_int including values up to 2^64-1), every content of 2-3-value windows in sequences of 130..330 values over 8 backgrounds, prefix of a longer file; every position; every alphabet value and absent values up to 2^64-1 (long sequences: every 37th position and those near the window)',outside='longer symbolic windows; alphabets beyond 10^5 for structures whose construction allocates by the largest value')

W14={'huff':('wt_huff<>',8,0,0,0),'hutu':('wt_hutu<>',8,1,0,1),'blcd':('wt_blcd<rrr_vector<63>>',8,1,0,1),'int':('wt_int<>',0,1,1,1),'wm':('wm_int<>',0,0,1,0),'huffint':('wt_huff_int<>',0,0,0,0),'hutuint':('wt_hutu_int<>',0,1,0,1),'blcdint':('wt_blcd_int<>',0,1,0,1)}
def _p14():
    c=[]
    for k,(t,iw,l,r,y) in W14.items():
        d=_wdefs(t,iw,['-DLEXC=%d'%l,'-DR2D=%d'%r,'-DSYMS=%d'%y])
        def A(nm,cfg,**o): c.append(C('%s_%s'%(k,nm),cfg,defs=d,**o))
        A('n1',{'n':1,'k':4,'al':1}); A('n2',{'n':2,'k':4,'al':1}); A('n3k4',{'n':3,'k':4,'al':0}); A('n5k2',{'n':5,'k':2,'al':1}); A('n4k3',{'n':4,'k':3,'al':2 if iw==8 else 4})
        if k in('int','wm'): A('big',{'n':3,'k':4,'al':3}); A('big5',{'n':3,'k':5,'al':3},tier='thorough'); A('big8',{'n':3,'k':8,'al':3,'ops':27},tier='thorough'); A('mid',{'n':3,'k':5,'al':2})
        A('n5k4',{'n':5,'k':4,'al':1},tier='thorough')
        for bg,n,wo,wl,kk,al in ((1,70,62,2,4,0),(3,100,60,1,4,0),(4,130,64,1,4,1),(6,100,60,1,6,1)):
            A('bg%d'%bg,{'n':n,'bg':bg,'wo':wo,'wl':wl,'k':kk,'al':al,'step':37})
    return c
PROPS['P14']=dict(configs=_p14(),covers=['range'],bounds='interval_symbols, lex_count, lex_smaller_count, quantile_freq, range_search_2d, restricted_unique_range_values, symbol_lte/gte, intersect and the root/expand/bit_vec/seq node interface of wt_huff, wt_hutu, wt_blcd (rrr), wt_int, wm_int and the integer Huffman/Hu-Tucker/balanced trees (each operation where the structure offers it): every sequence of up to 3 values over 4, 5 over 2 and 4 over 3 symbols (wt_int/wm_int also with values up to 2^64-1), every range, every pair of value bounds from the alphabet, its neighbours, 0, 255/2^20 and 2^64-1; 1-2-value symbolic windows in sequences of 70..130 values over 4 backgrounds, with ranges near the window and sampled ones',outside='longer symbolic sequences; intersect of more than three ranges')

BP={'sada':('bp_support_sada<>',0),'sada42':('bp_support_sada<4,2>',0),'sada83':('bp_support_sada<8,3,rank_support_v<>,select_support_scan<>>',0),'sada16':('bp_support_sada<16,4>',0),'sada64':('bp_support_sada<64,2,rank_support_v5<>,select_support_mcl<>>',0),'g':('bp_support_g<>',1),'g8':('bp_support_g<nearest_neighbour_dictionary<4>,rank_support_v<>,select_support_mcl<>,range_maximum_support_sparse_table<>,8>',1),'g3':('bp_support_g<nearest_neighbour_dictionary<3>,rank_support_v5<>,select_support_scan<>,range_maximum_support_sparse_table<>,3>',1),'gg':('bp_support_gg<>',2),'gg8':('bp_support_gg<nearest_neighbour_dictionary<4>,rank_support_v<>,select_support_mcl<>,8>',2),'gg16':('bp_support_gg<nearest_neighbour_dictionary<30>,rank_support_v5<>,select_support_scan<>,16>',2)}
def _p15():
    c=[]
    for k,(t,kd) in BP.items():
        d=['-DBPT='+t,'-DKIND=%d'%kd]
        def A(nm,cfg,**o): c.append(C('%s_%s'%(k,nm),cfg,defs=d,**o))
        small=k not in('sada','g','gg')
        A('w2',{'w':2}); A('w10',{'w':10}); A('w6f',{'w':6,'root':0}); A('w14',{'w':14},tier='thorough')
        for nm,cf in (('a',dict(pk=1,pm=40,w=4,mk=2,mm=20,w2=3)),('b',dict(pk=2,pm=40,w=6,sk=2,sm=9)),('c',dict(pk=4,pm=70,w=4,mk=4,mm=60,w2=3)),('d',dict(pk=5,pm=21,w=4,mk=6,mm=13,w2=3,sk=3,sm=7)),('e',dict(pk=6,pm=19,w=6,root=0,mk=1,mm=9)),('f',dict(pk=3,pm=50,w=4,mk=7,mm=50,w2=3))): A('m'+nm,dict(cf,step=5,step2=17))
        for nm,cf in (('a',dict(pk=1,pm=40,w=6,mk=2,mm=20,w2=4)),('c',dict(pk=4,pm=70,w=5,mk=4,mm=60,w2=5)),('d',dict(pk=5,pm=21,w=6,mk=6,mm=13,w2=4,sk=3,sm=7))): A('x'+nm,dict(cf,step=5,step2=17),tier='thorough',t=400)
        if not small:
            for nm,cf in (('a',dict(pk=1,pm=530,w=5,mk=2,mm=200,w2=2)),('b',dict(pk=4,pm=900,w=4,mk=4,mm=800,w2=2)),('c',dict(pk=6,pm=300,w=4))): A('l'+nm,dict(cf,step=61,step2=171))
    return c
PROPS['P15']=dict(configs=_p15(),covers=['bp'],bounds='bp_support_sada (5 block/degree settings, 4 to 8192-bit medium blocks), bp_support_g and bp_support_gg (block sizes 3, 8, 16, 840; several dictionaries): every balanced sequence of up to 12 parentheses (thorough 16) as a single tree or a forest, and every content of 4-6 + 3-parenthesis windows inside 6 structured sequences of 80..300 parentheses (deep, flat, mixed), 2-5-parenthesis windows in sequences of 1000..2000 for the default block sizes; all positions (long sequences: those near the windows, their partners and samples) for excess, rank, select, find_close, find_open, enclose, level_anc, preceding_closing_parentheses, and all pairs for rr_enclose, double_enclose, rmq_open, rmq',outside='longer symbolic windows; rmq tie-breaking (the documentation does not fix it)')
RQ={'sct':('rmq_succinct_sct<>',1,1),'sctmax':('rmq_succinct_sct<false>',0,1),'sct4':('rmq_succinct_sct<true,bp_support_sada<4,2>>',1,1),'sctg':('rmq_succinct_sct<true,bp_support_gg<nearest_neighbour_dictionary<4>,rank_support_v<>,select_support_mcl<>,8>>',1,1),'sada':('rmq_succinct_sada<>',1,1),'sadamax':('rmq_succinct_sada<false>',0,1),'sada8':('rmq_succinct_sada<true,bp_support_sada<8,2>>',1,1),'st':('rmq_support_sparse_table<>',1,1),'stmax':('rmq_support_sparse_table<int_vector<>,false>',0,1)}
def _p16():
    c=[]
    for k,(t,m,tie) in RQ.items():
        d=['-DRMQ='+t,'-DMINI=%d'%m,'-DTIE=%d'%tie]
        def A(nm,cfg,**o): c.append(C('%s_%s'%(k,nm),cfg,defs=d,**o))
        A('n1',{'n':1}); A('n2',{'n':2,'k':8,'al':1}); A('n5k4',{'n':5,'k':4}); A('n3k8',{'n':3,'k':8,'al':1}); A('n6k3',{'n':6,'k':3}); A('n9k2',{'n':9,'k':2}); A('n6k5',{'n':6,'k':5},tier='thorough'); A('n12k2',{'n':12,'k':2},tier='thorough')
        for bg in range(1,10): A('bg%d'%bg,{'n':100+37*bg,'bg':bg,'wo':40+9*bg,'wl':3,'k':5,'step':23})
    return c
PROPS['P16']=dict(configs=_p16(),covers=['rmq'],bounds='rmq_succinct_sct, rmq_succinct_sada (min and max, several balanced-parentheses supports), rmq_support_sparse_table (min and max): every array of up to 5 values over 4, 6 over 3, 9 over 2 and 3 over 8 extreme 64-bit values; every content of a 3-value window in arrays of 137..433 values over 9 backgrounds; every interval (long arrays: ends near the window, the borders and every 23rd position); the leftmost extremal position',outside='longer symbolic windows')

def _p22():
    c=[]
    K={'t2':('k2_treap<2,bit_vector>','bit_vector'),'t2r':('k2_treap<2,rrr_vector<63>>',0),'t3':('k2_treap<3,bit_vector>',0),'t4':('k2_treap<4,bit_vector>',0),'t16':('k2_treap<16,bit_vector,rank_support_v5<>,dac_vector<>>',0)}
    for k,(t,_) in K.items():
        d=['-DTREAP='+t]
        def A(nm,cfg,**o): c.append(C('%s_%s'%(k,nm),cfg,defs=d,**o))
        A('g2',{'g':2,'wm':4}); A('g3',{'g':3,'fewq':1,'mod':7}); A('g3im',{'g':3,'ctor':1,'wm':1,'fewq':1,'mod':11}); A('p2',{'g':4,'np':2,'cm':1,'wm':4,'ctor':2,'mod':53}); A('p2c',{'g':6,'np':2,'cm':2,'wm':2,'mod':71,'fewq':1}); A('p1',{'g':8,'np':1,'cm':1,'wm':5,'mod':97}); A('far',{'g':6,'np':2,'cm':3,'wm':3,'fewq':1,'ctor':1,'far':0,'mod':47}); A('p3',{'g':4,'np':3,'wm':0,'cm':4,'mod':37,'fewq':1}); A('bg',{'g':3,'np':2,'bg':60,'cm':0,'fewq':1,'mod':61})
        A('T_p2',{'g':4,'np':2,'cm':1,'wm':4,'ctor':2,'mod':17},tier='thorough',t=400); A('T_p2x',{'g':5,'np':2,'cm':1,'wm':4,'ctor':2,'mod':7},tier='thorough',t=400); A('T_p1',{'g':8,'np':1,'cm':1,'wm':5,'mod':3},tier='thorough',t=400); A('T_p4',{'g':4,'np':4,'wm':0,'cm':4,'mod':13,'fewq':1},tier='thorough',t=400); A('T_far',{'g':6,'np':2,'cm':3,'wm':3,'fewq':1,'ctor':1,'far':0,'mod':11},tier='thorough',t=400)
    K={'k2':'k2_tree<2>','k3':'k2_tree<3>','k4r':'k2_tree<4,rrr_vector<63>>','k2v5':'k2_tree<2,bit_vector,rank_support_v5<>>','k7':'k2_tree<7>'}
    for k,t in K.items():
        d=['-DTREE='+t]
        def A(nm,cfg,**o): c.append(C('%s_%s'%(k,nm),cfg,defs=d,**o))
        for ct in range(4):
            A('n3c%d'%ct,{'n':3,'ctor':ct}); A('n5c%d'%ct,{'n':5,'np':2,'ctor':ct},tier='quick' if k in('k2','k3') or ct==1 else 'thorough'); A('n2c%d'%ct,{'n':2,'ctor':ct}); A('bg%dc%d'%(ct,ct),{'n':[17,23,40,64][ct],'np':0,'w':2,'o':[3,11,20,62][ct],'bg':70,'ctor':ct,'ord':7})
        A('n9',{'n':9,'np':2,'ctor':1},tier='thorough',t=400); A('n8m',{'n':8,'np':2,'ctor':0},tier='thorough'); A('n7',{'n':7,'np':2,'ctor':1},tier='thorough',t=400); A('n6m',{'n':6,'np':2,'ctor':0},tier='thorough'); A('n1',{'n':1}); A('n125',{'n':125 if k=='k3' else 65,'w':1,'o':64,'bg':40,'ctor':1}); A('n3e3',{'n':3,'np':3,'ctor':1})
    return c
PROPS['P22']=dict(configs=_p22(),covers=['k2'],bounds='k2_treap with k=2,3,4,16 (bit_vector, rrr_vector; construction from files, from arrays, from tuple vectors): every set of points of a 3x3 grid, every pair of points of grids with coordinates at powers of two, powers of three and up to 2^62, every triple in a 4x4 grid, with symbolic or structured weights, and pairs added to 60-point sets; count, top_k (order and set) and range_3d over a regular subset of all rectangles whose sides are the coordinates, their neighbours, 0 and one far point (denser in the thorough tier). k2_tree with k=2,3,4,7 (bit_vector, rrr; rank_support_v5) and the four constructors: every graph of up to 3 nodes, every pair of edges in 5-7 node graphs (thorough 9), every content of a 2x2 window in 17..64-node graphs with 70 edges; adj, neigh, reverse_neigh, range',outside='larger symbolic point sets; k2_treap::operator= and copies (P26)')
def _p23():
    c=[]
    for k,(t,kd) in {'int':('sorted_int_stack',0),'sup':('sorted_stack_support',1),'multi':('sorted_multi_stack_support',2)}.items():
        d=['-DST='+t,'-DKIND=%d'%kd]
        def A(nm,cfg,**o): c.append(C('%s_%s'%(k,nm),cfg,defs=d,**o))
        A('L5',{'L':5,'k':5,'n':300}); A('L7',{'L':7,'k':3,'n':500}); A('L3',{'L':3,'k':11,'n':2000}); A('n5',{'L':6,'k':4,'n':5,'pre':2}); A('n0',{'L':4,'k':3,'n':0}); A('n62',{'L':5,'k':4,'n':62}); A('n63',{'L':5,'k':4,'n':63}); A('n64',{'L':5,'k':4,'n':64,'pre':3,'pk':3}); A('n126',{'L':5,'k':4,'n':126,'pre':3,'pk':2})
        for i,(n,pre,pk,f) in enumerate(((1000,70,0,0),(3000,30,1,5),(5000,40,2,0),(900,20,3,62),(4000,63,2,1),(200,200,0,0),(300,100,3,61))): A('p%d'%i,{'L':5,'k':4,'n':n,'pre':pre,'pk':pk,'first':f,'pop2':i%2})
        A('L8',{'L':8,'k':4,'n':600},tier='thorough'); A('L6',{'L':6,'k':6,'n':600},tier='thorough')
    return c
PROPS['P23']=dict(configs=_p23(),covers=['stack'],bounds='sorted_int_stack, sorted_stack_support, sorted_multi_stack_support: every history of 5 pushes/pops over 5 deltas, 7 over 3, 3 over 11 (thorough 8 over 4, 6 over 6), capacities 0..5000, after structured prefixes of up to 200 pushes, ending in a complete unwind; top, size, pop, empty (and the multi-stack push/pop results) after every step, copies',outside='longer symbolic histories; histories outside the documented precondition (at most n elements, at most n duplicates)')
def _p24():
    c=[]
    def A(nm,cfg,d,**o): c.append(C(nm,cfg,defs=d,**o))
    d=['-DKIND=0']
    for n in (1,2,5,8): A('dyn_f%d'%n,{'n':n,'full':1,'L':1,'k':4},d)
    for n in (63,64,65,100,128,4096,4097,5000,8193): A('dyn_n%d'%n,{'n':n,'L':3 if n<4000 else 2,'k':8},d)
    for bg in range(1,11): A('dyn_bg%d'%bg,{'n':[70,130,4095,4096,4161,300,9000,64,129,12288][bg-1],'bg':bg,'L':2,'k':10},d)
    A('dyn_deep',{'n':270000,'bg':7,'L':1,'k':6,'smp':9},d); A('dyn_deep0',{'n':262145,'bg':0,'L':2,'k':4,'off':200000,'smp':9},d)
    for D in (1,3,4,30): 
        d=['-DKIND=1','-DDENS=%d'%D]
        for n in (0,1,2,5,9): A('st%d_n%d'%(D,n),{'n':n},d,covers=['nn'])
        for bg in range(1,11): A('st%d_bg%d'%(D,bg),{'n':60+bg*47,'bg':bg,'wo':20+31*bg,'wl':5,'step':13},d)
    for k,t in (('bv','bit_vector'),('rrr','rrr_vector<15>'),('sd','sd_vector<>'),('il','bit_vector_il<>')):
        d=['-DKIND=2','-DLBV='+t]; A('louds_%s'%k,{'n':12,'k':4,'L':4},d); A('louds_%s_b'%k,{'n':14,'k':3,'L':6},d); A('louds_%s_big'%k,{'n':400,'k':5,'L':3,'rep':200},d)
    return c
PROPS['P24']=dict(configs=_p24(),covers=['nn'],bounds='nn_dict_dynamic of 1..270000 positions (1 to 3 levels): every update history of 1-3 operations over up to 10 positions, from 10 backgrounds, prev/next at every position (long: at samples and around the updates), copy, move, swap, set_zero_bits; nearest_neighbour_dictionary with sample densities 1, 3, 4, 30: every content of up to 9 bits and every 5-bit window in 107..530-bit backgrounds, rank, select, prev, next; louds_tree over bit_vector, rrr, sd and il: every tree with 4-6 free node degrees, up to 14 nodes, and 400-node trees: nodes, degree, child, parent, is_leaf, id, copies, swap',outside='louds_tree built from a library CST (it is built from a stub with the same breadth-first interface; P21 covers the CSTs); longer symbolic windows')

def _p17():
    c=[]
    for k,(iw,alg) in {'div':(8,0),'sais':(8,1),'qs':(0,0),'qsb':(8,2),'qsi':(0,2),'raw1':(8,3),'raw4':(0,3)}.items():
        d=['-DIW=%d'%iw,'-DALG=%d'%alg]; raw=k[:3]=='raw'; nb={'raw1':1}.get(k,8)
        def A(nm,cfg,**o): c.append(C('%s_%s'%(k,nm),dict(cfg,nb=nb),defs=d,**o))
        A('n0',{'n':0}); A('n1',{'n':1,'k':4,'al':1}); A('n2',{'n':2,'k':4}); A('n3',{'n':3,'k':3 if raw else 6,'al':1}); A('n4',{'n':4,'k':2 if raw else 4,'al':2}); A('n5',{'n':5,'k':2 if raw else 3})
        if not raw: A('n6k3',{'n':6,'k':2 if k=='sais' else 3}); A('n9',{'n':9 if k!='sais' else 8,'k':2})
        A('n7k3',{'n':7,'k':3},tier='thorough',t=400); A('n11',{'n':11,'k':2},tier='thorough',t=400); A('n5k5',{'n':5,'k':5},tier='thorough',t=400)
        if iw==0 :
            A('w0',{'n':4 if not raw else 3,'k':4 if not raw else 3,'al':0,'tw':0}); A('w40',{'n':4 if not raw else 3,'k':5 if not raw else 4,'al':3}); A('w64',{'n':4 if not raw else 3,'k':5 if not raw else 4,'al':4})
        for bg in range(1,13):
            if not raw or bg%3==0: A('bg%d'%bg,{'n':50+21*bg,'bg':bg,'wo':20+13*bg,'wl':3,'k':3,'tw':(0,64)[bg%2]})
        if not raw:
            for bg in (1,2,6,7,8,9): A('l%d'%bg,{'n':600+bg,'bg':bg,'wo':300,'wl':1,'k':3})
            A('xl5',{'n':2500,'bg':5,'wo':1200,'wl':1,'k':2}); A('xl8',{'n':2400,'bg':8,'wo':1199,'wl':1,'k':2})
    return c
PROPS['P17']=dict(configs=_p17(),covers=['sa'],bounds='construct_sa<8> with libdivsufsort and with SE_SAIS, construct_sa<0>, qsufsort::construct_sa on vectors and on files of 1- and 8-byte symbols, followed by construct_bwt and construct_isa: every text of up to 9 symbols over 2 (SAIS 8), 6 over 3 (SAIS 2), 4 over 4, 3 over 6 byte values including 1, 127, 128, 255 (integer texts also with values up to 2^64-1, packed and 64-bit wide); every content of a 3-symbol window in texts of 71..302 symbols of 12 kinds (unary, periodic, Fibonacci, Thue-Morse, square, random, runs), 1-symbol windows in texts of 600 and 2500 symbols',outside='longer symbolic texts; libdivsufsort itself (external library, replaced by its contract); texts of 2^31 and more symbols')

LC={'kasai':(8,'construct_lcp_kasai<8>'),'phi':(8,'construct_lcp_PHI<8>'),'sephi':(8,'construct_lcp_semi_extern_PHI'),'go':(8,'construct_lcp_go'),'gophi':(8,'construct_lcp_goPHI'),'bwt':(8,'construct_lcp_bwt_based'),'bwt2':(8,'construct_lcp_bwt_based2'),'kasaii':(0,'construct_lcp_kasai<0>'),'phii':(0,'construct_lcp_PHI<0>')}
LV={'bc':'lcp_bitcompressed<>','byte':'lcp_byte<>','dac':'lcp_dac<>','dac8':'lcp_dac<8,rank_support_v<>>','vlc':'lcp_vlc<>','wt':'lcp_wt<>'}
def _p18():
    c=[]
    for k,(iw,alg) in LC.items():
        d=['-DIW=%d'%iw,'-DALG='+alg]
        def A(nm,cfg,**o): c.append(C('%s_%s'%(k,nm),cfg,defs=d,**o))
        A('n0',{'n':0}); A('n1',{'n':1,'k':4,'al':1}); A('n2',{'n':2,'k':4}); A('n3',{'n':3,'k':5,'al':1}); A('n4',{'n':4,'k':4,'al':2}); A('n5',{'n':5,'k':3}); A('n8',{'n':8,'k':2})
        A('n6k3',{'n':6,'k':3},tier='thorough',t=400); A('n11',{'n':11,'k':2},tier='thorough',t=400)
        if iw==0: A('w0',{'n':4,'k':4,'tw':0}); A('w40',{'n':4,'k':5,'al':3}); A('w64',{'n':4,'k':5,'al':4})
        for bg in range(1,13): A('bg%d'%bg,{'n':50+21*bg,'bg':bg,'wo':20+13*bg,'wl':3,'k':3,'tw':(0,64)[bg%2]})
        for bg in (1,2,6,7,8,9): A('l%d'%bg,{'n':600+bg,'bg':bg,'wo':300,'wl':1,'k':3})
        if k in('bwt','bwt2','go','gophi'): A('xl13',{'n':3100,'bg':13,'wo':0,'wl':0}); A('xl1b',{'n':2241,'bg':1,'wo':0,'wl':0}); A('xl1c',{'n':2338,'bg':1,'wo':0,'wl':0}); A('xl1',{'n':1500,'bg':1,'wo':0,'wl':0}); A('xl5',{'n':3000,'bg':5,'wo':0,'wl':0})
    for k,t in LV.items():
        d=['-DLCPC='+t]
        def A(nm,cfg,**o): c.append(C('%s_%s'%(k,nm),cfg,defs=d,**o))
        A('n0',{'n':0}); A('n1',{'n':1,'k':12}); A('n2',{'n':2,'k':12}); A('n4',{'n':4,'k':5})
        for bg in range(0,8): A('bg%d'%bg,{'n':40+67*bg,'bg':bg,'wo':20+41*bg,'wl':2,'k':7,'step':7})
    return c
PROPS['P18']=dict(configs=_p18(),covers=['lcp'],bounds='construct_lcp_kasai, PHI (byte and integer), semi_extern_PHI, go, goPHI, bwt_based, bwt_based2: every text of up to 8 symbols over 2, 5 over 3, 4 over 4, 3 over 5 values, every 3-symbol window in texts of 71..302 symbols of 12 kinds, 1-symbol windows in texts of 600, and for the BWT based ones single texts of 1500..3100 symbols; lcp_bitcompressed, lcp_byte, lcp_dac, lcp_vlc, lcp_wt over every array of up to 4 of 5 and 2 of 12 extreme values, 2-value windows in arrays of 40..509 values, with copy, move, swap, store and load',outside='longer symbolic texts; the CST-dependent LCP representations (P21); lcp arrays with values of 2^40 and more')

CSAB={'wt':'csa_wt<wt_huff<>,4,4>','wt3':'csa_wt<wt_blcd<>,3,5>','wti':'csa_wt<wt_hutu<bit_vector_il<>>,2,4,sa_order_sa_sampling<>,isa_sampling<>,succinct_byte_alphabet<> >','sada':'csa_sada<enc_vector<coder::elias_delta,4>,4,4>','sadaf':'csa_sada<enc_vector<coder::fibonacci,3>,3,2>','sadag':'csa_sada<enc_vector<coder::elias_gamma,7>,2,3,text_order_sa_sampling<>,isa_sampling<>,succinct_byte_alphabet<bit_vector,rank_support_v<>,select_support_mcl<> > >','bc':'csa_bitcompressed<>','bcs':'csa_bitcompressed<succinct_byte_alphabet<> >',
 'wtto':'csa_wt<wt_huff<>,4,4,text_order_sa_sampling<>,text_order_isa_sampling_support<> >','wttoi':'csa_wt<wt_huff<rrr_vector<63> >,3,4,text_order_sa_sampling<bit_vector>,isa_sampling<> >','wtfz':'csa_wt<wt_huff<>,4,4,fuzzy_sa_sampling<>,fuzzy_isa_sampling_support<> >','wtbwt':'csa_wt<wt_huff<>,3,3,sa_bwt_sampling<>,isa_sampling<> >','sadato':'csa_sada<enc_vector<coder::elias_delta,4>,4,4,text_order_sa_sampling<sd_vector<> >,text_order_isa_sampling_support<> >','sadafz':'csa_sada<enc_vector<>,3,3,fuzzy_sa_sampling<bit_vector,bit_vector>,fuzzy_isa_sampling_support<> >','sadabwt':'csa_sada<enc_vector<>,3,3,sa_bwt_sampling<>,isa_sampling<> >'}
CSAI={'iwt':'csa_wt<wt_int<>,3,4,sa_order_sa_sampling<>,isa_sampling<>,int_alphabet<> >','iwtr':'csa_wt<wt_int<rrr_vector<63> >,4,4,text_order_sa_sampling<>,text_order_isa_sampling_support<>,int_alphabet<> >','isada':'csa_sada<enc_vector<coder::elias_delta,4>,3,4,sa_order_sa_sampling<>,isa_sampling<>,int_alphabet<> >','ibc':'csa_bitcompressed<int_alphabet<> >','iwtap':'csa_wt<wt_ap<>,4,2,sa_order_sa_sampling<>,isa_sampling<>,int_alphabet<bit_vector,rank_support_v<>,select_support_mcl<> > >'}
def _csa(A0,extra=True):
    for iw,D in ((8,CSAB),(0,CSAI)):
        for k,t in D.items(): A0(k,iw,['-DIW=%d'%iw,'-DCSA='+t])
def _p19():
    c=[]
    def one(k,iw,d):
        def A(nm,cfg,**o): c.append(C('%s_%s'%(k,nm),cfg,defs=d,**o))
        A('n0',{'n':0,'vs':1}); A('n1',{'n':1,'k':4,'al':1,'nb':iw and 1}); A('n2',{'n':2,'k':4,'vs':1}); A('n3',{'n':3,'k':3,'al':1,'nb':1,'vs':1}); A('n4',{'n':4,'k':3,'nb':(4,1)[iw==8]}); A('n6',{'n':6,'k':2,'nb':(2,1)[iw==8]})
        A('n6k3',{'n':6,'k':3},tier='thorough',t=400); A('n10',{'n':10,'k':2},tier='thorough',t=400)
        for bg in (1,2,5,6,9,13): A('bg%d'%bg,{'n':23+9*bg,'bg':bg,'wo':8+5*bg,'wl':1,'k':3,'step':5,'vs':bg==6})
        for bg in (3,4,7,8,10,12): A('bg%d'%bg,{'n':40+11*bg,'bg':bg,'wo':15+7*bg,'wl':1,'k':3,'step':7},tier='thorough')
        if k=='wtbwt': A('sc4',{'n':4,'k':3,'sc':1,'vs':1}); A('sc13',{'n':60,'bg':13,'wo':20,'wl':1,'k':3,'sc':1,'step':3}); A('sc6',{'n':77,'bg':6,'wo':20,'wl':1,'k':3,'sc':1,'step':3})
        A('l5',{'n':420,'bg':5,'wo':0,'wl':0,'step':37}); A('l14',{'n':255+(k=='wt')*3,'bg':14,'wo':0,'wl':0,'step':31})
    _csa(one)
    return c
PROPS['P19']=dict(configs=_p19(),covers=['csa'],bounds='15 byte and 5 integer CSA types (csa_wt, csa_sada, csa_bitcompressed; SA order, text order, fuzzy and BWT sampling (with and without sample characters); isa_sampling, text order and fuzzy ISA supports; plain and succinct alphabets): every text of up to 6 symbols over 2, 4 over 3, 3 over 3 and 2 over 4 values incl. 1, 127, 128, 255, a symbolic symbol in texts of 32..140 symbols of 6 kinds (12 thorough), single texts of 255 (all byte values) and 420 symbols; input as serialized vector and as 1/2/4 byte symbols; copies, moves, swaps and loaded objects on the shorter texts, with the source destroyed',outside='longer symbolic texts; sampling densities above 7 (one config each); integer symbols above 99999')

CSABI={'blcd':'csa_wt<wt_blcd<>,4,4>','hutu':'csa_wt<wt_hutu<>,4,4>','hutui':'csa_wt<wt_hutu<bit_vector_il<> >,4,4,sa_order_sa_sampling<>,isa_sampling<>,succinct_byte_alphabet<> >','blcdr':'csa_wt<wt_blcd<rrr_vector<63> >,4,4>'}
def _p20():
    c=[]
    def one(k,iw,d):
        def A(nm,cfg,**o): c.append(C('%s_%s'%(k,nm),cfg,defs=d,**o))
        A('n0',{'n':0,'m':1,'pk':3}); A('n1',{'n':1,'k':2,'m':2,'pk':3,'al':1}); A('n3m0',{'n':3,'k':3,'m':0}); A('n4m1',{'n':4,'k':2,'m':1,'pk':5,'al':1}); A('n4m2',{'n':4,'k':2,'m':2,'pk':4,'al':1}); A('n3m3',{'n':3,'k':2,'m':3,'pk':3}); A('n2m3',{'n':2,'k':2,'m':3,'pk':2}); A('n2m4',{'n':2,'k':2,'m':4,'pk':2}); A('n3z',{'n':3,'k':2,'m':2,'pk':3,'z':1}); A('n3z3',{'n':3,'k':2,'m':3,'pk':2,'z':1}); A('n5x',{'n':5,'k':2,'ex':1})
        A('n6m3',{'n':6,'k':2,'m':3,'pk':3},tier='thorough',t=400); A('n5m3',{'n':5,'k':3,'m':2,'pk':4},tier='thorough',t=400)
        for bg in (1,2,5,6,8,13): A('bg%d'%bg,{'n':23+9*bg,'bg':bg,'wo':8+5*bg,'wl':0,'m':2+bg%5,'k':3,'step':3,'sub':1}); A('x%d'%bg,{'n':23+9*bg,'bg':bg,'wo':8+5*bg,'wl':1,'k':2,'ex':1,'step':11})
        A('l14',{'n':255,'bg':14,'wo':0,'wl':0,'step':31,'m':2,'sub':1})
    _csa(one)
    for k,t in CSABI.items():
        def A(nm,cfg,**o): c.append(C('bi_%s_%s'%(k,nm),cfg,defs=['-DBIDI','-DCSA='+t],**o))
        A('n0',{'n':0,'m':1,'pk':3}); A('n3m2',{'n':3,'k':2,'m':2,'pk':4,'al':1}); A('n4m3',{'n':4,'k':2,'m':3,'pk':2}); A('n5m2',{'n':5,'k':2,'m':2,'pk':3}); A('n3k3',{'n':3,'k':3,'m':2,'pk':4}); A('n5m4',{'n':5,'k':2,'m':4,'pk':2},tier='thorough',t=300)
        for bg in (6,7,8,13): A('bg%d'%bg,{'n':50,'bg':bg,'wo':0,'wl':0,'m':4,'pk':2,'k':3})
    return c
PROPS['P20']=dict(configs=_p20(),covers=['search'],bounds='the 20 CSA types of P19: every text of up to 4 symbols over 2 values with every pattern of 1..2 of up to 5 values (present and absent, with values above 127), 3-symbol texts with 3-symbol patterns, patterns longer than the text, empty patterns, patterns ending with the terminating zero; all substrings (and modified substrings) of a given length in texts of 32..255 symbols of 7 kinds; single-symbol backward and forward search from every interval [l..r]; extract of every interval; bidirectional search over 4 csa_wt types, forward/backward in three orders from every start position of every pattern of 2..4 symbols',outside='longer symbolic texts and patterns; patterns with a zero inside; bidirectional search on integer alphabets (not offered by the library)')

CSTB={'sct':'cst_sct3<csa_wt<wt_huff<>,4,4> >','sada':'cst_sada<csa_sada<enc_vector<coder::elias_delta,4>,4,4> >','fully':'cst_fully<csa_wt<wt_huff<>,4,4> >','fully4':'cst_fully<csa_sada<enc_vector<>,3,3>,4>','sctbc':'cst_sct3<csa_wt<wt_huff<>,4,4>,lcp_bitcompressed<> >','sctt2':'cst_sct3<csa_wt<wt_huff<>,4,4>,lcp_support_tree2<4> >','sadadac':'cst_sada<csa_sada<enc_vector<>,4,4>,lcp_dac<> >','sadadp':'cst_sada<csa_sada<enc_vector<>,4,4>,lcp_dac_dp<> >','sadavlc':'cst_sada<csa_sada<enc_vector<>,4,4>,lcp_vlc<> >','sadabyte':'cst_sada<csa_sada<enc_vector<>,4,4>,lcp_byte<> >',
 'sadat2gg':'cst_sada<csa_sada<enc_vector<>,4,4>,lcp_support_tree2<3>,bp_support_gg<> >','scttgg':'cst_sct3<csa_wt<wt_huff<>,4,4>,lcp_support_tree<>,bp_support_gg<> >','sadat':'cst_sada<csa_sada<enc_vector<>,4,4>,lcp_support_tree<> >','sctls':'cst_sct3<csa_wt<wt_huff<>,4,4>,lcp_support_sada<> >','sctwt':'cst_sct3<csa_wt<wt_huff<>,4,4>,lcp_wt<> >','scttg':'cst_sct3<csa_wt<wt_huff<>,4,4>,lcp_support_tree<>,bp_support_g<> >','sctbb':'cst_sct3<csa_bitcompressed<>,lcp_bitcompressed<> >'}
CSTI={'isct':'cst_sct3<csa_wt<wt_int<>,3,4,sa_order_sa_sampling<>,isa_sampling<>,int_alphabet<> > >','isada':'cst_sada<csa_sada<enc_vector<>,3,4,sa_order_sa_sampling<>,isa_sampling<>,int_alphabet<> > >','isctbc':'cst_sct3<csa_bitcompressed<int_alphabet<> > >','isadat':'cst_sada<csa_sada<enc_vector<>,4,4,sa_order_sa_sampling<>,isa_sampling<>,int_alphabet<> >,lcp_support_tree<> >','ifully':'cst_fully<csa_wt<wt_int<>,3,4,sa_order_sa_sampling<>,isa_sampling<>,int_alphabet<> > >'}
def _cst(A0):
    for iw,D in ((8,CSTB),(0,CSTI)):
        for k,t in D.items(): A0(k,iw,['-DIW=%d'%iw,'-DVCST='+t]+(['-DFULLY'] if 'fully' in k else ['-DSADA'] if 'sada' in k else []))
def _p21():
    c=[]
    def one(k,iw,d):
        def A(nm,cfg,**o): c.append(C('%s_%s'%(k,nm),cfg,defs=d,**o))
        fu='fully' in k
        A('n0',{'n':0,'vs':1}); A('n1',{'n':1,'k':4,'al':1,'nb':iw and 1}); A('n2',{'n':2,'k':3,'vs':1}); A('n3',{'n':3,'k':3,'al':1,'nb':1}); A('n5',{'n':5,'k':2,'nb':(2,1)[iw==8]})
        A('n4',{'n':4,'k':3},tier='thorough',t=400); A('n8',{'n':8,'k':2},tier='thorough',t=400)
        for bg in (1,2,5,6,9): A('bg%d'%bg,{'n':23+(4 if fu else 9)*bg,'bg':bg,'wo':8+(2 if fu else 5)*bg,'wl':1,'k':3 if bg<4 else 2,'step':9,'vs':bg==2 and not fu})
        for bg in (3,4,7,8,10,12): A('bg%d'%bg,{'n':40+11*bg,'bg':bg,'wo':15+7*bg,'wl':1,'k':3,'step':7},tier='thorough',t=400)
        A('l1',{'n':70 if fu else 300,'bg':1,'wo':0,'wl':0,'step':37}); A('l14',{'n':255,'bg':14,'wo':0,'wl':0,'step':31})
        if any(x in k for x in ('dat','tt','byte','vlc','dp')): A('sq',{'n':540,'bg':8,'wo':0,'wl':0,'k':3,'step':61}); A('one',{'n':580,'bg':11,'wo':0,'wl':0,'step':61})
    _cst(one)
    for n,k,w in ((0,1,8),(1,1,8),(2,2,8),(3,3,8),(4,4,3),(5,5,16),(7,3,8)): c.append(C('scart_n%d'%n,{'n':n,'k':k,'w':w},src='p21b.cpp'))
    for n in (40,70,140): c.append(C('scart_w%d'%n,{'n':n,'k':4,'w':9,'wo':n//2,'wl':3},src='p21b.cpp'))
    return c
PROPS['P21']=dict(configs=_p21(),covers=['cst'],bounds='17 byte and 5 integer CST types (cst_sct3, cst_sada, cst_fully; lcp_dac, lcp_dac_dp, lcp_vlc, lcp_byte, lcp_bitcompressed, lcp_wt, lcp_support_sada, lcp_support_tree, lcp_support_tree2; bp_support_sada, _gg, _g): every node and operation of the tree of every text of up to 5 symbols over 2, 3 over 3, 2 over 3 and 1 over 4 values (8 over 2 and 4 over 3 thorough), a symbolic symbol in texts of 32..104 symbols of 5 kinds (11 thorough), single texts of 255 (all byte values), 300 (unary) and 540..580 symbols (LCP values above 254); all pairs for lca on texts of up to 15 symbols, sampled above; traversals, subtree traversals, iterator copies, pattern search, extract, H0, Hk; copies, moves, swaps and loaded trees with the source destroyed. Super-Cartesian parentheses: all arrays of up to 5 over 5 and 7 over 3 values, 3-symbol windows in arrays of 40..140',outside='longer symbolic texts; child and wl for all 256 characters (present ones up to 6, those above 249 and 4 absent ones are asked); Hk contexts')

def _p29():
    c=[]
    for W in (128,256):
        for ti in (0,1):
            d=['-DBW=%d'%W]+(['-DMODE_TI'] if ti else [])
            def A(nm,cfg,**o): c.append(C('u%d%s_%s'%(W,'ti' if ti else '',nm),cfg,defs=d,**o))
            A('arith',{'op':0}); A('cmp',{'op':1}); A('pop',{'op':3})
            for s in range(0,W+1,32): A('sh%d'%s,{'op':2,'s0':s,'s1':min(W,s+31)})
            for s in range(0,W,64): A('hi%d'%s,{'op':4,'s0':s,'s1':s+63})
            A('sel1',{'op':5,'k':1}); A('sel2',{'op':5,'k':2},t=200)
            A('sel3',{'op':5,'k':3},tier='thorough',t=600)
            for off in (0,1,63): 
                for s in range(1,W+1,64): A('io%d_%d'%(off,s),{'op':6,'off':off,'s0':s,'s1':min(W,s+63)})
            A('binom',{'op':8}); A('binom2',{'op':8,'n':W//2+1})
    return c
PROPS['P29']=dict(configs=_p29(),covers=['wide'],bounds='all pairs of 128 and 256 bit operands (every bit symbolic) for + - | & ~ and their assignment forms, all comparisons, conversions, popcount; shifts by every distance 0..width; hi for every operand; select for every operand with up to 2 ones (3 thorough); set_int/get_int of rrr_helper for every operand, length and 3 offsets; binomial tables; with the class and with the built-in 128 bit type (MODE_TI)',outside='select on operands with more than 3 ones; shifts beyond the width; the output operators')

def _p27():
    c=[]
    for tw,w in ((0,1),(0,7),(0,13),(0,33),(0,64),(8,8),(16,16),(32,32),(64,64),(1,1),(5,5)):
        for pl,dk in ((0,0),(0,1),(1,0),(1,1)) if tw in (8,16,32,64) else ((0,0),(0,1)):
            d=['-DTW=%d'%tw]; nm='t%dw%d%s%s'%(tw,w,'p' if pl else '','d' if dk else '')
            def A(n,cfg,**o): c.append(C(nm+'_'+n,dict(cfg,w=w,plain=pl,disk=dk),defs=d,**o))
            A('L0',{'L':0,'n0':0}); A('L1',{'L':1,'n0':5}); A('L1e',{'L':1,'n0':0,'n1':0,'bs':0}); A('L2',{'L':2,'n0':5}); A('L2e',{'L':2,'n0':0,'bs':3,'gap':70}); A('L1b',{'L':1,'n0':70,'bs':8,'n1':1})
            if (tw,pl) in ((0,0),(16,1)) and w in (13,16): A('L3s',{'L':3,'n0':4,'n1':2,'gap':17,'ops':0x2ED}); 
            A('L3',{'L':3,'n0':5,'n1':1,'gap':20},tier='thorough',t=700)
            if not pl: A('dirty',{'L':2 if w in (7,13,5) else 1,'n0':5,'dirty':1,'bs':8,'n1':1,'gap':4}); A('dirtyb',{'L':1,'n0':15,'dirty':1,'bs':3,'n1':1,'gap':70})
    for w in (2,3,5,9,17,31,63): 
        for dk in (0,1): c.append(C('t0w%d%s_L2'%(w,'d' if dk else ''),{'L':2,'n0':9,'w':w,'disk':dk,'bs':3},defs=['-DTW=0'],tier='thorough'))
    return c
PROPS['P27']=dict(configs=_p27(),covers=['buffer'],bounds='every history of 2 operations (3 thorough, and 3 from write, read, buffersize, reopen, move, swap, decrement quickly) out of 16 kinds (write at 6 positions including gaps, push_back, read, buffersize to 6 sizes, reset, close and reopen, move construction and assignment, swap with another and with a closed buffer, increment, decrement, += -=, element to element, iterator traversal and arithmetic, close with removal) with symbolic values on buffers of 0, 5 and 70 elements, 11 width/type combinations (0:1,7,13,33,64; 1, 5, 8, 16, 32, 64; 7 more thorough), vector and plain format, blocks of 1..40 bytes, RAM files and disk files, files written by a buffer or stored from an int_vector whose unused bits are set; content, size, iterators and the closed file (reloaded, length) compared with an array',outside='longer histories; several buffers on one file; buffers larger than 40 bytes',assumptions=['the disk is the model of rt/disk.inc'])

def _p28():
    c=[]
    for dk in (0,1):
        def A(n,cfg,**o): c.append(C(('disk_' if dk else 'ram_')+n,dict(cfg,disk=dk),**o))
        for b in (0,1): A('s%dL3'%b,{'kind':0,'L':3,'base':b}); A('s%dL3e'%b,{'kind':0,'L':3,'n0':0,'base':b})
        A('sL3n',{'kind':0,'L':3,'n0':100,'w0':0,'r0':0}); A('sL3c',{'kind':0,'L':3,'n0':2,'w0':0}); A('sw',{'kind':0,'L':4,'r0':0,'ops':0x201f}); A('s0L4',{'kind':0,'L':4},tier='thorough',t=700); A('s1L4e',{'kind':0,'L':4,'n0':0,'base':1},tier='thorough',t=700)
        for e in range(4): A('nL3_%d'%e,{'kind':1,'L':3,'e':e}); A('nL4_%d'%e,{'kind':1,'L':4,'e':e},tier='thorough',t=500)
        for k in (1,2,4,8): 
            for n,w in ((0,8),(1,8),(3,8),(3,64),(4,13)): A('p%d_%d_%d'%(k,n,w),{'kind':2,'k':k,'n':n,'w':w})
    return c
PROPS['P28']=dict(configs=_p28(),covers=['files'],bounds='every history of 3 operations (4 for a lone writer; 4 more thorough) out of 14 kinds on one file with a reader and a writer: open in 6 modes, write 1..3 symbolic bytes, put, absolute and relative seeks (also out of range) through the stream class and through its standard base class, flush, close, write after close, tellp, reopen, read, get/peek at the end, seekg, tellg; files of 0, 2 and 3 symbolic bytes and missing files; every history of 3 rename (also to itself and of missing files), remove, rewrite, store_to_file, ram_fs::store on two names; plain arrays of 1, 2, 4, 8 bytes per symbol and vectors of 0..4 symbolic elements through store/load functions, checked files, strings, std::vector, and the cache (registration, other ids, file maps, type hashes); each on RAM files and on disk files',outside='a reader continuing without a seek after another stream changed the file; a seek beyond the end which no write follows; two writers; text files of numbers; longer histories',assumptions=['the disk is the model of rt/disk.inc'])

def _p31():
    c=[]
    for tw,w in ((0,1),(0,7),(0,13),(0,33),(0,64),(1,1),(5,5),(8,8),(16,16),(32,32),(64,64)):
        for pl in (0,1) if tw in (8,16,32,64) else (0,):
            d=['-DTW=%d'%tw]; nm='t%dw%d%s'%(tw,w,'p' if pl else '')
            def A(n,cfg,**o): c.append(C(nm+'_'+n,dict(cfg,w=w,plain=pl),defs=d,**o))
            if not pl: A('n0',{'n':0,'L':2})
            A('n5',{'n':5,'L':2,'tmp':1}); A('n70',{'n':70,'L':1}); A('n64',{'n':64,'L':1})
            if w in (1,8,13): A('big',{'n':2,'L':2,'big':1,'ops':0x1f})
            A('L3',{'n':4,'L':3},tier='thorough',t=400)
            A('n129',{'n':129,'L':2,'ops':0x1fff&~0x120},tier='thorough',t=400)
    return c
PROPS['P31']=dict(configs=_p31(),covers=['mapper'],
 bounds='vectors of 0, 5, 64 and 70 entries (thorough 129) with symbolic values, static widths 1, 5, 8, 16, 32, 64 and run-time widths 1, 7, 13, 33, 64, sdsl and plain files; every history of 2 (n=5), 1 (n=64, 70) or 3 (thorough, n=4) operations out of: write an entry, push_back (also beyond the capacity, which grows the file by a million entries), resize to 0 / n+1 / n-1 / n+64 / n/2, move construction and move assignment, close and reopen, iterate and write through iterators, flip, set_int, comparison with int_vector and std::vector, width change when empty, const access, swap of two entries, replacing the file through store_to_file; after every operation all entries with a defined value are compared, at the end the file is compared with what load_from_file and a read-only mapping see, and no file or mapping may stay open; temp_file_buffer, write_out_buffer and the key constructor',
 outside='mapping an empty plain file (mmap of length 0 is refused), values of entries created by resize before they are written, two mappings of one file at the same time, mmap failing half way, files other processes change; mmap, ftruncate and the file descriptors are the model in rt/disk.inc; the random name of temp_file_buffer::create()')

def _p30():
    c=[]
    def A(n,cfg,**o): c.append(C(n,cfg,**o))
    A('heap4',{'L':4,'qs':5}); A('heap4s',{'L':4,'qs':5,'pool':256}); A('heap5',{'L':5,'qs':3,'pool':256}); A('odd',{'L':3,'qs':4,'odd':1,'pool':512}); A('before1',{'L':2,'qs':3,'before':1}); A('before2',{'L':2,'qs':3,'before':2})
    A('heap3b',{'L':3,'qs':8,'pool':4096}); A('pre2',{'pre':4,'L':2,'qs':7,'pool':480}); A('pre2m',{'pre':3,'L':2,'qs':8,'preq':4,'pool':2000,'con':1}); A('full',{'pre':4,'L':2,'qs':6,'preq':2,'pool':216}); A('full3',{'pre':4,'L':2,'qs':6,'preq':3,'pool':240}); A('pre3',{'pre':3,'L':3,'qs':5,'preq':2,'pool':400}); A('pre3t',{'pre':3,'L':3,'qs':6,'preq':2,'pool':320,'con':1},tier='thorough',t=500);  A('heap6',{'L':6,'qs':2,'pool':208,'con':1},tier='thorough',t=500)
    for w in (1,13,64): A('vec%d'%w,{'vec':1,'L':3,'w':w,'pool':4096})
    A('vec4',{'vec':1,'L':4,'w':7,'pool':1024*64},tier='thorough',t=400)
    return c
PROPS['P30']=dict(configs=_p30(),covers=['heap'],
 bounds='hugepage_allocator through memory_manager::alloc_mem / realloc_mem / free_mem: up to 4 live blocks in pools of 208 to 4096 bytes (also pools that the blocks fill exactly); every history of 2 to 5 (thorough 6) operations, also after 3 or 4 blocks were allocated, with sizes 0, 8, 16, 24, 40, 64, 104, 200 and the odd sizes 17 and 25; after every operation every live block must be aligned, inside the pool, disjoint from the others and hold its symbolic contents, realloc must keep min(old,new) bytes, an allocation may only be refused if no gap of that size (plus 144 bytes) is left, and after freeing everything the whole pool must be available as one block; blocks allocated before huge pages were switched on; histories of 3 (thorough 4) operations (resize, assign, copy, move, swap, write) on two int_vectors of widths 1, 13, 64 whose memory comes from the pool',
 outside='sizes near 2^64, a second call of use_hugepages, the size detection in /proc/meminfo, whether recycled memory is zeroed, more than 4 live blocks; a realloc may be refused for a last block although a free block in front would fit (the allocator does not look there) and keeps merged blocks unsplit, so refusals after a realloc are not judged; natively normal pages stand in for huge pages')

KG={0:6,1:3,2:10,3:5,4:8,5:8,6:4,7:3,8:3,9:1,10:8,11:7,12:5}
def _val(props):
    c=[]
    for g,m in KG.items():
        iw=0 if g in (4,6) else 8
        for w in range(m):
            d=['-DG=%d'%g,'-DIW=%d'%iw]
            def A(n,cfg,**o): c.append(C('g%dw%d_%s'%(g,w,n),dict(cfg,which=w),defs=d,**o))
            A('s',{'n':4,'wl':3,'k':2,'n1':7,'n2':1})
            A('m',{'n':90 if g<5 else 40,'wo':20,'wl':2,'k':2,'bg':5 if g>4 else 3,'step':7,'n1':66,'n2':3})
            if g<2: A('b',{'n':9000,'wo':4090,'wl':1,'bg':2,'step':700,'n1':4600,'n2':700})
            if g==0 and w in (0,2): A('L',{'n':290000,'wo':4090,'wl':1,'bg':4,'step':9000,'n1':70,'n2':9000,'ops':0x0c79})
            if g>=2: A('n5',{'n':5,'wl':5 if g<5 else 4,'k':2,'n1':3,'n2':2,'al':1},tier='thorough',t=500)
    return c
PROPS['P25']=dict(configs=_val(0),covers=['io'],bounds='bit_vector with every rank and select support (also for the patterns 10 and 01), bit_vector_il, sd_vector, hyb_vector, rrr_vector<15/63/127>, int_vector<0/8/64>, enc_vector, vlc_vector, dac_vector, dac_vector_dp, wt_huff/blcd/hutu/rlmn/int/gmr/ap/gmr_rs and wm_int, the CSAs with all sampling strategies and alphabets, cst_sct3, cst_sada, cst_fully with different LCP classes, the LCP classes, the rmq structures, bp_support_sada/gg/g, inv_perm_support, nn_dict_dynamic, nearest_neighbour_dictionary, louds_tree, k2_treap, k2_tree, the sorted stacks; symbolic contents: 3 positions over 2 values in structures of 4 entries, 2 positions in structures of 40 to 90 entries over a fixed background (thorough: 5 of 5), one bit in 9000 and 290000 bits; the object is serialized between two other members of a stream, loaded into a fresh, a larger or a smaller used object, every answer is compared with the answers before, as well as the bytes returned, written, read, reported by size_in_bytes and by the structure tree; loading again from store_to_file / load_from_file over a used object, the bytes of a second serialization; an empty default object written and loaded over a used one',outside='files of other library versions, truncated or foreign files, real disk files (P28 looks at those), the JSON and HTML output, structures whose size exceeds memory; contents outside the symbolic windows are samples')
PROPS['P26']=dict(configs=_val(1),covers=['value'],bounds='bit_vector with every rank and select support (also for the patterns 10 and 01), bit_vector_il, sd_vector, hyb_vector, rrr_vector<15/63/127>, int_vector<0/8/64>, enc_vector, vlc_vector, dac_vector, dac_vector_dp, wt_huff/blcd/hutu/rlmn/int/gmr/ap/gmr_rs and wm_int, the CSAs with all sampling strategies and alphabets, cst_sct3, cst_sada, cst_fully with different LCP classes, the LCP classes, the rmq structures, bp_support_sada/gg/g, inv_perm_support, nn_dict_dynamic, nearest_neighbour_dictionary, louds_tree, k2_treap, k2_tree, the sorted stacks; symbolic contents: 3 positions over 2 values in structures of 4 entries, 2 positions in structures of 40 to 90 entries over a fixed background (thorough: 5 of 5), one bit in 9000 and 290000 bits; 14 histories of copy, move and swap operations: copy and move construction, copy and move assignment to used and to fresh objects, swap and std::swap with used, smaller, larger and fresh objects, self assignment, push_back / erase in std::vector, copies of empty objects, reuse of moved-from objects, destruction of the source; after each the complete set of answers of every object involved is compared with the answers before',outside='move assignment to itself, threads, exceptions thrown by an allocation; the content of moved-from objects other than that they can be destroyed and assigned; contents outside the symbolic windows are samples')

P32K={'wth':(8,0,'wt_huff<>'),'wtb':(8,0,'wt_blcd<rrr_vector<63> >'),'csaw':(8,1,'csa_wt<wt_huff<>,4,4>'),'csas':(8,1,'csa_sada<enc_vector<>,4,4>'),'csab':(8,1,'csa_bitcompressed<>'),'csafz':(8,1,'csa_wt<wt_huff<>,4,4,fuzzy_sa_sampling<>,fuzzy_isa_sampling_support<> >'),'sct':(8,2,'cst_sct3<csa_wt<wt_huff<>,4,4> >'),'sada':(8,2,'cst_sada<csa_sada<enc_vector<>,4,4> >'),'lcpb':(8,3,'lcp_bitcompressed<>'),'lcpd':(8,3,'lcp_dac<>'),
 'wti':(0,0,'wt_int<>'),'wmi':(0,0,'wm_int<>'),'wtap':(0,0,'wt_ap<>'),'wtgmr':(0,0,'wt_gmr<>'),'csaiw':(0,1,'csa_wt<wt_int<>,4,4,sa_order_sa_sampling<>,isa_sampling<>,int_alphabet<> >'),'csais':(0,1,'csa_sada<enc_vector<>,4,4,sa_order_sa_sampling<>,isa_sampling<>,int_alphabet<> >'),'scti':(0,2,'cst_sct3<csa_wt<wt_int<>,4,4,sa_order_sa_sampling<>,isa_sampling<>,int_alphabet<> > >'),'lcpi':(0,3,'lcp_vlc<>')}
def _p32():
    c=[]
    for k,(iw,kd,t) in P32K.items():
        d=['-DIW=%d'%iw,'-DKIND=%d'%kd,'-DIDX='+t]
        def A(nm,cfg,**o): c.append(C('%s_%s'%(k,nm),cfg,defs=d,**(dict(o,tier='thorough') if k in('wtb','wmi','lcpd') else o)))
        forms=(0,1,2,100) if iw==8 else (0,1,2,3,4,8,100)
        if kd==3: forms=(1,) if iw==8 else (0,2,3,8,100)
        for nb in forms: A('f%d'%nb,{'n':3,'k':3,'nb':nb,'al':1 if iw==8 else 0 if nb==1 else 1 if nb==2 else 2,'used':nb in(0,2),'del':nb!=2}); A('f%dd'%nb,{'n':2,'k':2,'nb':nb,'al':1 if iw==8 else 0,'disk':1,'del':nb!=1})
        f0=forms[0]
        A('e',{'n':0,'nb':f0}); A('keep',{'n':4,'k':2,'nb':f0,'del':0}); A('keepf',{'n':4,'k':2,'nb':f0,'del':0,'fresh':1})
        if kd: A('pre',{'n':3,'k':3,'nb':f0,'pmax':15,'del':1,'used':1}); A('prek',{'n':3,'k':2,'nb':f0,'pmax':15,'del':0}); A('pref',{'n':3,'k':2,'nb':f0,'pmax':15,'forget':1}); A('prefk',{'n':3,'k':2,'nb':f0,'pmax':15,'forget':1,'del':0,'disk':1})
        if iw==8: A('im',{'n':4,'k':3,'how':1,'al':1}); A('im0',{'n':0,'how':1})
        if iw==8 and kd!=3 or iw==0: A('imv',{'n':4,'k':3,'how':2,'used':1})
        A('nc',{'n':4,'k':2,'how':3,'nb':f0}); A('ncd',{'n':2,'k':2,'how':3,'nb':f0,'disk':1})
        if kd<3: A('nest',{'n':3,'k':2,'how':6,'nb':f0}); A('nestf',{'n':2,'k':2,'how':6,'nb':forms[1]}); A('nestd',{'n':2,'k':2,'how':6,'nb':f0,'disk':1})
        if kd: A('zero',{'n':3,'k':2,'how':4,'nb':f0,'used':1}); A('odd',{'n':2,'k':2,'how':5,'nb':2,'used':1}) if not(kd==3 and iw==8) else None
        for bg in (5,6): A('bg%d'%bg,{'n':70,'bg':bg,'wo':30,'wl':1,'k':3,'nb':f0,'del':bg==5})
        A('n6',{'n':6,'k':2,'nb':f0},tier='thorough')
    return c
PROPS['P32']=dict(configs=_p32(),covers=['built'],bounds='15 index types, 18 in the thorough tier (byte and integer wavelet trees, CSAs, CSTs, LCP arrays): every text of up to 4 symbols over 2 or 3 values and a symbolic symbol in texts of 70, given as serialized vector, as 1, 2, 3, 4 and 8 byte symbols, as decimal text, as string or vector in memory, in RAM and on disk, with and without a cache configuration, into fresh and used indexes, with every admissible subset of text, SA, BWT and LCP array already in the cache (registered or left by an earlier run), with deletion of the temporary files and without (then the cached files are compared and a second index is built from them after the input was removed); texts with a zero at every position and files of odd length; a construction inside which two others of the same type run (files and names in use at the same time)',outside='missing input files, cached files of another text, longer symbolic texts',assumptions=['the disk is the model of rt/disk.inc','libdivsufsort is its contract'])
def _p33():
    c=[]
    for g,m in KG.items():
        iw=0 if g in (4,6) else 8
        for w in range(m):
            d=['-DG=%d'%g,'-DIW=%d'%iw]
            def A(n,cfg,**o): c.append(C('g%dw%d_%s'%(g,w,n),dict(cfg,which=w),defs=d,**o))
            A('s',{'n':4,'wl':3,'k':2,'n1':7,'n2':1})
            A('m',{'n':90 if g<5 else 40,'wo':20,'wl':2,'k':2,'bg':5 if g>4 else 3,'step':7,'n1':66,'n2':3})
            if g<2: A('b',{'n':9000,'wo':4090,'wl':1,'bg':2,'step':700,'n1':4600,'n2':700})
            if g>=2: A('n5',{'n':5,'wl':5 if g<5 else 4,'k':2,'n1':3,'n2':2,'al':1},tier='thorough',t=500)
    return c
PROPS['P33']=dict(configs=_p33(),covers=['parallel'],tsan=True,bounds=PROPS['P26']['bounds'].split('; 14 histories')[0]+'; three kinds of parallel work: every query of one object; copies, assignment, swap, serialization, loading, RAM files (create, write, read, rename, remove) of the own objects of each thread made from shared ones; construction from own RAM files or in memory and destruction; all interleavings of any number of such threads, because the code of one thread makes no conflicting access',outside='memory_monitor with tracking switched on, hugepages, verbose output, two threads that use the same file or change the same object; different locks are not told apart; races inside the C and C++ libraries (their documented thread safety is assumed); whether two constructions choose different temporary names is decided by the uniqueness of ids here and by nested constructions in P32')
PROPS['TSTD']=dict(configs=[C('t%d'%t,{'t':t}) for t in range(36)],src='t_std.cpp',bounds='',outside='')
PROPS['TIO']=dict(configs=[C('io')],src='t_io.cpp',bounds='',outside='')

def _p34():
    c=[]
    for k,iw,t in (('wt',8,'csa_wt<wt_huff<>,4,4>'),('sada',8,'csa_sada<enc_vector<coder::elias_delta,4>,4,4>'),('bc',8,'csa_bitcompressed<>'),('iwt',0,'csa_wt<wt_int<>,3,4,sa_order_sa_sampling<>,isa_sampling<>,int_alphabet<> >')):
        d=['-DKIND=0','-DIW=%d'%iw,'-DCSA='+t]
        for nm,cfg in (('n0',{'n':0}),('n1',{'n':1,'k':3,'al':1}),('n3',{'n':3,'k':2,'al':1}),('n12',{'n':12,'k':2,'bg':4,'wo':5,'wl':1})): c.append(C('csa_%s_%s'%(k,nm),cfg,defs=d))
    for k,t in (('sct','cst_sct3<csa_wt<wt_huff<>,4,4> >'),('sada','cst_sada<csa_sada<enc_vector<coder::elias_delta,4>,4,4> >')):
        d=['-DKIND=0','-DIW=8','-DCSA='+t[9:-2],'-DVCST='+t]
        for nm,cfg in (('n1',{'n':1,'k':3,'al':1}),('n3',{'n':3,'k':2,'al':1}),('n12',{'n':12,'k':2,'bg':4,'wo':5,'wl':1})): c.append(C('cst_%s_%s'%(k,nm),cfg,defs=d))
    for n,b,top in ((0,1,0),(1,6,0),(2,3,0),(3,2,8),(2,2,98),(2,2,(1<<40)-1)): c.append(C('vec_%d_%d_%d'%(n,b,top%1000),{'n':n,'b':b,'top':top},defs=['-DKIND=1']))
    for k in (0,1):
        for pos in (0,28,60,100,120)+((124,188,248) if k else ()): c.append(C('hex_%d_%d'%(k,pos),{'k':k,'pos':pos,'b':8 if pos in (120,248) else 6},defs=['-DKIND=2']))
    for k in range(5):
        for n in (0,1,3): c.append(C('json_%d_%d'%(k,n),{'k':k,'n':n},defs=['-DKIND=3']))
    return c
PROPS['P34']=dict(configs=_p34(),covers=['print'],bounds='csXprintf: every text of 0, 1 and 3 symbols over 2..3 values (including bytes above 127) and 12-symbol texts with a symbolic symbol, 13 format strings with widths 0..300 (symbolic choice), default sentinel and two others, 4 CSA and 2 CST types; printed vectors: 0..3 elements with up to 6 symbolic bits, values around 0, 8..11, 98..101 and 2^40; hexadecimal: 6..8 symbolic bits at 5..8 positions over three backgrounds; JSON report: 29 types over 0, 1 and 3 elements with 2 symbolic bits each',outside='the HTML page around the JSON report, precision of floating point output, locales')
