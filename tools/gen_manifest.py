import json,os,sys
H=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,H); import props
ids=[json.loads(l)['id'] for l in open(H+'/../properties.jsonl')]
NA=getattr(props,'NA',{})
checks=[]; na=[]
for i in ids:
    if i in props.PROPS and i not in NA:
        P=props.PROPS[i]
        checks.append(dict(property=i,quick_cmd='python3 tools/check.py %s quick'%i,thorough_cmd='python3 tools/check.py %s thorough'%i,evidence_file='evidence/%s.json'%i,technique='symbolic execution of the LLVM IR of the real sources, decided by SAT/SMT (bit-vectors)',level='model_checking',level_note='Bounded: '+P['bounds']+'. Outside: '+P.get('outside','')+'. Trusts: clang front end and -O1 IR, the executor irsym (validated on every run against the native build by trace comparison; counterexamples are replayed natively), MiniSat/CaDiCaL/Z3, and the runtime models in rt/models.cpp.'))
    else: na.append(dict(property=i,reason=NA.get(i,'not yet built: the check for this property is still under construction')))
json.dump(dict(version=1,setup_cmd='bash irsym/build.sh "$PWD/build"',hooks=dict(guard='SDSL_VERIF_MAX_BUFFERSIZE',enable='the checks compile the IR and the native replay binaries with -DSDSL_VERIF_MAX_BUFFERSIZE=<bytes>; the value bounds the block size of int_vector_buffer',source_commits=['4b53580']),checks=checks,not_applicable=na,notes='tools/check.py is the driver, tools/props.py the configurations and bounds, harness/ the specifications, irsym/ the symbolic executor.'),open(H+'/../MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
