'''mutate.py SEED COUNT OUT [file...]: random small mutants of hylaa; those which pass the repository's tests are given to the checks'''
import ast,sys,os,random,subprocess,shutil,json,time
SEED,COUNT,OUT=int(sys.argv[1]),int(sys.argv[2]),sys.argv[3]
FILES=sys.argv[4:] or ['core','aggdag','aggregate','aggstrat','deaggregation','hybrid_automaton','lputil','lpinstance','stateset','time_elapse','time_elapse_expm','timerutil','plotutil','result','kamenev','lpplot']
ORDER={'core':'C01 C05 C03 C11 C10 C14 C04 C16 C09','aggdag':'C03 C02 C14 C01 C05 C04','aggregate':'C02 C03 C08','aggstrat':'C03 C02 C05 C11 C08',
'deaggregation':'C03 C09 C14 C05','hybrid_automaton':'C01 C16 C08 C04 C12 C13 C02','lputil':'C01 C02 C13 C15 C04 C16 C08 C06','lpinstance':'C13 C06 C04 C01 C02 C08',
'stateset':'C01 C15 C09 C03 C14 C02','time_elapse':'C12 C01 C15 C08','time_elapse_expm':'C12 C01 C15 C08','timerutil':'C10 C07 C06 C14','plotutil':'C09 C14 C11 C10 C07 C03',
'result':'C09 C14 C04 C03 C11','kamenev':'C09 C13 C15','lpplot':'C09 C13 C01 C15'}
cov={os.path.basename(f)[:-3]:set(l) for f,l in json.load(open('/tmp/x/cov.json')).items()}
CMP={ast.Lt:['<='],ast.LtE:['<'],ast.Gt:['>='],ast.GtE:['>'],ast.Eq:['!='],ast.NotEq:['=='],ast.Is:['is not'],ast.IsNot:['is'],ast.In:['not in'],ast.NotIn:['in']}
SYM={ast.Lt:'<',ast.LtE:'<=',ast.Gt:'>',ast.GtE:'>=',ast.Eq:'==',ast.NotEq:'!=',ast.Is:'is',ast.IsNot:'is not',ast.In:'in',ast.NotIn:'not in'}
def sites(name):
    src=open('/repo/hylaa/%s.py'%name).read(); tree=ast.parse(src); lines=src.split('\n')
    off=[0]
    for l in lines: off.append(off[-1]+len(l.encode())+1)
    b=src.encode()
    def seg(n): return off[n.lineno-1]+n.col_offset, off[n.end_lineno-1]+n.end_col_offset
    out=[]
    def add(n,new,kind):
        s,e=seg(n)
        if b[s:e].decode()!=new: out.append((s,e,new,n.lineno,kind))
    skip=set()
    for n in ast.walk(tree):
        if isinstance(n,(ast.Assert,ast.Raise)) or (isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant)) or isinstance(n,ast.JoinedStr) or \
           (isinstance(n,ast.Call) and getattr(n.func,'attr',getattr(n.func,'id','')) in ('print_verbose','print_debug','print_normal','print_func','print','tic','toc','cprint','freeze_attrs')):
            for m in ast.walk(n): skip.add(id(m))
            skip.add(id(n))
    for n in ast.walk(tree):
        if id(n) in skip or not hasattr(n,'lineno') or (isinstance(n,ast.Expr) and id(n.value) in skip): continue
        t=lambda m: b[seg(m)[0]:seg(m)[1]].decode()
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            for o in CMP[type(n.ops[0])]: add(n,'%s %s %s'%(t(n.left),o,t(n.comparators[0])),'cmp')
        elif isinstance(n,ast.BoolOp):
            o=' or ' if isinstance(n.op,ast.And) else ' and '
            add(n,'('+o.join('(%s)'%t(v) for v in n.values)+')','bool')
            for v in n.values: add(v,'True' if isinstance(n.op,ast.And) else 'False','term')
        elif isinstance(n,ast.UnaryOp):
            add(n,'(%s)'%t(n.operand),'neg')
        elif isinstance(n,ast.BinOp) and type(n.op) in (ast.Add,ast.Sub,ast.Mult,ast.Div,ast.FloorDiv):
            o={'Add':'-','Sub':'+','Mult':'+','Div':'*','FloorDiv':'+'}[type(n.op).__name__]
            add(n,'(%s %s %s)'%(t(n.left),o,t(n.right)),'arith'); add(n,'(%s)'%t(n.left),'left')
        elif isinstance(n,ast.Constant):
            v=n.value
            if v is True or v is False: add(n,str(not v),'const')
            elif isinstance(v,int): add(n,str(v+1),'const'); add(n,str(v-1),'const')
            elif isinstance(v,float): add(n,repr(v*1000),'const')
        elif isinstance(n,ast.If):
            add(n.test,'True','if'); add(n.test,'False','if')
        elif isinstance(n,(ast.Break,ast.Continue)): add(n,'pass','jump')
        elif isinstance(n,ast.AugAssign): add(n,'pass','del')
        elif isinstance(n,ast.Expr) and isinstance(n.value,ast.Call): add(n,'pass','del')
        elif isinstance(n,ast.Assign) and isinstance(n.targets[0],(ast.Attribute,ast.Subscript)): add(n,'pass','del')
        elif isinstance(n,ast.Call) and isinstance(n.func,ast.Attribute) and n.func.attr in('copy','clone'): add(n,t(n.func.value),'copy')
        elif isinstance(n,ast.Subscript) and isinstance(n.slice,ast.Slice):
            pass
    return [(name,)+o for o in out if o[3] in cov[name] or o[4]=='del']
def sh(c,t,env=None,cwd=None):
    try: p=subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,env=env,cwd=cwd); return p.returncode,p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired: subprocess.run('pkill -f mutchk.py',shell=True); return 99,'timeout'
allm=[]
import re
TODO=re.compile('')
for f in FILES: allm+=sites(f)
rng=random.Random(SEED); rng.shuffle(allm)
print(len(allm),'sites',flush=True)
done=0; log=open(OUT,'a')
W='/tmp/w/mut%d'%os.getpid()
CAP=os.environ.get('MCAP','20')
seenlines=set()
for name,s,e,new,ln,kind in allm:
    if done>=COUNT: break
    if (name,ln) in seenlines: continue
    seenlines.add((name,ln))
    shutil.rmtree(W,ignore_errors=True); sh('cp -a /repo %s && git -C %s checkout -q -- .'%(W,W),60)
    p=W+'/hylaa/%s.py'%name; b=open(p,'rb').read(); nb=b[:s]+new.encode()+b[e:]
    try: compile(nb,p,'exec')
    except SyntaxError: continue
    open(p,'wb').write(nb)
    desc='%s:%d %s  %s  =>  %s'%(name,ln,kind,b[s:e].decode().replace('\n',' ')[:90],new.replace('\n',' ')[:90])
    rc,o=sh('. /tmp/x/env.sh; PYTHONPATH=%s timeout 100 nice python -m pytest -q -x -p no:cacheprovider -n 5 --dist loadfile --timeout=30 -W ignore tests 2>&1 | tail -3'%W,120,cwd=W)
    last=o.strip().split('\n')[-1]
    if 'failed' in last or 'error' in last or 'passed' not in last: continue
    done+=1; res=None; tried=[]
    for P in ORDER[name].split():
        env=dict(os.environ,HYLAA_REPO=W)
        rc,o=sh('. /tmp/x/env.sh; PYTHONPATH=%s nice python /tmp/x/mutchk.py %s %s'%(W,P,CAP),300,env)
        l=[x for x in o.strip().split('\n') if x.startswith(('CAUGHT','BROKEN','quiet'))]
        l=l[-1] if l else 'NONE '+o[-150:].replace('\n',' ')
        if l.startswith('CAUGHT'): res=P+' '+l; break
        tried.append(P+':'+l[:60])
    log.write(('killed   ' if res else 'SURVIVED ')+desc+'   ## '+(res or ' '.join(tried))+'\n'); log.flush()
shutil.rmtree(W,ignore_errors=True)
print('end')
