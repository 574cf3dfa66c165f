import os, sys, json, time, pickle, random, signal, subprocess, shutil, traceback
for v in ("OMP_NUM_THREADS","OPENBLAS_NUM_THREADS","MKL_NUM_THREADS"): os.environ[v]="1"
K=int(sys.argv[1]); NW=int(sys.argv[2]); BUD=float(sys.argv[3]); sel=sys.argv[4] if len(sys.argv)>4 else ''
OUT=sys.argv[5] if len(sys.argv)>5 else 'res'
sys.dont_write_bytecode=True
allm,F=pickle.load(open('muts.pkl','rb'))
idx=list(range(len(allm)))
if sel.startswith('@'): idx=[int(x) for x in open(sel[1:]).read().split()]
elif sel: idx=[i for i in idx if sel in allm[i][0]]
random.Random(5).shuffle(idx)
idx=idx[K::NW]
if os.path.exists('%s_%d.txt'%(OUT,K)):
    dn={json.loads(l)[0] for l in open('%s_%d.txt'%(OUT,K))}
    idx=[i for i in idx if i not in dn]
cov={}; cases={}
for i in range(1,28):
    p='C%02d'%i
    try: cs,rec=pickle.load(open('cov_%s.pkl'%p,'rb'))
    except Exception: continue
    cases[p]=cs
    for ci,t,v,h in rec:
        for l in h: cov.setdefault(l,[]).append((p,ci,t))
W='/tmp/x/mut/w%d'%K
os.makedirs(W,exist_ok=True)
if not os.path.exists(W+'/enterprise'):
    subprocess.run(['cp','-a','/repo/enterprise',W+'/'],check=True)
os.environ['VERIF_REPO']=W; os.environ['VERIF_CASE_TIMEOUT']='30'
sys.path.insert(0,'/tmp/x/mut/snap'); sys.path.insert(0,W)
import numpy, scipy.linalg, scipy.sparse, scipy.interpolate, scipy.stats, scipy.integrate, scipy.optimize, sksparse.cholmod, warnings
warnings.simplefilter('ignore')
def select(path,l0,l1,rng,budget):
    got={}
    for l in range(l0,l1+1):
        for c in cov.get((path,l),[]): got[c[:2]]=c
    if not got: return []
    by={}
    for c in got.values(): by.setdefault(c[0],[]).append(c)
    ret=[]
    for p,cs in by.items():
        cs.sort(key=lambda c:c[2])
        if budget<100:
            pick=cs[:3]+[cs[-1]] if cs[-1][2]<5 else cs[:3]
            pick=pick+rng.sample(cs,min(4,len(cs)))
        else: pick=cs
        ret+=list({c[:2]:c for c in pick}.values())
    ret.sort(key=lambda c:c[2]+rng.random()*0.3)
    tot=0; out=[]
    if budget>=100: rng.shuffle(ret)
    for c in ret:
        out.append(c); tot+=c[2]+0.02
        if tot>budget: break
    return out
def child(todo,w):
    os.setpgid(0,0)
    dn=os.open('/dev/null',os.O_WRONLY); os.dup2(dn,1); os.dup2(dn,2)
    import resource; resource.setrlimit(resource.RLIMIT_AS,(6<<30,6<<30))
    res='survived'
    try:
        from mc import engine
        engine.setup_process()
        import importlib
        t=time.time()
        known={}
        for p,ci,_ in todo:
            mod=importlib.import_module('mc.props.'+p.lower())
            if p not in known: known[p]=engine.load_known(p)
            s,v=engine.execute(mod,cases[p][ci],1)
            if v and not (v['key'] and v['key'] in known[p]):
                res='%s:%d:%s'%(p,ci,v['msg'][:120]); break
    except BaseException as e:
        res='import:%r'%e
    os.write(w,res.encode()[:2000]); os._exit(0)
out=open('%s_%d.txt'%(OUT,K),'a')
done=set()
for n,i in enumerate(idx):
    path,l0,l1,op,old,new,src=allm[i]
    rng=random.Random(i)
    todo=select(path,l0,l1,rng,BUD)
    if not todo:
        # import-level or uncovered: is the line inside a function?
        infn=any(a<l0<=b or a==l0 for a,b in F[path])
        if infn:
            fn=max([(a,b) for a,b in F[path] if a<=l0<=b])
            todo2=select(path,fn[0],fn[1],rng,BUD) if l0<=fn[0]+3 else []
            if not todo2:
                out.write(json.dumps([i,path,l0,op,old,new,'uncovered'])+'\n'); out.flush(); continue
            todo=todo2
        else:
            allc=[c for cs in [cov[x] for x in list(cov)[:1]] for c in cs]
            todo=[]
            for p in cases: 
                todo+=[(p,k,0.1) for k in rng.sample(range(len(cases[p])),min(3,len(cases[p])))]
    f=W+'/'+path
    orig=open(f,'rb').read()
    open(f,'wb').write(src)
    r,w=os.pipe()
    pid=os.fork()
    if pid==0: os.close(r); child(todo,w)
    os.close(w)
    import select as _s
    t0=time.time(); lim=BUD*2+60
    rd,_,_=_s.select([r],[],[],lim)
    res=os.read(r,2000).decode() if rd else 'timeout'
    if not res: res='died'
    os.close(r)
    try: os.killpg(pid,signal.SIGKILL)
    except Exception: pass
    try: os.waitpid(pid,0)
    except Exception: pass
    open(f,'wb').write(orig)
    out.write(json.dumps([i,path,l0,op,old,new,res])+'\n'); out.flush()
