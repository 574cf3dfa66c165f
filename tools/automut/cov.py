import os, sys, json, time, pickle, importlib, multiprocessing as mp
for v in ("OMP_NUM_THREADS","OPENBLAS_NUM_THREADS","MKL_NUM_THREADS"): os.environ[v]="1"
sys.path.insert(0,'/verif')
from mc import engine
engine.setup_process()
import enterprise.signals.gp_signals, enterprise.signals.deterministic_signals, enterprise.pulsar
M=sys.monitoring; T=3
hits=set()
def on_line(code,line):
    f=code.co_filename
    if f.startswith('/repo/enterprise'):
        hits.add((f[6:],line))
    return M.DISABLE
def init():
    M.use_tool_id(T,'cov'); M.register_callback(T,M.events.LINE,on_line); M.set_events(T,M.events.LINE)
def work(a):
    prop,i,desc=a
    mod=importlib.import_module('mc.props.'+prop.lower())
    hits.clear(); M.restart_events(); t=time.time()
    s,v=engine.execute(mod,desc,1)
    return prop,i,time.time()-t,v and v['msg'],frozenset(hits)
if __name__=='__main__':
    props=sys.argv[1:] or ['C%02d'%i for i in range(1,28)]
    out={}
    for p in props:
        mod=importlib.import_module('mc.props.'+p.lower())
        cs=json.loads(json.dumps(list(mod.cases('quick',1))))
        jobs=[(p,i,c) for i,c in enumerate(cs)]
        if len(jobs)>400: jobs=jobs[::len(jobs)//400]
        t=time.time(); rec=[]
        ctx=mp.get_context('fork')
        with ctx.Pool(8,initializer=init) as pool:
            try:
                for r in pool.imap_unordered(work,jobs):
                    rec.append(r[1:])
                    if r[3] and 'known' not in r[3]: print(p,r[1],r[3][:100])
            except Exception as e: print(p,'ERR',e)
        out[p]=(cs,rec)
        print(p,len(cs),len(rec),round(time.time()-t,1),len(set().union(*[r[3] for r in rec])) if rec else 0,flush=True)
        pickle.dump(out[p],open('cov_%s.pkl'%p,'wb'))
