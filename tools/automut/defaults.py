# mutate each default in the repo one at a time and see whether C28 catches it
import sys,os,ast,subprocess,shutil,tempfile
sys.dont_write_bytecode=True
files="gp_bases gp_priors gp_signals white_signals deterministic_signals utils anis_coefficients parameter selections".split()
todo=[]
for f in files:
    src=open('/repo/enterprise/signals/%s.py'%f).read()
    t=ast.parse(src)
    for n in ast.walk(t):
        if isinstance(n,ast.FunctionDef):
            ds=list(zip(n.args.args[-len(n.args.defaults):] if n.args.defaults else [],n.args.defaults))
            for a,d in ds:
                seg=ast.get_source_segment(src,d)
                c=seg
                if seg=='True': c='False'
                elif seg=='False': c='True'
                elif seg=='None': c={'Tspan':'1e8','fmin':'2e-9','fmax':'3e-8','modes':'[1e-8]','idx':'3','flagval':'"b1"','pseed':'5','norm':'2.0','idx_exclude':'[0]','size':'2','nfreq':'1','offset':'[1.,2.,3.]','wgts':'np.ones(8)','log10_t2equad':'-6.0'}.get(a.arg)
                elif seg.startswith('"'): c='"zz"' if len(seg)<=2 or a.arg=='name' else {'"group"':'"band"','"setIII"':'"orbel"','"fast-sherman-morrison"':'"sparse"','"cliques"':'"partition"'}.get(seg)
                elif 'Uniform' in seg: c=seg.replace('10','11') if '10' in seg else seg.replace('0.01','0.02').replace('1.5','1.6')
                elif 'Selection' in seg: c=seg.replace('no_selection','by_backend')
                else:
                    try: float(eval(seg)); c='(%s)*1.1+0.3'%seg if float(eval(seg))!=int(eval(seg)) else '(%s)+1'%seg
                    except Exception: c=None
                if c is None or c==seg: print('skip',f,n.name,a.arg,seg); continue
                lines=src.splitlines(True)
                off=sum(len(l.encode()) for l in lines[:d.lineno-1])+d.col_offset
                b=src.encode(); end=sum(len(l.encode()) for l in lines[:d.end_lineno-1])+d.end_col_offset
                todo.append((f,n.name,a.arg,seg,c,(b[:off]+c.encode()+b[end:]).decode()))
F=set(open('/tmp/x/m28.f').read().split()); todo=[t for t in todo if t[1]+':'+t[2] in F]
print(len(todo),flush=True)
import multiprocessing as mp
def w(k):
    f,fn,a,seg,c,src=todo[k]
    t=tempfile.mkdtemp(prefix='m28_'); subprocess.run(['cp','-a','/repo/enterprise',t+'/'])
    open(t+'/enterprise/signals/%s.py'%f,'w').write(src)
    code='''
import os,sys
for v in ("OMP_NUM_THREADS","OPENBLAS_NUM_THREADS"): os.environ[v]="1"
sys.dont_write_bytecode=True
sys.path.insert(0,"/verif")
from mc import engine
engine.setup_process()
import importlib
m=importlib.import_module("mc.props.c28")
r="MISSED"
for c in m.cases("quick",1):
    s,v=engine.execute(m,c,1)
    if v: r="caught "+v["msg"][:110]; break
print(r)
'''
    z=subprocess.run(['/opt/venv/bin/python','-c',code],env=dict(os.environ,VERIF_REPO=t),capture_output=True,text=True)
    shutil.rmtree(t)
    return k,(z.stdout.strip().splitlines() or [z.stderr[-200:]])[-1]
with mp.Pool(8) as P:
    for k,r in P.imap_unordered(w,range(len(todo))):
        f,fn,a,seg,c,src=todo[k]
        if not r.startswith('caught'): print(f,fn,a,seg,'->',c,r,flush=True)
print('done')
