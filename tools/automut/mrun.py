# mrun.py id:PROPS ...   full quick checks on a mutant
import sys,os,subprocess,shutil,tempfile,pickle
allm,F=pickle.load(open('/tmp/x/mut/muts.pkl','rb'))
env=dict(os.environ,OMP_NUM_THREADS='1',PYTHONDONTWRITEBYTECODE='1')
for a in sys.argv[1:]:
    i,props=a.split(':'); i=int(i)
    path,l0,l1,op,old,new,src=allm[i]
    t=tempfile.mkdtemp(prefix='mr_'); r=t+'/repo'
    subprocess.run(['cp','-a','/repo',r],check=True)
    open(r+'/'+path,'wb').write(src)
    v=t+'/v'; os.makedirs(v); shutil.copytree('/verif/mc',v+'/mc')
    for x in('run.py','known_findings.txt'): shutil.copy('/verif/'+x,v)
    out=[]
    for p in props.split(','):
        z=subprocess.run(['/opt/venv/bin/python','run.py',p],cwd=v,env=dict(env,VERIF_REPO=r),capture_output=True,text=True)
        out.append('%s:%d'%(p,z.returncode))
        if z.returncode: out.append(str(z.stdout.strip().splitlines()[-4:-2])[:200]); break
    print(i,path.split('/')[-1],l0,op,old[:50],'->',new[:50],'|',' '.join(out),flush=True)
    shutil.rmtree(t)
