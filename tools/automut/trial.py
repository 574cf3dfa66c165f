"""trial.py listfile [names]: for each bug, copy the package, apply, run tests + the property's check."""
import sys,os,subprocess,shutil,tempfile,runpy
L=runpy.run_path(sys.argv[1])['L']; only=sys.argv[2:]
env=dict(os.environ,OMP_NUM_THREADS='1',PYTHONDONTWRITEBYTECODE='1')
for name,prop,f,old,new in L:
    if only and name not in only: continue
    t=tempfile.mkdtemp(prefix='tr_'); r=t+'/repo'
    subprocess.run(['cp','-a','/repo',r],check=True)
    s=open(r+'/enterprise/'+f).read()
    if s.count(old)!=1: print(name,'NOMATCH',s.count(old),flush=True); shutil.rmtree(t); continue
    open(r+'/enterprise/'+f,'w').write(s.replace(old,new))
    q=subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','-p','no:cacheprovider','tests'],cwd=r,env=env,capture_output=True,text=True).stdout.strip().splitlines()[-1]
    v=t+'/v'; os.makedirs(v); shutil.copytree('/verif/mc',v+'/mc')
    for x in('run.py','known_findings.txt'): shutil.copy('/verif/'+x,v)
    out=[]
    for p in prop.split():
        z=subprocess.run(['/opt/venv/bin/python','run.py',p],cwd=v,env=dict(env,VERIF_REPO=r),capture_output=True,text=True)
        out.append('%s:%d'%(p,z.returncode))
    print(name,'tests[%s]'%q.split(',')[0],' '.join(out),z.stdout.strip().splitlines()[-4:-2] if z.returncode else 'MISSED',flush=True)
    shutil.rmtree(t)
