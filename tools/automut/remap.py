import pickle, json, glob
old,_=pickle.load(open('muts_old.pkl','rb')); new,F=pickle.load(open('muts.pkl','rb'))
print(len(old),len(new))
import collections
def key(m,src):
    lines=m[6].decode().split('\n')
    return (m[0],m[3],m[4],m[5],m[1] if 'pulsar.py' not in m[0] else None,lines[m[1]-1],lines[max(0,m[1]-2)])
idx=collections.defaultdict(list)
for i,m in enumerate(new): idx[key(m,0)].append(i)
oldc=collections.Counter(); mp={}
for i,m in enumerate(old):
    k=key(m,0); n=oldc[k]; oldc[k]+=1
    if n<len(idx[k]): mp[i]=idx[k][n]
print('mapped',len(mp))
res={}
for f in glob.glob('res_?.txt'):
    for l in open(f):
        r=json.loads(l); 
        if r[0] in mp: res[mp[r[0]]]=r[6]
killed={i for i,v in res.items() if v.split(':')[0] not in('survived','timeout','died','uncovered')}
print('killed',len(killed),'import',sum('import:' in res[i] for i in killed))
todo=[i for i in range(len(new)) if i not in killed]
pickle.dump((res,todo),open('remap.pkl','wb'))
first=[i for i in todo if i in res]; rest=[i for i in todo if i not in res]
open('todo_surv.txt','w').write(' '.join(map(str,first))); open('todo_new.txt','w').write(' '.join(map(str,rest)))
print(len(first),len(rest))
