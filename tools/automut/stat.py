import sys,json,collections,glob
pre=sys.argv[1] if len(sys.argv)>1 else 'res'
c=collections.Counter()
for f in glob.glob(pre+'_?.txt'):
    for l in open(f):
        r=json.loads(l); c[r[6].split(':')[0]]+=1
print(sum(c.values()),c)
