import sys,json,glob
pre=sys.argv[1] if len(sys.argv)>1 else 'res'
seen=set()
if len(sys.argv)>2:
    seen={json.loads(l)[0] for l in open(sys.argv[2])}
R=[]
for f in glob.glob('/tmp/x/mut/'+pre+'_?.txt'):
    for l in open(f):
        r=json.loads(l)
        if r[6] in('survived','uncovered') and r[0] not in seen: R.append(r)
R.sort(key=lambda r:(r[1],r[2]))
for r in R: print(r[0],r[1].split('/')[-1],r[2],r[3],repr(r[4][:60]),'->',repr(r[5][:60]),'U' if r[6][0]=='u' else '')
