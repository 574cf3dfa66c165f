import ast, sys, pickle, glob, copy
FILES=['enterprise/pulsar.py','enterprise/pulsar_inflate.py','enterprise/constants.py']+['enterprise/signals/%s.py'%f for f in 'anis_coefficients deterministic_signals gp_bases gp_priors gp_signals parameter selections signal_base utils white_signals'.split()]
CMP={ast.Lt:[ast.LtE,ast.Gt],ast.LtE:[ast.Lt,ast.Gt],ast.Gt:[ast.GtE,ast.Lt],ast.GtE:[ast.Gt,ast.Lt],ast.Eq:[ast.NotEq],ast.NotEq:[ast.Eq],ast.In:[ast.NotIn],ast.NotIn:[ast.In],ast.Is:[ast.IsNot],ast.IsNot:[ast.Is]}
BIN={ast.Add:[ast.Sub],ast.Sub:[ast.Add],ast.Mult:[ast.Div],ast.Div:[ast.Mult],ast.Pow:[ast.Mult],ast.BitOr:[ast.BitAnd],ast.BitAnd:[ast.BitOr],ast.FloorDiv:[ast.Div]}
ATTR={'sin':'cos','cos':'sin','min':'max','max':'min','argmin':'argmax','zeros':'ones','ones':'zeros','all':'any','any':'all','hstack':'vstack','zeros_like':'ones_like','ones_like':'zeros_like','toas':'stoas','stoas':'toas','log':'log10','log10':'log','sorted':'list','isort':'iisort','iisort':'isort','residuals':'toaerrs','floor':'ceil','extend':'append','update':'setdefault'}
def muts(path):
    src=open('/repo/'+path).read(); lines=src.split('\n'); tree=ast.parse(src)
    off=[0]
    for l in src.encode().split(b'\n'): off.append(off[-1]+len(l)+1)
    b=src.encode()
    out=[]
    doc=set()
    for n in ast.walk(tree):
        if isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant) and isinstance(n.value.value,str): doc.add(n.value)
    fstr=set()
    for n in ast.walk(tree):
        if isinstance(n,ast.JoinedStr):
            for m in ast.walk(n): fstr.add(m)
    inraise=set()
    for n in ast.walk(tree):
        if isinstance(n,ast.Raise) or (isinstance(n,ast.Call) and ast.unparse(n.func).startswith(('logger','warnings','print'))):
            for m in ast.walk(n): inraise.add(m)
    def rep(n,new,op):
        s,e=off[n.lineno-1]+n.col_offset, off[n.end_lineno-1]+n.end_col_offset
        if isinstance(new,ast.AST): new=ast.unparse(new)
        if isinstance(n,ast.expr) and '(' != new[:1]: new='('+new+')'
        m=b[:s]+new.encode()+b[e:]
        out.append((path,n.lineno,n.end_lineno,op,b[s:e].decode()[:100],new[:100],m))
    for n in ast.walk(tree):
        if n in fstr or n in inraise or n in doc: continue
        if isinstance(n,ast.Compare):
            for i,o in enumerate(n.ops):
                for r in CMP.get(type(o),[]):
                    c=copy.deepcopy(n); c.ops[i]=r(); rep(n,c,'cmp')
        elif isinstance(n,ast.BinOp):
            for r in BIN.get(type(n.op),[]):
                c=copy.deepcopy(n); c.op=r(); rep(n,c,'bin')
        elif isinstance(n,ast.BoolOp):
            c=copy.deepcopy(n); c.op=ast.Or() if isinstance(n.op,ast.And) else ast.And(); rep(n,c,'bool')
            for i in range(len(n.values)):
                c=copy.deepcopy(n); del c.values[i]
                rep(n,c.values[0] if len(c.values)==1 else c,'boolterm')
        elif isinstance(n,ast.UnaryOp) and isinstance(n.op,(ast.Not,ast.USub,ast.Invert)):
            rep(n,n.operand,'unary')
        elif isinstance(n,ast.Constant):
            v=n.value
            if v is True or v is False: rep(n,str(not v),'const')
            elif isinstance(v,int): rep(n,str(v+1),'const'); (v>1) and rep(n,str(v-1),'const')
            elif isinstance(v,float): rep(n,repr(v*1.01+ (0.01 if v==0 else 0)),'const')
        elif isinstance(n,ast.IfExp):
            rep(n,n.body,'ifexp'); rep(n,n.orelse,'ifexp')
        elif isinstance(n,ast.If):
            rep(n.test,'True','iftrue'); rep(n.test,'False','iffalse')
        elif isinstance(n,ast.Call):
            for i in range(len(n.keywords)):
                c=copy.deepcopy(n); del c.keywords[i]; rep(n,c,'kwdel')
            if len(n.args)==1 and not n.keywords and isinstance(n.func,ast.Attribute) and not isinstance(n.args[0],ast.Starred): rep(n,n.args[0],'unwrap')
            elif len(n.args)==1 and not n.keywords and isinstance(n.func,ast.Name) and n.func.id in('sorted','list','set','len','abs','tuple','dict'): rep(n,n.args[0],'unwrap')
            if not n.args and not n.keywords and isinstance(n.func,ast.Attribute): rep(n,n.func.value,'uncall')
            if len(n.args)>=2 and not any(isinstance(a,ast.Starred) for a in n.args):
                c=copy.deepcopy(n); c.args[0],c.args[1]=c.args[1],c.args[0]; rep(n,c,'swapargs')
            if len(n.args)>=2:
                c=copy.deepcopy(n); del c.args[-1]; rep(n,c,'argdel')
            if isinstance(n.func,ast.Name) and n.func.id in('min','max'):
                c=copy.deepcopy(n); c.func.id={'min':'max','max':'min'}[n.func.id]; rep(n,c,'func')
        elif isinstance(n,ast.Attribute) and isinstance(n.ctx,ast.Load) and n.attr in ATTR:
            c=copy.deepcopy(n); c.attr=ATTR[n.attr]; rep(n,c,'attr')
        elif isinstance(n,ast.Subscript) and isinstance(n.ctx,ast.Load) and isinstance(n.slice,ast.Slice):
            rep(n,n.value,'unslice')
        elif isinstance(n,ast.AugAssign):
            c=copy.deepcopy(n); rep(n,ast.unparse(n.target)+' = '+ast.unparse(n.value),'augset'); rep(n,'pass','del')
            if isinstance(n.op,(ast.Add,ast.Mult)):
                c=copy.deepcopy(n); c.op=ast.Sub() if isinstance(n.op,ast.Add) else ast.Div(); rep(n,ast.unparse(c),'aug')
        elif isinstance(n,ast.Assign):
            if all(isinstance(t,(ast.Attribute,ast.Subscript)) for t in n.targets): rep(n,'pass','del')
        elif isinstance(n,ast.Expr) and isinstance(n.value,ast.Call): rep(n,'pass','del')
        elif isinstance(n,ast.Continue): rep(n,'pass','del')
        elif isinstance(n,ast.Break): rep(n,'pass','del')
        elif isinstance(n,ast.Raise): rep(n,'pass','del')
        elif isinstance(n,ast.For):
            rep(n.iter,'list(%s)[1:]'%ast.unparse(n.iter),'forskip'); rep(n.iter,'list(%s)[:-1]'%ast.unparse(n.iter),'forskip')
        elif isinstance(n,ast.comprehension):
            for i in n.ifs: rep(i,'True','compif')
            rep(n.iter,'list(%s)[1:]'%ast.unparse(n.iter),'compskip')
        elif isinstance(n,ast.Return) and n.value is not None and not isinstance(n.value,ast.Constant): pass
    # decorators removed
    for n in ast.walk(tree):
        if isinstance(n,ast.FunctionDef):
            for d in n.decorator_list:
                s=off[d.lineno-1]+d.col_offset-1; e=off[d.end_lineno-1]+d.end_col_offset
                out.append((path,n.body[0].lineno,n.end_lineno,'decorator',ast.unparse(d),'',b[:s]+b'pass  # '[0:0]+b[e:]))
    ok=[]; seen=set([b])
    for m in out:
        if m[-1] in seen: continue
        seen.add(m[-1])
        try: compile(m[-1],path,'exec')
        except SyntaxError: continue
        ok.append(m)
    # enclosing function lines for fallback
    funcs=[(n.lineno,n.end_lineno) for n in ast.walk(tree) if isinstance(n,(ast.FunctionDef,))]
    return ok,funcs
allm=[]; F={}
for f in FILES:
    m,fn=muts(f); F[f]=fn; allm+=m; print(f,len(m))
print(len(allm))
pickle.dump((allm,F),open('muts.pkl','wb'))
