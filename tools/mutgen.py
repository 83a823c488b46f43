import ast, random
SW={ast.Lt:"<=",ast.LtE:"<",ast.Gt:">=",ast.GtE:">",ast.Eq:"!=",ast.NotEq:"=="}
AR={ast.Add:("+","-"),ast.Sub:("-","+"),ast.Mult:("*","/"),ast.Div:("/","*"),ast.FloorDiv:("//","/"),ast.Pow:("**","*")}
CALL={"floor":"ceil","ceil":"floor","min":"max","max":"min","argmin":"argmax","argmax":"argmin","sum":"mean","mean":"sum","cos":"sin","sin":"cos","minimum":"maximum","maximum":"minimum","zeros":"ones","any":"all","all":"any","round":"floor","nint":"int","conj":"abs","real":"imag","append":"insert","sort":"asarray","argsort":"argmax","isfinite":"isnan","cumsum":"asarray"}
def mutants(src):
    L=src.split("\n"); t=ast.parse(src); off=[0]
    b=src.encode()
    starts=[0]
    for i,ch in enumerate(b):
        if ch==10: starts.append(i+1)
    def pos(l,c): return starts[l-1]+c
    def seg(n): return pos(n.lineno,n.col_offset),pos(n.end_lineno,n.end_col_offset)
    out=[]
    def add(fn,n,s,e,new,kind):
        old=b[s:e].decode()
        if old!=new: out.append((fn,n.lineno,s,e,new,kind,old))
    def between(l,r,tok):
        s=seg(l)[1]; e=seg(r)[0]; x=b[s:e].decode(); i=x.find(tok)
        return (s+i,s+i+len(tok)) if i>=0 else None
    def visit(node,fn,doc=False):
        for c in ast.iter_child_nodes(node):
            f=fn
            if isinstance(c,(ast.FunctionDef,ast.ClassDef)):
                f=(fn+"." if fn else "")+c.name
            if isinstance(c,ast.Expr) and isinstance(c.value,ast.Constant): continue
            if fn:
                if isinstance(c,ast.Compare) and len(c.ops)==1 and type(c.ops[0]) in SW:
                    tok={ast.Lt:"<",ast.LtE:"<=",ast.Gt:">",ast.GtE:">=",ast.Eq:"==",ast.NotEq:"!="}[type(c.ops[0])]
                    p=between(c.left,c.comparators[0],tok)
                    if p: add(fn,c,p[0],p[1],SW[type(c.ops[0])],"cmp")
                if isinstance(c,ast.BinOp) and type(c.op) in AR and not (isinstance(c.left,ast.Constant) and isinstance(c.left.value,str)):
                    o,nw=AR[type(c.op)]; p=between(c.left,c.right,o)
                    if p: add(fn,c,p[0],p[1],nw,"arith")
                if isinstance(c,ast.Constant):
                    s,e=seg(c); v=c.value
                    if v is True: add(fn,c,s,e,"False","const")
                    elif v is False: add(fn,c,s,e,"True","const")
                    elif isinstance(v,int): add(fn,c,s,e,str(v+1),"const")
                    elif isinstance(v,float): add(fn,c,s,e,repr(v*1.1),"const")
                if isinstance(c,ast.BoolOp):
                    o="and" if isinstance(c.op,ast.And) else "or"; p=between(c.values[0],c.values[1],o)
                    if p: add(fn,c,p[0],p[1],"or" if o=="and" else "and","bool")
                if isinstance(c,ast.UnaryOp):
                    s,e=seg(c); s2,_=seg(c.operand)
                    if isinstance(c.op,ast.Not): add(fn,c,s,s2,"","not")
                    if isinstance(c.op,ast.USub): add(fn,c,s,s2,"","neg")
                    if isinstance(c.op,ast.Invert): add(fn,c,s,s2,"","inv")
                if isinstance(c,(ast.AugAssign,)) or (isinstance(c,ast.Expr) and isinstance(c.value,ast.Call)):
                    s,e=seg(c); add(fn,c,s,e,"pass","del")
                if isinstance(c,ast.Assign) and isinstance(c.targets[0],ast.Subscript):
                    s,e=seg(c); add(fn,c,s,e,"pass","del")
                if isinstance(c,ast.If):
                    s,e=seg(c.test); add(fn,c,s,e,"False","if"); add(fn,c,s,e,"True","if")
                if isinstance(c,ast.Call) and isinstance(c.func,ast.Attribute):
                    s,e=seg(c.func); nm=c.func.attr; s=e-len(nm)
                    if nm in CALL: add(fn,c,s,e,CALL[nm],"call")
                    if nm=="copy" and not c.args:
                        _,e0=seg(c.func.value); _,e1=seg(c); add(fn,c,e0,e1,"","copy")
                    if nm in("abs","array"):
                        s0,e0=seg(c.func); 
                        if nm=="array": add(fn,c,s,e,"asarray","copy")
                        elif len(c.args)==1: add(fn,c,s0,e0,"","abs")
                if isinstance(c,ast.keyword) and c.arg and isinstance(c.value,ast.Constant) and c.value.value is None: pass
            visit(c,f)
    visit(t,"")
    res=[]
    for fn,line,s,e,new,kind,old in out:
        m=(b[:s]+new.encode()+b[e:]).decode()
        res.append(dict(fn=fn,line=line,kind=kind,old=old,new=new,src=m,text=L[line-1].strip()))
    return res
