"""NodeTableEntity (dd/NodeTable.hpp) and DdStructure::evaluate (DdStructure.hpp)."""
from ._table import *
ROOTS=['vf_'+f+a for f in('term','zdesc','evaluate') for a in '23']
kw=dict(harness='table.cpp',flags=FLAGS,noinline=NI,assume=['a table has at most 2^20 rows and rows have fewer than 2^43 columns (the limits of NodeId)'])
R1,C1=z3.BitVecs('r_any c_any',64)
def nodes(ex,A): return Table(ex,'N',8*A,{8*b:FInt(64) for b in range(A)})
def entity(ex,s,A,fam='t'):
    t=nodes(ex,A); t.place(s,fam,ex.L.tab); s.assume(z3.ULE(t.nrows(s),ROWLIM),z3.UGE(t.nrows(s),bv(1)))
    r=z3.BitVec('wr',64); s.assume(FA([r],z3.Implies(z3.ULT(r,t.nrows(s)),z3.ULT(t.size(s,r),COLLIM)),t.size(s,r)))
    return t
def wf(t,s,A,r,c):
    """children of node (r,c) are at lower existing rows"""
    return [z3.And(z3.ULT(row(t.data(s,8*b)[r][c]),r),z3.ULT(col(t.data(s,8*b)[r][c]),t.size(s,row(t.data(s,8*b)[r][c])))) for b in range(A)]
def wfall(t,s,A):
    r,c=z3.BitVecs('wfr wfc',64)
    return [z3.ForAll([r,c],z3.Implies(z3.And(z3.UGE(r,bv(1)),z3.ULT(r,t.nrows(s)),z3.ULT(c,t.size(s,r))),g),patterns=[t.data(s,8*b)[r][c]]) for b,g in enumerate(wf(t,s,A,r,c))]
def run(ex,f,args,st,post): finish(ex,ex.run_func(ex.mod.funcs['@vf_'+f],args,st),post)
def one(A):
    @contract('table.initTerminals%d'%A,['C19'],functions=['NodeTableEntity<%d>::initTerminals'%A],roots=['vf_term%d'%A],**kw)
    def _(ex):
        st=start(ex); ex.fams['t']=Fam('t',96,{},cell=True); ex.go=lambda e,s:entity(e,s,A)
        def post(s,r):
            t=ex.tables['N']; s0=ex.s0
            return [('two terminals',t.size(s,bv(0))==2)]+[('terminal %d branch %d'%(j,b),t.data(s,8*b)[bv(0)][bv(j)]==j) for j in(0,1) for b in range(A)]+[('other rows',z3.Implies(R1!=0,z3.And(t.size(s,R1)==t.size(s0,R1),*[t.data(s,8*b)[R1][C1]==t.data(s0,8*b)[R1][C1] for b in range(A)])))]
        run(ex,'term%d'%A,[Ptr('t')],st,post)
    ZD=z3.Function('ZDESC',B64,B64,B64)
    @contract('table.getZeroDescendant%d'%A,['C08','C09'],functions=['NodeTableEntity<%d>::getZeroDescendant'%A],roots=['vf_zdesc%d'%A],**kw)
    def _(ex):
        """ZDESC(f,l): the first identifier at a level <= l on the 0-path from f"""
        st=start(ex); ex.fams['t']=Fam('t',96,{},cell=True); f=z3.BitVec('f',64); l=z3.BitVec('l',32)
        def go(e,s):
            t=entity(e,s,A); s.assume(*wfall(t,s,A)); s.assume(z3.ULT(row(f),t.nrows(s)),z3.ULT(col(f),t.size(s,row(f))),l>=0)
            x=z3.BitVec('zx',64); D=t.data(s,0)
            s.assume(FA([x],ZD(x,s64(l))==z3.If(row(x)<=s64(l),x,ZD(D[row(x)][col(x)],s64(l))),ZD(x,s64(l))))
            s.assume(ZD(f,s64(l))==ZD(f,s64(l)))
            # the attribute is set only if the 0-path leads to the 1-terminal
            s.assume(z3.Implies(att(f),code(ZD(f,bv(0)))==1))
        ex.go=go
        def cands(le):
            t=ex.tables['N']; out=[]
            for n,x in le.ints(64): out+=[(n+' same 0-descendant',ZD(x,s64(l))==ZD(f,s64(l))),(n+' in the table',z3.And(z3.ULT(row(x),t.nrows(le.st)),z3.ULT(col(x),t.size(le.st,row(x)))))]
            return out
        ex.cands=cands
        run(ex,'zdesc%d'%A,[Ptr('t'),f,l],st,lambda s,r:[('0-descendant',code(r)==code(ZD(f,s64(l)))),('level',z3.ULE(row(r),s64(l)))])
def dd_object(ex,s,A):
    """a DdStructure in cell 'D' whose diagram is the object in cell 'O'"""
    L=ex.L; ex.fams['O']=Fam('O',256,{},cell=True)
    t=nodes(ex,A); t.place(s,'O',L.ent+L.tab); s.assume(z3.ULE(t.nrows(s),ROWLIM),z3.UGE(t.nrows(s),bv(1)))
    r=z3.BitVec('wr',64); s.assume(FA([r],z3.Implies(z3.ULT(r,t.nrows(s)),z3.ULT(t.size(s,r),COLLIM)),t.size(s,r)))
    s.cells[('D',L.dptr)]=Ptr('O'); root=z3.Concat(z3.BitVec('root.row',20),z3.BitVec('root.col',44)); s.cells[('D',L.root)]=root
    s.assume(z3.ULT(row(root),t.nrows(s)),z3.ULT(col(root),t.size(s,row(root)))); return t,root
LR=z3.Function('LASTREF',B64,B64)
def levels_table(ex,s,t,A):
    """lowerLevels(i) as proved for makeIndex: rows in 1..i-1 that no node above level i refers to"""
    lv=Table(ex,'LV',4,{0:FInt(32)}); lv.place(s,'O',1000,t.nrows(s)); r,c=z3.BitVecs('lr lc',64); x=s64(lv.data(s)[r][c])
    s.assume(FA([r,c],z3.Implies(z3.And(z3.ULT(r,t.nrows(s)),z3.ULT(c,lv.size(s,r))),z3.And(x>=1,x<r,z3.ULE(LR(x),r))),lv.data(s)[r][c]),FA([r],z3.ULT(lv.size(s,r),COLLIM),lv.size(s,r)),FA([r],z3.Implies(z3.ULT(r,t.nrows(s)),z3.UGT(LR(r),r)),LR(r)))
    for b in range(A):
        d=t.data(s,8*b)[r][c]
        s.assume(FA([r,c],z3.Implies(z3.And(z3.UGE(r,bv(1)),z3.ULT(r,t.nrows(s)),z3.ULT(c,t.size(s,r)),row(d)!=0),z3.UGE(LR(row(d)),r)),t.data(s,8*b)[r][c]))
    return lv
def ev(A):
    VAL=z3.Function('VAL',B64,B64,B64); EVT=z3.Function('EVT',B64,B64); EVN=z3.Function('EVN%d'%A,*([B64]*(1+2*A)+[B64])); GV=z3.Function('GETVALUE',B64,B64)
    @contract('table.evaluate%d'%A,['C08'],functions=['DdStructure<%d>::evaluate'%A],roots=['vf_evaluate%d'%A],budget=200,**dict(kw,assume=kw['assume']+['the evaluator is a pure function of (level, child levels, child values) and prints no messages','lowerLevels satisfies its contract (rows no longer referred to)','sequential execution (useMP off)']))
    def _(ex):
        st=start(ex); ex.fams['D']=Fam('D',64,{},cell=True); ex.fams['E']=Fam('E',8,{},cell=True)
        def go(e,s):
            t,root=dd_object(e,s,A); s.assume(*wfall(t,s,A)); e.root=root; s.assume(z3.UGE(t.size(s,bv(0)),bv(2)))
            levels_table(e,s,t,A); r,c,j=z3.BitVecs('vr vc vj',64); D=[t.data(s,8*b)[r][c] for b in range(A)]
            val=lambda x:VAL(row(x),col(x))
            s.assume(FA([r,c],z3.Implies(z3.And(z3.UGE(r,bv(1)),z3.ULT(r,t.nrows(s)),z3.ULT(c,t.size(s,r))),VAL(r,c)==EVN(r,*[y for d in D for y in(row(d),val(d))])),D[0]))
            s.assume(FA([j],VAL(bv(0),j)==EVT(s64(z3.Extract(31,0,j))),VAL(bv(0),j)))
        ex.go=go
        def mkwork(e,s,a,i):
            w=Table(e,'W',8,{0:FInt(64)}); n=z3.simplify(e.toint(a[1])); w.place(s,a[0].fam,a[0].off,n)
            r=z3.BitVec('wz',64); S=w.sizes(s); s.assume(FA([r],z3.Implies(z3.ULT(r,n),S[r]==0),S[r]))
        def lower(e,s,a,i):
            lv=e.tables['LV']; r=s64(a[1]); inrow(e,s,lv,r,'lowerLevels'); return Ptr('LVR',el=r)
        def node(e,s,a,i):
            w=e.tables['W']; vs=a[3]; args=[s64(a[2])]
            for b in range(A):
                p=s.cells[(vs.fam,vs.off+L().vv+8*b)]; l=s.cells[(vs.fam,vs.off+L().vl+4*b)]
                if p.fam!='WD': raise Unsupported('value reference')
                e.bounds(s,p,e.fams['WD'],'evalNode: value of child %d'%b); args+=[s64(l),w.data(s)[p.ix[0]][p.el]]
            put(e,s,a[1],EVN(*args),'evalNode')
        def put(e,s,p,v,what):
            if p.fam!='WD': raise Unsupported('value destination')
            e.bounds(s,p,e.fams['WD'],what); A_=e.tables['W'].data(s); e.setarr(s,'WD',0,z3.Store(A_,p.ix[0],z3.Store(A_[p.ix[0]],p.el,v)))
        L=lambda:ex.L
        def getval(e,s,a,i):
            p=a[1]
            if p.fam!='WD': raise Unsupported('root value')
            e.bounds(s,p,e.fams['WD'],'getValue'); return GV(e.tables['W'].data(s)[p.ix[0]][p.el])
        ex.handlers[:0]=[(r'^Ev::showMessages',lambda *a:z3.BoolVal(False)),(r'^Ev::(initialize|destructLevel)',nop),(r'MessageHandler',nop),(r'MyVector<tdzdd::MyVector<Val.*>::MyVector\(',mkwork),(r'MyVector<tdzdd::MyVector<Val.*>::~MyVector',nop),
            (r'::lowerLevels\(',lower),(r'^Ev::evalTerminal',lambda e,s,a,i:put(e,s,a[1],EVT(s64(a[2])),'evalTerminal')),(r'^Ev::evalNode',node),(r'^Ev::getValue',getval)]
        def cands(le):
            e=le.ex; s=le.st; out=[]; r,c=z3.BitVecs('qr qc',64); w=e.tables.get('W'); t=e.tables['N']
            if w is None: return out
            S=w.sizes(s); D=w.data(s); NS=t.sizes(e.s0); rows=t.nrows(e.s0)
            good=lambda r,c:D[r][c]==VAL(r,c)
            def upto(nm,cond):
                out.append((nm+': sizes',FA([r],z3.Implies(cond(r),S[r]==NS[r]),S[r])))
                out.append((nm+': values',FA([r,c],z3.Implies(z3.And(cond(r),z3.ULT(c,NS[r])),good(r,c)),D[r][c])))
            upto('terminals',lambda r:r==0)
            xs=[(m,y) for m,y in le.entry_env() if z3.is_bv(y) and y.size()==32 and z3.is_const(y) and not z3.is_bv_value(y)]+le.ints(32)
            seen=set()
            for m,y in xs:
                if y.get_id() in seen: continue
                seen.add(y.get_id()); x=s64(y)
                out+=[(m+' in range',z3.And(x>=1,x<=rows)),(m+' up to the root',x<=row(e.root)+1)]
                upto('rows below '+m,lambda r:z3.And(z3.UGE(r,bv(1)),z3.ULT(r,x),z3.UGE(LR(r),x)))
                upto('rows up to '+m,lambda r:z3.And(z3.UGE(r,bv(1)),z3.ULE(r,x),z3.Or(r==x,z3.UGT(LR(r),x))))
                out.append(('row of %s: size'%m,S[x]==NS[x]))
                for k,j in le.ints(64):
                    out.append(('%s in row %s'%(k,m),z3.ULE(j,NS[x])))
                    out.append(('columns of row %s below %s: values'%(m,k),FA([c],z3.Implies(z3.ULT(c,j),good(x,c)),D[x][c])))
            for k,j in le.ints(64):
                out.append(('%s in row 0'%k,z3.ULE(j,NS[bv(0)])))
                out.append(('columns of row 0 below %s: values'%k,FA([c],z3.Implies(z3.ULT(c,j),good(bv(0),c)),D[bv(0)][c])))
            out.append(('row 0: size',S[bv(0)]==NS[bv(0)]))
            for k,p in le.ptrs('LVD'): out.append((k+' in list',z3.ULE(p.el,e.tables['LV'].size(e.s0,p.ix[0]))))
            return out
        ex.cands=cands
        run(ex,'evaluate%d'%A,[Ptr('D'),Ptr('E')],st,lambda s,r:[('value of the root',r==GV(VAL(row(ex.root),col(ex.root))))])
    
for A in(2,3): one(A); ev(A)
