"""DdStructure::operator== (DdStructure.hpp).

 U(r,c), UO(r,c): the structure the node (r,c) of this / the other diagram unfolds to: TERM(c) for terminals, otherwise determined by the
 level and the structures of the children (TUP). Postcondition: the result is U(root)==UO(other root).
 BKI(id): the structure of this diagram's node with that identifier; ISO(id): it is one.
 CF(u): first column of this diagram at the level of u that unfolds to u; the row size if there is none (OWN(u) false).
 The hash map is replaced by its contract (hash.py): a finite map from node keys (the branch codes) to values.
 The recursive call with the operands exchanged is replaced by this contract."""
from .table import *
NIE=NI+[r'MyHash(Table|Map)<.*>::(MyHashTable|~MyHashTable|MyHashMap|~MyHashMap|add|initialize|getValue|operator\[\])\(',r'DataTable<.*>::totalSize\(']
U=z3.Function('U',B64,B64,B64); UO_=z3.Function('UO',B64,B64,B64); LEV=z3.Function('LEV',B64,B64); CF=z3.Function('CF',B64,B64); OWN=z3.Function('OWN',B64,z3.BoolSort()); BKI=z3.Function('BKI',B64,B64); ISO=z3.Function('ISO',B64,z3.BoolSort()); KEYU=z3.Function('KEYU',B64,B64)
mkid=lambda r,c:(r<<44)|c
f2=lambda n:z3.Function(n,B64,B64,B64)
FN={'U':(f2('CFU'),f2('KU')),'UO':(f2('CFO'),f2('KO'))}     # CF and KEYU of the structure of a node
cfn=lambda F,r,c:FN[F.name()][0](r,c)
kn=lambda F,r,c:FN[F.name()][1](r,c)
def one(A,shared,ne=False,same=None):
    UO=U if shared else UO_
    TUP=z3.Function('UT%d'%A,*([B64]*(A+2))); TK=z3.Function('TK%d'%A,*([B64]*(A+1))); PK=[z3.Function('PK%d'%b,B64,B64) for b in range(A)]
    root='vf_%s%d'%('ne' if ne else 'eq',A)
    @contract('equal.%s%d%s'%('ne' if ne else 'eq',A,'.shared' if shared else '' if same is None else '.sameroot' if same else '.otherroot'),['C10'],functions=['DdStructure<%d>::operator%s'%(A,'!=' if ne else '==')],harness='_equal.cpp',flags=FLAGS,noinline=NIE,roots=[root],budget=420,
       assume=['a table has at most 2^20 rows and rows have fewer than 2^43 columns (the limits of NodeId)','row 0 holds the two terminals; children are at lower existing rows','MyHashMap satisfies the contract of MyHashTable (hash.py)'])
    def _(ex):
        st=start(ex); ex.fams['D']=Fam('D',64,{},cell=True); ex.fams['D2']=Fam('D2',64,{},cell=True); ex.timeout=16000; ex.no_generic=True
        G={}
        def go(e,s):
            L=e.L; t,rt=dd_object(e,s,A); G['t']=t; G['rt']=rt
            if shared: o=t; s.cells[('D2',L.dptr)]=Ptr('O')
            else:
                e.fams['O2']=Fam('O2',256,{},cell=True); o=Table(e,'NO',8*A,{8*b:FInt(64) for b in range(A)}); o.place(s,'O2',L.ent+L.tab); s.cells[('D2',L.dptr)]=Ptr('O2')
                r=z3.BitVec('wr',64); s.assume(z3.ULE(o.nrows(s),ROWLIM),z3.UGE(o.nrows(s),bv(1)),FA([r],z3.Implies(z3.ULT(r,o.nrows(s)),z3.ULT(o.size(s,r),COLLIM)),o.size(s,r)))
            ro=z3.Concat(z3.BitVec('oroot.row',20),z3.BitVec('oroot.col',44)); s.cells[('D2',L.root)]=ro; G['o']=o; G['ro']=ro
            s.assume(z3.ULT(row(ro),o.nrows(s)),z3.ULT(col(ro),o.size(s,row(ro))))
            r,c=z3.BitVecs('ur uc',64); NS=t.sizes(s); pk=[]
            for T,F in ((t,U),(o,UO)) if not shared else ((t,U),):
                s.assume(*wfall(T,s,A)); s.assume(T.size(s,bv(0))==2); D=[T.data(s,8*b)[r][c] for b in range(A)]; ch=[F(row(d),col(d)) for d in D]
                ok=z3.And(z3.UGE(r,bv(1)),z3.ULT(r,T.nrows(s)),z3.ULT(c,T.size(s,r))); ok0=z3.And(z3.ULT(r,T.nrows(s)),z3.ULT(c,T.size(s,r)))
                K=kn(F,r,c); C=cfn(F,r,c)
                s.assume(FA([r,c],z3.Implies(ok,z3.And(K==KEYU(F(r,c)),F(r,c)==TUP(r,*ch),K==TK(*[mkid(row(d),cfn(F,row(d),col(d))) for d in D]))),K,D[0]))
                pk.append(FA([r,c],z3.Implies(ok,z3.And([PK[b](K)==mkid(row(D[b]),cfn(F,row(D[b]),col(D[b]))) for b in range(A)])),K,D[0]))
                s.assume(FA([r,c],z3.Implies(ok0,z3.And(C==CF(F(r,c)),ISO(mkid(r,C))==OWN(F(r,c)),code(mkid(r,C))==mkid(r,C),z3.If(OWN(F(r,c)),z3.And(BKI(mkid(r,C))==F(r,c),U(r,C)==F(r,c),kn(U,r,C)==KEYU(F(r,c)),z3.ULT(C,NS[r])),C==NS[r]))),C))
                for j in(0,1): s.assume(F(bv(0),bv(j))==bv(j),cfn(F,bv(0),bv(j))==j,OWN(F(bv(0),bv(j))))
            s.assume(FA([r,c],z3.Implies(z3.And(z3.ULT(r,t.nrows(s)),z3.ULT(c,NS[r])),z3.And(OWN(U(r,c)),z3.ULE(cfn(U,r,c),c))),cfn(U,r,c)))
            s.assume(LEV(U(row(rt),col(rt)))==row(rt),LEV(UO(row(ro),col(ro)))==row(ro))
            c2=z3.BitVec('uc2',64)
            for T,F in ((t,U),(o,UO)) if not shared else ((t,U),):
                lem=lambda r,c,c2:z3.Implies(z3.And(z3.UGE(r,bv(1)),z3.ULT(r,t.nrows(s)),z3.ULT(r,T.nrows(s)),z3.ULT(c,NS[r]),z3.ULT(c2,T.size(s,r)),kn(F,r,c2)==kn(U,r,c)),F(r,c2)==U(r,c))
                ls=s.copy(); ls.assume(*pk); e.oblige('lemma: nodes with the same key have the same structure (%s)'%F.name(),ls,lem(*z3.BitVecs('lr lc lc2',64)),'lemma'); s.assume(FA([r,c,c2],lem(r,c,c2),(kn(F,r,c2),kn(U,r,c))))
            s.ghost['MEM']=z3.K(B64,z3.BoolVal(False)); e.fams['UV']=Fam('UV',8,{0:FInt(64)})
            if same is not None: s.assume((code(rt)==code(ro))==same)      # cases, verified in parallel
            G['eq']=U(row(rt),col(rt))==UO(row(ro),col(ro))
        ex.go=go
        def mktab(e,s,a,i):
            nm=G.setdefault(('tab',id(i)),'EQ' if any(k[0]=='tab' for k in G if type(k) is tuple) else 'CA'); w=Table(e,nm,8,{0:FInt(64)}); n=z3.simplify(e.toint(a[1])); w.place(s,a[0].fam,a[0].off,n)
            r=z3.BitVec('wz',64); S=w.sizes(s); s.assume(FA([r],z3.Implies(z3.ULT(r,n),S[r]==0),S[r]))
        def init(e,s,a,i): s.ghost['MEM']=z3.K(B64,z3.BoolVal(False)); e.wrote(('ghost','MEM'))
        def key(e,s,p):
            cs=[code(e.toint(e.load(s,Ptr(p.fam,ix=p.ix,el=p.el,off=p.off+8*b),ir.Ty('int',64)))) for b in range(A)]; return TK(*cs)
        def getv(e,s,a,i):
            k=key(e,s,a[1]); M=s.ghost['MEM']; s1=s.copy(); s1.assume(M[k]); s.assume(z3.Not(M[k])); return [(s1,Ptr('UV',el=k)),(s,NULL)]
        def index(e,s,a,i):
            k=key(e,s,a[1]); M=s.ghost['MEM']; A_=e.arr(s,'UV'); v=fresh('newval',B64); e.setarr(s,'UV',0,z3.Store(A_,k,z3.If(M[k],A_[k],v)))
            s.ghost['MEM']=z3.Store(M,k,z3.BoolVal(True)); e.wrote(('ghost','MEM')); return Ptr('UV',el=k)
        def rec(e,s,a,i):
            if a[0].fam=='D' and a[1].fam=='D2' and ne: return G['eq']
            if a[0].fam=='D' and a[1].fam=='D2' and not G.get('called'):      # the call under verification
                G['called']=True; return [(x[1],x[2]) for x in e.run_func(e.mod.funcs[i.a['callee'][1]],a,s) if x[0]=='ret']
            if a[0].fam!='D2' or a[1].fam!='D': raise Unsupported('operator== on other operands')
            return G['eq']
        ex.handlers[:0]=[(r'MyVector<tdzdd::MyVector<tdzdd::NodeId.*>::MyVector\(',mktab),(r'MyVector<tdzdd::MyVector<tdzdd::NodeId.*>::~MyVector',nop),(r'MyHash(Table|Map)<.*>::initialize\(',init),
            (r'MyHash(Table|Map)<.*>::(MyHashTable|~MyHashTable|MyHashMap|~MyHashMap)\(',nop),(r'MyHashMap<.*>::getValue\(',getv),(r'MyHashMap<.*>::operator\[\]\(',index),(r'DataTable<.*>::totalSize\(',lambda e,s,a,i:fresh('totalSize',B64)),(r'DdStructure<%d>::operator==\('%A,rec)]
        def cands(le):
            e=le.ex; s=le.st; out=[]; r,c,k=z3.BitVecs('qr qc qk',64); t,o=G['t'],G['o']
            ca,eq=e.tables.get('CA'),e.tables.get('EQ')
            if ca is None or eq is None: return out
            W=[('own',ca,t,U),('other',eq,o,UO)]; M=s.ghost['MEM']; V=e.arr(s,'UV'); NS0=t.sizes(e.s0)
            xs=[(m,y) for m,y in le.entry_env() if z3.is_bv(y) and y.size()==32 and z3.is_const(y) and not z3.is_bv_value(y)]+le.ints(32); seen=set()
            for w,T,src,F in W:
                S=T.sizes(s); D=T.data(s); NS=src.sizes(e.s0); good=lambda r,c:D[r][c]==mkid(r,cfn(F,r,c))
                out.append((w+' row 0: size',S[bv(0)]==2))
                for j in(0,1): out.append((w+' row 0: terminal %d'%j,D[bv(0)][bv(j)]==j))
                for n,j in le.counters(64) if not xs else []:
                    out.append(('%s row 0 below %s'%(w,n),FA([c],z3.Implies(z3.ULT(c,j),D[bv(0)][c]==c),D[bv(0)][c]))); out.append(('%s in row 0'%n,z3.ULE(j,bv(2))))
            for m,y in xs:
                if y.get_id() in seen: continue
                seen.add(y.get_id()); x=z3.ZeroExt(32,y)
                out+=[(m+' in range',z3.And(z3.UGE(x,bv(1)),z3.ULE(x,row(G['rt'])+1)))]
                for w,T,src,F in W:
                    S=T.sizes(s); D=T.data(s); NS=src.sizes(e.s0); good=lambda r,c,D=D,F=F:D[r][c]==mkid(r,cfn(F,r,c))
                    for rel,cond in (('below',z3.ULT(r,x)),('up to',z3.ULE(r,x))):
                        out.append(('%s rows %s %s: sizes'%(w,rel,m),FA([r],z3.Implies(cond,S[r]==NS[r]),S[r]))); out.append(('%s rows %s %s: values'%(w,rel,m),FA([r,c],z3.Implies(z3.And(cond,z3.ULT(c,NS[r])),good(r,c)),D[r][c])))
                    out.append(('%s row of %s: size'%(w,m),S[x]==NS[x]))
                    for n,j in le.counters(64):
                        out.append(('%s %s in row %s'%(w,n,m),z3.ULE(j,NS[x]))); out.append(('%s columns of row %s below %s'%(w,m,n),FA([c],z3.Implies(z3.ULT(c,j),good(x,c)),D[x][c])))
                NS=NS0; bounds=[('the end',NS[x])]+le.counters(64)
                if not le.counters(64): continue          # the map is set up anew for each level
                for n,j in bounds:
                    out.append(('members of %s below %s'%(m,n),FA([k],z3.Implies(M[k],z3.ULT(V[k],j)),M[k]))); out.append(('nodes of %s below %s are members'%(m,n),FA([c],z3.Implies(z3.ULT(c,j),M[kn(U,x,c)]),kn(U,x,c))))
                out.append(('keys of %s'%m,FA([k],z3.Implies(M[k],kn(U,x,V[k])==k),M[k]))); out.append(('values of %s'%m,FA([k],z3.Implies(M[k],cfn(U,x,V[k])==V[k]),M[k])))
            return out
        ex.cands=cands
        B=lambda r:r if z3.is_bool(r) else r!=0
        run(ex,root[3:],[Ptr('D'),Ptr('D2')],st,lambda s,r:[('equal exactly if the structures are the same',B(r)==(z3.Not(G['eq']) if ne else G['eq']))])
for A in(2,):
    one(A,True)
    for same in(False,True): one(A,False,same=same)
one(2,False,True)
