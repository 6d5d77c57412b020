"""ZddSubsetter::downTable and downSpec (dd/DdBuilder.hpp): the two halves of one step of subsetting (C04).
 downTable moves f along branch b and then along 0-branches to the first node at a level <= z; downSpec does the same with the
 specification: under every assignment that takes b at the level and 0 on all levels between it and z, the value of the
 specification (zero-suppressed reading) is that of the state it stops at."""
from ._table import *
from .table import entity,wfall
from ._absspec import AbsSpec,state_family,axioms_V,add_block,block,V,CN,AZ,mx0,step_V,b32
ZD=z3.Function('ZDESC',B64,B64,B64)
kw=dict(harness='subset.cpp',flags=FLAGS,noinline=NI,budget=120)
def mk(A):
    for b in range(A):
        @contract('subset.downTable%d.%d'%(A,b),['C04'],functions=['ZddSubsetter<arity %d>::downTable'%A],roots=['vf_dtab%d'%A],assume=['a table has at most 2^20 rows and rows have fewer than 2^43 columns (the limits of NodeId)','the input diagram is well-formed (children at existing lower nodes)'],**kw)
        def _(ex,b=b):
            st=start(ex); ex.fams['Z']=Fam('Z',256,{},cell=True); ex.fams['f']=Fam('f',8,{},cell=True); ex.fams['E']=Fam('E',96,{},cell=True)
            f=z3.Concat(z3.BitVec('f.row',20),z3.BitVec('f.col',44)); l=z3.BitVec('l',32); z=z3.If(l<0,b32(0),l)
            def go(e,s):
                t=entity(e,s,A,'E'); s.assume(*wfall(t,s,A)); s.assume(z3.UGE(row(f),bv(1)),z3.ULT(row(f),t.nrows(s)),z3.ULT(col(f),t.size(s,row(f))))
                for o in range(0,256,8): s.cells[('Z',o)]=Ptr('E')
                s.cells[('f',0)]=f; x=z3.BitVec('zx',64); D=t.data(s,0); e.c=t.data(s,8*b)[row(f)][col(f)]; e.z=s64(z)
                Zc=z3.BitVec('zlev',64); s.assume(Zc==s64(z)); e.z=Zc
                s.assume(FA([x],ZD(x,Zc)==z3.If(z3.ULE(row(x),Zc),x,ZD(D[row(x)][col(x)],Zc)),ZD(x,Zc))); s.assume(ZD(e.c,Zc)==ZD(e.c,Zc))
            ex.go=go; ex.cell_carried=True
            def cands(le):
                t=ex.tables['N']; s=le.st; out=[]
                vs=le.ints(64)+[('*'+n,t.data(s,p.off)[p.ix[0]][p.el]) for n,p in le.ptrs('ND') if p.off in t.fields]; out+=[(n+' in its row',z3.And(z3.ULT(p.ix[0],t.nrows(s)),z3.ULT(p.el,t.size(s,p.ix[0])))) for n,p in le.ptrs('ND')]
                for n,x in vs: out+=[(n+' same 0-descendant',ZD(x,ex.z)==ZD(ex.c,ex.z)),(n+' in the table',z3.And(z3.ULT(row(x),t.nrows(s)),z3.ULT(col(x),t.size(s,row(x)))))]
                return out
            ex.cands=cands
            def post(s,r):
                g=s.cells[('f',0)]; w=ZD(ex.c,ex.z)
                return [('f is the 0-descendant of its child',code(g)==code(w)),('not above the level',z3.ULE(row(g),ex.z)),('the 1-terminal is -1',z3.Implies(code(w)==1,r==-1)),('any other is its level',z3.Implies(code(w)!=1,s64(r)==row(w)))]
            finish(ex,ex.run_func(ex.mod.funcs['@vf_dtab%d'%A],[Ptr('Z'),Ptr('f'),b32(b),l],st),post)
    @contract('subset.downSpec%d'%A,['C04','C16'],functions=['ZddSubsetter<arity %d>::downSpec'%A],roots=['vf_dspec%d'%A],assume=['specifications satisfy the documented DdSpec interface (result level below the argument level, operations touch only their own state)'],**kw)
    def _(ex):
        st=State(); state_family(ex,True); s1=AbsSpec(ex,'Spec1' if A==2 else 'Spec3',1,A); s1.init(st); ex.axioms+=axioms_V(); ex.fams['Z']=Fam('Z',256,{},cell=True)
        lev,b,l=z3.BitVecs('level b l',32); z=mx0(l); p=block(1); st.assume(s1.D>0); add_block(ex,st,p,z3.ZeroExt(32,s1.D))
        i0=s1.id(st,p); st.assume(lev>0,lev<b32(1<<20),b>=0,b<A,lev>z,V(lev)==b,step_V(lev),AZ(lev-1,z),s1.live(st,p),s1.at(st,p,lev)); want=s1.Z(lev,i0)
        def cands(le):
            s=le.st; i=s1.id(s,p); out=[('state live',s1.live(s,p))]
            for n,x in le.ints(32): out+=[(n+' is the level of the state',z3.Implies(x>0,s1.at(s,p,x))),(n+'>=-1',x>=-1),(n+' below',x<lev),('same value at '+n,want==z3.And(AZ(lev-1,mx0(x)),s1.Z(x,i)))]
            return out
        ex.cands=cands
        def post(s,r):
            i=s1.id(s,p); s.assume(CN(z)==CN(z),CN(mx0(r))==CN(mx0(r)))
            return [('not above the level',z3.And(r>=-1,r<=z)),('state stays live',s1.live(s,p)),('state belongs to the level',z3.Implies(r>0,s1.at(s,p,r))),('same value',want==z3.And(AZ(z,mx0(r)),s1.Z(r,i)))]
        finish(ex,ex.run_func(ex.mod.funcs['@vf_dspec%d'%A],[Ptr('Z'),p,lev,b,l],st),post)
for A in(2,3): mk(A)
