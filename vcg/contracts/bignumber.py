"""Contracts for tdzdd::BigNumber (util/BigNumber.hpp). Property C07.

Abstraction: the number stored in limbs a[0..n-1] (n = first limb without the MSB flag) is
  VAL(a,n) = sum_{k<n} (a[k] & ~MSB) * 2^(63k).
The code contracts pin the limbs; the lemmas of value.py lift them to VAL."""
import z3
from ..run import *
MSB=bv(1<<63); MASK=bv((1<<63)-1); BIG=bv(1<<28)
ROOTS='vf_add vf_shl vf_div vf_size vf_store vf_storen vf_eq vf_eqn'.split()
kw=dict(harness='bn.cpp',roots=ROOTS)

def isnum(A,n,null=None):
    k=z3.BitVec('k',64)
    return [z3.UGE(n,bv(1)),z3.ULT(n,BIG),(A[n-1]&MSB)==0,
            z3.ForAll([k],z3.Implies(z3.ULT(k,n-1),(A[k]&MSB)==MSB),patterns=[A[k]])]
def setup(ex,two=False,nullA=False,nullB=False):
    st=State(); capA=z3.BitVec('capA',64)
    ex.fams['A']=Fam('A',8,{0:FInt(64)},length=lambda s,ix:capA)
    nA=z3.Bool('A_null') if nullA else z3.BoolVal(False)
    ex.fams['this']=Fam('this',8,{},cell=True); st.cells[('this',0)]=Ptr('A',null=nA)
    A=ex.arr(st,'A'); na=z3.ZeroExt(36,z3.BitVec('na',28)); st.assume(z3.ULT(capA,bv(1<<40)))
    st.assume(*[z3.Implies(z3.Not(nA),c) for c in isnum(A,na)]) if nullA else st.assume(*isnum(A,na))
    st.assume(z3.Implies(z3.Not(nA),z3.ULE(na,capA)))
    args=[Ptr('this')]; r=dict(st=st,A=A,na=na,capA=capA,args=args,nA=nA)
    if two:
        capB=z3.BitVec('capB',64); ex.fams['B']=Fam('B',8,{0:FInt(64)},length=lambda s,ix:capB)
        nB=z3.Bool('B_null') if nullB else z3.BoolVal(False)
        ex.fams['other']=Fam('other',8,{},cell=True); st.cells[('other',0)]=Ptr('B',null=nB)
        B=ex.arr(st,'B'); nb=z3.ZeroExt(36,z3.BitVec('nb',28))
        st.assume(*[z3.Implies(z3.Not(nB),c) for c in isnum(B,nb)]) if nullB else st.assume(*isnum(B,nb))
        st.assume(z3.Implies(z3.Not(nB),z3.ULE(nb,capB)),z3.ULT(capB,bv(1<<40)))
        args.append(Ptr('other')); r.update(B=B,nb=nb,nB=nB)
    return r

# sum recurrence
Sf=z3.Function('S_add',B64,B64); Cf=z3.Function('C_add',B64,B64)
def add_axioms(A,na,B,nb):
    k=z3.BitVec('k',64)
    la=lambda k:z3.If(z3.ULT(k,na),A[k]&MASK,bv(0)); lb=lambda k:z3.If(z3.ULT(k,nb),B[k]&MASK,bv(0))
    return [Cf(bv(0))==0, z3.ForAll([k],z3.And(Sf(k)==la(k)+lb(k)+Cf(k),Cf(k+1)==z3.LShR(Sf(k),63),z3.ULE(Cf(k),bv(1))),patterns=[Sf(k)])]

@lemma('bn.add.carry<=1',['C07'],functions=['(definition of the carry sequence)'])
def _():
    # C(k)<=1 for all k by induction: C(0)=0; C(k+1)=(la+lb+C(k))>>63 with la,lb<2^63
    a,b,c=z3.BitVecs('a b c',64)
    return [('base',[], z3.ULE(bv(0),bv(1))),
            ('step',[z3.ULE(a,MASK),z3.ULE(b,MASK),z3.ULE(c,bv(1))],z3.And(z3.ULE(z3.LShR(a+b+c,63),bv(1)),z3.UGE(a+b,a),z3.UGE(a+b+c,a+b)))]

@contract('bn.add',['C07'],functions=['BigNumber::add'],**kw)
def _(ex):
    r=setup(ex,True); st=r['st']; A,B,na,nb=r['A'],r['B'],r['na'],r['nb']
    ex.axioms+=add_axioms(A,na,B,nb); ex.timeout=40000
    m=z3.If(z3.UGE(na,nb),na,nb); nout=m+Cf(m)
    st.assume(z3.ULE(nout,r['capA']), Sf(m)==Sf(m), Sf(m-1)==Sf(m-1))
    j=z3.BitVec('j',64)
    def cands(le):
        out=[]; M=ex.arr(le.st,'A')
        for n,p in le.ptrs('A'):
            k=p.el
            out+=[(n+' done',z3.ForAll([j],z3.Implies(z3.ULT(j,k),M[j]==(Sf(j)|MSB)),patterns=[M[j]])),
                  (n+' rest',z3.ForAll([j],z3.Implies(z3.UGE(j,k),M[j]==A[j]),patterns=[M[j]])),
                  (n+'<na',z3.ULT(k,na)),(n+'<nb',z3.ULT(k,nb)),(n+'>=na-1',z3.UGE(k,na-1)),(n+'>=nb-1',z3.UGE(k,nb-1)),
                  (n+'<m',z3.ULT(k,m)),(n+'<=m',z3.ULE(k,m))]
            for xn,x in le.ints(64):
                out+=[(xn+'==C('+n+')',x==Cf(k)),(xn+'==S('+n+')',x==Sf(k))]
        for n,q in le.ptrs('B'):
            k=q.el
            out+=[(n+'<na',z3.ULT(k,na)),(n+'<nb',z3.ULT(k,nb))]
        return out
    ex.cands=cands
    outs=ex.run_func(ex.mod.funcs['@vf_add'],r['args'],st)
    def post(s,ret):
        M=ex.arr(s,'A'); ret=ex.toint(ret)
        jj=z3.BitVec('jj',64); s.assume(z3.ULT(jj,bv(1<<60)))
        hint=z3.And(Sf(jj)==Sf(jj),Sf(m)==Sf(m))
        return [('result size',ret==nout),
                ('limbs',z3.Implies(z3.And(z3.ULT(jj,m),hint),M[jj]==((Sf(jj)&MASK)|z3.If(z3.ULT(jj,nout-1),MSB,bv(0))))),
                ('carry limb',z3.Implies(z3.And(hint,nout!=m),M[m]==1)),
                ('frame',z3.Implies(z3.UGE(jj,nout),M[jj]==A[jj])),
                ('operand unchanged',ex.arr(s,'B')[jj]==B[jj])]
    finish(ex,outs,post)

@contract('bn.size',['C07'],functions=['BigNumber::size'],**kw)
def _(ex):
    r=setup(ex,nullA=True); A,na=r['A'],r['na']
    def cands(le):
        return [(n+'<na',z3.ULT(p.el,na)) for n,p in le.ptrs('A')]+[(n+'<=na',z3.ULE(p.el,na)) for n,p in le.ptrs('A')]
    ex.cands=cands
    outs=ex.run_func(ex.mod.funcs['@vf_size'],r['args'],r['st'])
    finish(ex,outs,lambda s,ret:[('size',ex.toint(ret)==z3.If(r['nA'],bv(1,32),z3.Extract(31,0,na)))])

SHL=z3.Function('SHL',B64,B64); SHR=z3.Function('SHR',B64,B64)   # x<<sh, x>>(63-sh)
def shl_contract(ex,big):
    r=setup(ex,nullA=False); st=r['st']; A,na=r['A'],r['na']; k=z3.BitVec('shift',32)
    st.assume(k>=0,k<bv(1<<27,32),z3.Implies(na!=1,A[na-1]!=0),z3.Not(z3.And(na==1,A[bv(0)]==0)))      # normalised, not zero (zero: bn.shiftLeft.zero)
    st.assume((k>=63) if big else (k<63))
    w32=z3.ZeroExt(10,z3.BitVec('w',22)); sh32=z3.ZeroExt(26,z3.BitVec('sh',6))      # k = 63*w + sh
    w=z3.ZeroExt(32,w32); sh=z3.ZeroExt(32,sh32); rsh=z3.ZeroExt(32,bv(63,32)-sh32)
    # quotient/remainder by the constant 63 are named once (lemma bn.shift.divmod)
    if not big: w32=bv(0,32); sh32=k; w=bv(0); sh=z3.ZeroExt(32,k); rsh=z3.ZeroExt(32,bv(63,32)-k)
    st.assume(z3.ULT(w,bv(1<<27)),z3.ULT(sh,bv(63)),z3.BoolVal(True) if not big else w!=0)
    ex.generic_frame=False; ex.timeout=20000
    ob=ex.binop
    def binop(op,x,y,f=()):
        if z3.is_bv(x) and z3.is_bv(y) and x.eq(k) and z3.is_bv_value(y) and y.as_long()==63:
            if op in('sdiv','udiv'): return w32
            if op in('srem','urem'): return sh32
        # shifts by the (symbolic) remainder are named functions: only congruence is needed here,
        # their meaning is used by the value lemmas
        if op in('shl','lshr') and z3.is_bv(x) and x.size()==64 and z3.is_bv(y) and not z3.is_bv_value(y):
            amt=sh if op=='shl' else rsh
            if qi.prove([],[c for c in st.pc if not qi.has_q(c)],y==amt,3000)[0]=='unsat': return (SHL if op=='shl' else SHR)(x)
        return ob(op,x,y,f)
    ex.binop=binop
    xx=z3.BitVec('xx',64); j=z3.BitVec('j',64)
    if big:
        A1=z3.Const('A1c',A.sort())      # ghost: the limbs after moving whole words
        ex.axioms+=[z3.ForAll([j],A1[j]==z3.If(z3.ULT(j,w),MSB,A[j-w]),patterns=[A1[j]])]
    else: A1=A
    X=lambda j:z3.If(j==0,bv(0),SHR(A1[j-1]&MASK))         # bits carried into limb j
    T=lambda j:(SHL(A1[j])&MASK)|X(j)
    ex.axioms+=[SHR(bv(0))==0,z3.ForAll([xx],z3.ULE(SHR(xx),MASK),patterns=[SHR(xx)])]     # true of the shifts for 0<=sh<63 (lemma bn.shift.facts)
    m=na+w; nout=m+z3.If(X(m)!=0,bv(1),bv(0))
    st.assume(z3.ULE(nout,r['capA']))
    def cands(le):
        out=[]; M=ex.arr(le.st,'A')
        for n,p in le.ptrs('A'):
            e=p.el
            out+=[(n+'<na',z3.ULT(e,na)),(n+'<m',z3.ULT(e,m)),
                 (n+' emitted',z3.ForAll([j],z3.Implies(z3.ULT(j,e),M[j]==(T(j)|MSB)),patterns=[M[j]])),
                 (n+' pending',z3.ForAll([j],z3.Implies(z3.And(z3.UGE(j,e),z3.ULT(j,m)),M[j]==A1[j]),patterns=[M[j]])),
                 (n+' rest',z3.ForAll([j],z3.Implies(z3.UGE(j,m),M[j]==A[j]),patterns=[M[j]]))]
            if big:
              out+=[(n+'<=na s',e<=na),(n+'<=w',z3.ULE(e,w)),(n+'>=-1',e>=bv(-1)),(n+'>=0',e>=0),
                 (n+' cleared',z3.ForAll([j],z3.Implies(z3.ULT(j,e),M[j]==MSB),patterns=[M[j]])),
                 (n+' moved hi',z3.ForAll([j],z3.Implies(z3.And(z3.UGE(j,w),z3.ULT(j,m)),M[j]==A[j-w]),patterns=[M[j]]))]
              for d in(0,1):
                out+=[(n+' unmoved%d'%d,z3.ForAll([j],z3.Implies(z3.And(j>=0,j<e+d),M[j]==A[j]),patterns=[M[j]])),
                      (n+' moved%d'%d,z3.ForAll([j],z3.Implies(z3.And(j>=e+d+w,j<m),M[j]==A[j-w]),patterns=[M[j]]))]
            for xn,x in le.ints(64): out+=[(xn+'==X('+n+')',x==X(e))]
        return out
    ex.cands=cands
    outs=ex.run_func(ex.mod.funcs['@vf_shl'],[Ptr('this'),k],st)
    def post(s,ret):
        M=ex.arr(s,'A'); jj=z3.BitVec('jj',64); s.assume(z3.ULT(jj,bv(1<<60)))
        rt=ex.toint(ret); ti=z3.simplify(rt-1) ; tj=z3.simplify(rt-2)
        return [('result size',rt==nout),
                ('top limb (no carry)',z3.Implies(nout==m,z3.And(ti==m-1,M[ti]==T(ti)))),
                ('top limb (carry)',z3.Implies(nout!=m,z3.And(tj==m-1,M[tj]==(T(tj)|MSB)))),
                ('limbs',z3.Implies(z3.ULT(jj,m-1),M[jj]==(T(jj)|MSB))),
                ('carry limb',z3.Implies(nout!=m,M[m]==X(m))),
                ('frame',z3.Implies(z3.UGE(jj,nout),M[jj]==A[jj]))]
    finish(ex,outs,post)
@contract('bn.shiftLeft.small',['C07'],functions=['BigNumber::shiftLeft (k<63)'],budget=240,**kw)
def _(ex): shl_contract(ex,False)
@contract('bn.shiftLeft.big',['C07'],functions=['BigNumber::shiftLeft (k>=63)','BigNumber::size'],budget=400,**kw)
def _(ex): shl_contract(ex,True)
@contract('bn.shiftLeft.zero',['C07'],functions=['BigNumber::shiftLeft (zero)'],**kw)
def _(ex):
    r=setup(ex,nullA=True); st=r['st']; A,na,nA=r['A'],r['na'],r['nA']; k=z3.BitVec('shift',32)
    st.assume(k>=0,k<bv(1<<27,32),z3.Or(nA,z3.And(na==1,A[bv(0)]==0)))
    outs=ex.run_func(ex.mod.funcs['@vf_shl'],[Ptr('this'),k],st)
    jj=z3.BitVec('jj',64)
    finish(ex,outs,lambda s,ret:[('zero stays one limb',ex.toint(ret)==1),('unchanged',ex.arr(s,'A')[jj]==A[jj])])

@contract('bn.store',['C07'],functions=['BigNumber::store(BigNumber)'],**kw)
def _(ex):
    r=setup(ex,True,nullA=True,nullB=True); st=r['st']; A,B,na,nb,nA,nB=[r[x] for x in('A','B','na','nb','nA','nB')]
    capA=r['capA']
    # a null number is the number 0; storing a non-zero number into null throws
    zeroB=z3.Or(nB,z3.And(nb==1,B[bv(0)]==0))
    n=z3.If(nB,bv(1),nb)
    st.assume(z3.Implies(z3.Not(nA),z3.ULE(n,capA)))
    # the target need not hold a number before (fresh storage)
    j=z3.BitVec('j',64)
    def cands(le):
        out=[]; M=ex.arr(le.st,'A')
        for nm,p in le.ptrs('A')+le.ptrs('B'):
            e=p.el
            out+=[(nm+'<nb',z3.ULT(e,nb)),(nm+' copied',z3.ForAll([j],z3.Implies(z3.ULT(j,e),M[j]==B[j]),patterns=[M[j]]))]
        return out
    ex.cands=cands
    ex.on_throw=lambda ex,s: ex.oblige('throws only for a non-zero value into null storage',s,z3.And(nA,z3.Not(zeroB)))
    outs=ex.run_func(ex.mod.funcs['@vf_store'],r['args'],st)
    def post(s,ret):
        M=ex.arr(s,'A'); jj=z3.BitVec('jj',64); s.assume(z3.ULT(jj,bv(1<<60)))
        return [('number of limbs',ex.toint(ret)==z3.If(nA,bv(1),n)),('null target only takes zero',z3.Implies(nA,zeroB)),
                ('limbs copied',z3.Implies(z3.And(z3.Not(nA),z3.ULT(jj,n)),M[jj]==z3.If(nB,bv(0),B[jj]))),
                ('frame',z3.Implies(z3.Or(nA,z3.UGE(jj,n)),M[jj]==A[jj])),
                ('operand unchanged',ex.arr(s,'B')[jj]==B[jj])]
    finish(ex,outs,post)

@contract('bn.storen',['C07'],functions=['BigNumber::store(uint64_t)'],**kw)
def _(ex):
    r=setup(ex,nullA=True); st=r['st']; A=r['A']; nA=r['nA']; n=z3.BitVec('n',64); two=(n&MSB)!=0
    st.assume(z3.Implies(z3.Not(nA),z3.ULE(z3.If(two,bv(2),bv(1)),r['capA'])))
    ex.on_throw=lambda ex,s: ex.oblige('throws only for a non-zero value into null storage',s,z3.And(nA,n!=0))
    outs=ex.run_func(ex.mod.funcs['@vf_storen'],r['args']+[n],st)
    def post(s,ret):
        M=ex.arr(s,'A'); jj=z3.BitVec('jj',64); s.assume(z3.ULT(jj,bv(1<<60)))
        return [('number of limbs',ex.toint(ret)==z3.If(z3.And(z3.Not(nA),two),bv(2),bv(1))),('null only zero',z3.Implies(nA,n==0)),
                ('limb 0',z3.Implies(z3.Not(nA),M[bv(0)]==n)),('limb 1',z3.Implies(z3.And(z3.Not(nA),two),M[bv(1)]==1)),
                ('frame',z3.Implies(z3.UGE(jj,z3.If(nA,bv(0),z3.If(two,bv(2),bv(1)))),M[jj]==A[jj]))]
    finish(ex,outs,post)

@contract('bn.eq',['C07'],functions=['BigNumber::operator==(BigNumber)'],**kw)
def _(ex):
    r=setup(ex,True,nullA=True,nullB=True); st=r['st']; A,B,na,nb,nA,nB=[r[x] for x in('A','B','na','nb','nA','nB')]
    j=z3.BitVec('j',64)
    def cands(le):
        out=[]
        for nm,p in le.ptrs('A')+le.ptrs('B'):
            e=p.el
            out+=[(nm+'<na',z3.ULT(e,na)),(nm+'<nb',z3.ULT(e,nb)),(nm+' equal so far',z3.ForAll([j],z3.Implies(z3.ULT(j,e),A[j]==B[j]),patterns=[A[j]]))]
        return out
    ex.cands=cands
    outs=ex.run_func(ex.mod.funcs['@vf_eq'],r['args'],st)
    def post(s,ret):
        jj=z3.BitVec('jj',64); s.assume(z3.ULT(jj,bv(1<<60)))
        same=z3.And(na==nb,z3.ForAll([j],z3.Implies(z3.ULT(j,na),A[j]==B[j]),patterns=[A[j]]))
        zA=z3.Or(nA,z3.And(na==1,A[bv(0)]==0)); zB=z3.Or(nB,z3.And(nb==1,B[bv(0)]==0))
        full=z3.If(z3.Or(nA,nB),z3.And(zA,zB),same)
        return [('true only if equal',z3.Implies(ret,full)),('true if equal',z3.Implies(full,ret))]
    finish(ex,outs,post)

@contract('bn.eqn',['C07'],functions=['BigNumber::operator==(uint64_t)'],**kw)
def _(ex):
    r=setup(ex,nullA=True); st=r['st']; A,na,nA=r['A'],r['na'],r['nA']; n=z3.BitVec('n',64)
    # numbers are normalised: most significant limb non-zero unless single
    st.assume(z3.Implies(na!=1,A[na-1]!=0))
    outs=ex.run_func(ex.mod.funcs['@vf_eqn'],r['args']+[n],st)
    eq=z3.If(nA,n==0,z3.Or(z3.And(na==1,A[bv(0)]==n),z3.And(na==2,(A[bv(0)]&MASK)==(n&MASK),A[bv(1)]==1,(n&MSB)!=0)))
    finish(ex,outs,lambda s,ret:[('equality with machine integer',ret==eq)])

DQ=z3.Function('DQ',B64,B64,B64); DR=z3.Function('DR',B64,B64,B64)   # (R*2^63+l) div/mod 10
Rf=z3.Function('R_div',B64,B64); NZ=z3.Function('NZ_div',B64,z3.BoolSort())
def ext(x): return z3.ZeroExt(16,x)

@lemma('bn.div10.unique',['C07'],functions=['(Euclidean division by 10 is unique)'])
def _():
    q,r,q2,r2=z3.Ints('q r q2 r2')
    return [('unique',[10*q+r==10*q2+r2,r>=0,r<10,r2>=0,r2<10],z3.And(q==q2,r==r2))]

@contract('bn.divide',['C07'],functions=['BigNumber::divide'],budget=300,
          assume=['lldiv(x,10) of the C library returns the Euclidean quotient and remainder for x>=0'],**kw)
def _(ex):
    r=setup(ex,nullA=True); st=r['st']; A,na,nA=r['A'],r['na'],r['nA']
    l=lambda j:A[j]&MASK
    def lldiv(e,s,args,i):
        x,d=map(e.toint,args)
        e.oblige('lldiv operands: non-negative dividend, divisor 10',s,z3.And(x>=0,d==10))
        q=fresh('q',B64); rr=fresh('r',B64)
        s.assume(x==10*q+rr,z3.ULT(rr,bv(10)),z3.ULE(q,bv(((1<<63)-1)//10)))
        return (q,rr)
    ex.handlers.insert(0,(r'^@lldiv$|^@ldiv$',lldiv))
    j=z3.BitVec('j',64); R,L,Q,S=z3.BitVecs('R L Q S',64)
    # DQ/DR are *the* quotient and remainder (unique by lemma bn.div10.unique); stated as: any pair
    # satisfying the Euclidean relation equals them
    ex.axioms+=[Rf(na)==0,z3.Not(NZ(na)),
        z3.ForAll([j],z3.And(Rf(j)==DR(Rf(j+1),l(j)),NZ(j)==z3.Or(NZ(j+1),DQ(Rf(j+1),l(j))!=0),z3.ULT(Rf(j),bv(10)),z3.ULT(Rf(j+1),bv(10))),patterns=[NZ(j)])]
    def euclid(R,L,q,rr):
        rel=z3.And(z3.ULT(rr,bv(10)),ext(q)*10+ext(rr)==(ext(R)<<63)+ext(L))
        return z3.Implies(rel,z3.And(q==DQ(R,L),rr==DR(R,L)))
    ex.euclid=euclid
    def cands(le):
        out=[]; M=ex.arr(le.st,'A')
        for n,p in le.ptrs('A'):
            e=p.el
            out+=[(n+'<na',z3.ULT(e,na)),(n+'<=na',z3.ULE(e,na)),(n+'>=1',z3.UGE(e,bv(1))),
              (n+' beyond',z3.ForAll([j],z3.Implies(z3.UGE(j,na),M[j]==A[j]),patterns=[M[j]])),
              (n+' lower unchanged',z3.ForAll([j],z3.Implies(z3.ULT(j,e),M[j]==A[j]),patterns=[M[j]])),
              (n+' upper divided',z3.ForAll([j],z3.Implies(z3.And(z3.UGE(j,e),z3.ULT(j,na)),M[j]==(DQ(Rf(j+1),l(j))|z3.If(NZ(j+1),MSB,bv(0)))),patterns=[M[j]]))]
            for xn,x in le.ints(64): out+=[(xn+'==R('+n+')',x==Rf(e)),(xn+'<10',z3.ULT(x,bv(10)))]
            for xn,x in le.ints(8): out+=[(xn+'==NZ('+n+')',(x!=0)==NZ(e))]
            for xn,x in le.bools(): out+=[(xn+'==NZ('+n+')',x==NZ(e))]
        return out
    ex.cands=cands
    def lemma_inst(le):
        M=ex.arr(le.st,'A'); out=[]
        for n,p in le.ptrs('A'):
            for xn,x in le.ints(64): out.append(euclid(Rf(p.el+1),l(p.el),M[p.el]&MASK,x))
        return out
    ex.lemma_inst=lemma_inst
    outs=ex.run_func(ex.mod.funcs['@vf_div'],r['args'],st)
    def post(s,ret):
        M=ex.arr(s,'A'); jj=z3.BitVec('jj',64); s.assume(z3.ULT(jj,bv(1<<60)))
        s.assume(euclid(Rf(bv(1)),l(bv(0)),M[bv(0)]&MASK,z3.ZeroExt(32,ret)),NZ(bv(0))==NZ(bv(0)),NZ(jj)==NZ(jj))
        return [('remainder',ret==z3.If(nA,bv(0,32),z3.Extract(31,0,Rf(bv(0))))),
                ('quotient limbs',z3.Implies(z3.And(z3.Not(nA),z3.ULT(jj,na)),M[jj]==(DQ(Rf(jj+1),l(jj))|z3.If(NZ(jj+1),MSB,bv(0))))),
                ('frame',z3.Implies(z3.Or(nA,z3.UGE(jj,na)),M[jj]==A[jj]))]
    finish(ex,outs,post)

@lemma('bn.shift.divmod',['C07'],functions=['(quotient and remainder by 63)'])
def _():
    k,w,sh=z3.Ints('k w sh')
    return [('divmod',[k>=0,k<2**27,k==63*w+sh,sh>=0,sh<63,w>=0],z3.And((k>=63)==(w!=0),z3.Implies(w==0,k==sh),w<2**27))]
@lemma('bn.shift.facts',['C07'],functions=['(shift facts)'])
def _():
    sh=z3.BitVec('sh',64)
    return [('facts',[z3.ULT(sh,bv(63))],z3.And(z3.LShR(bv(0),63-sh)==0,z3.ULE(z3.LShR(z3.BitVec('x',64),63-sh),MASK)))]
