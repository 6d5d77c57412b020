"""Specification combinators (op/BinaryOperation.hpp): C05, C16. Operands are arbitrary specifications (see _absspec)."""
from ._absspec import *
OPS={'and':('BddAnd','A'),'or':('BddOr','A'),'int':('ZddIntersection','Z'),'uni':('ZddUnion','Z')}
ROOTS=['vf_%s_%s'%(o,f) for o in OPS for f in 'root child copy destruct equal hash merge'.split()]
ASM=['operand specifications satisfy the documented DdSpec interface (result level below the argument level, equal states have equal futures and hashes, operations touch only their own state)',
     'ZDD intersection: the two operand states together occupy at least one word']
kw=dict(harness='binop.cpp',roots=ROOTS,assume=ASM)

class Blk: pass
def setup(ex,op):
    st=State(); state_family(ex); s1=AbsSpec(ex,'Spec1',1); s2=AbsSpec(ex,'Spec2',2); s1.init(st); s2.init(st)
    ex.axioms+=axioms_V(); ex.b=[]; ex.posts=[]
    for n in('a','b'): ex.fams[n]=Fam(n,1,{},cell=True)
    if op=='int': st.assume(s1.W+s2.W>0)
    def rec(ex,st,size,l1,l2,q1,q2,p):
        b=Blk(); b.l1,b.l2,b.q1,b.q2,b.p=l1,l2,q1,q2,p; b.tot=z3.LShR(z3.ZeroExt(32,size),3); ex.b.append(b)
        st.assume(z3.ZeroExt(32,size)==b.tot*8)
        add_block(ex,st,p,b.tot)
        return b
    def pre(ex,st,a,i): b=rec(ex,st,*a); ex.on_pre(st,b); return None
    def mid(ex,st,a,i): b=rec(ex,st,*a); (ex.on_mid or ex.on_pre)(st,b); return None
    def post(ex,st,a,i):
        b=Blk(); b.l1,b.l2,b.q1,b.q2,b.p=a; st.ghost['post%d'%len([k for k in st.ghost if str(k).startswith('post')])]=b; return None
    ex.handlers+=[('^@vf_pre$',pre),('^@vf_mid$',mid),('^@vf_post$',post)]; ex.on_mid=None
    return st,s1,s2
def comb(op,x,y): return z3.Or(x,y) if op in('or','uni') else z3.And(x,y)
def meaning(op,ex,s1,s2,st,b,lev,top):
    """function of the combined state b handed out for level lev, read from level top on"""
    i1,i2=s1.id(st,b.q1),s2.id(st,b.q2)
    l1,l2=(lev,lev) if op=='int' else (b.l1,b.l2)
    if OPS[op][1]=='A': return comb(op,s1.A(l1,i1),s2.A(l2,i2))
    return comb(op,s1.F(top,l1,i1),s2.F(top,l2,i2))
def inv(op,s1,s2,st,b,lev):
    """representation invariant of a combined state handed out for level lev > 0"""
    out=[s1.live(st,b.q1),s2.live(st,b.q2)]
    if op=='int': return out+[s1.cl(st,b.q1)==lev,s2.cl(st,b.q2)==lev]
    out+=[b.l1>=-1,b.l2>=-1,z3.If(b.l1>b.l2,b.l1,b.l2)==lev,z3.Implies(b.l1>0,s1.cl(st,b.q1)==b.l1),z3.Implies(b.l2>0,s2.cl(st,b.q2)==b.l2)]
    if op=='and': out+=[b.l1!=0,b.l2!=0]
    if op=='or': out+=[b.l1>=0,b.l2>=0]
    return out
def dead(s1,s2,st,b): return [z3.Not(s1.live(st,b.q1)),z3.Not(s2.live(st,b.q2))]
TOPV=z3.BitVec('top',32)

def cands_int(ex,s1,s2,goal):
    def cands(le):
        out=[]; b=ex.b[0]; st=le.st; i1,i2=s1.id(st,b.q1),s2.id(st,b.q2)
        out+=[('state 1 live',s1.live(st,b.q1)),('state 2 live',s2.live(st,b.q2))]
        for n,x in le.ints(32):
            out+=[(n+' level of state 1',x==s1.cl(st,b.q1)),(n+' level of state 2',x==s2.cl(st,b.q2)),(n+'!=0',x!=0),(n+'<=top',x<=TOPV),(n+'>=-1',x>=-1),(n+'<entry level',x<ex.lev if ex.lev is not None else z3.BoolVal(True))]
            for m,y in le.ints(32):
                if n!=m: out.append(('function of (%s,%s) unchanged'%(n,m),goal()==z3.And(s1.F(TOPV,x,i1),s2.F(TOPV,y,i2))))
        return out
    return cands

def mk(op):
    nm,rd=OPS[op]
    def root(ex):
        st,s1,s2=setup(ex,op); ex.lev=None
        ex.on_pre=lambda st,b: st.assume(*dead(s1,s2,st,b))
        st.assume(TOPV>=0,TOPV>=s1.RL,TOPV>=s2.RL)
        want=comb(op,s1.A(s1.RL,s1.RI),s2.A(s2.RL,s2.RI)) if rd=='A' else comb(op,s1.F(TOPV,s1.RL,s1.RI),s2.F(TOPV,s2.RL,s2.RI))
        if op=='int': ex.cands=cands_int(ex,s1,s2,lambda:want)
        outs=ex.run_func(ex.mod.funcs['@vf_%s_root'%op],[Ptr('a'),Ptr('b'),block(1)],st)
        def post(s,r):
            b=s.ghost['post0']; I=inv(op,s1,s2,s,b,r)
            s.assume(CN(TOPV)==CN(TOPV),CN(mx0(r))==CN(mx0(r)))
            return [('both operand states are initialised',z3.And(s1.live(s,b.q1),s2.live(s,b.q2)))]+\
                   [('invariant of the root state (%d)'%k,z3.Implies(r>0,c)) for k,c in enumerate(I)]+\
                   [('result is a level',z3.And(r>=-1,r<=TOPV)),
                    ('0 only for rejection',z3.Implies(r==0,z3.Not(want))),
                    ('-1 only for acceptance',z3.Implies(r<0,want==(z3.BoolVal(True) if rd=='A' else AZ(TOPV,b32(0))))),
                    ('root state means the combination',z3.Implies(r>0,want==meaning(op,ex,s1,s2,s,b,r,TOPV)))]
        finish(ex,outs,post)
    def child(ex):
        st,s1,s2=setup(ex,op); lev=z3.BitVec('level',32); t=z3.BitVec('take',32); ex.lev=lev
        st.assume(lev>0,lev<b32(1<<20),t>=0,t<2,V(lev)==t,step_V(lev),TOPV==lev-1)
        def on_pre(st,b): st.assume(*inv(op,s1,s2,st,b,lev)); ex.want=meaning(op,ex,s1,s2,st,b,lev,lev)
        ex.on_pre=on_pre
        if op=='int': ex.cands=cands_int(ex,s1,s2,lambda:ex.want)
        outs=ex.run_func(ex.mod.funcs['@vf_%s_child'%op],[Ptr('a'),Ptr('b'),block(1),lev,t],st)
        def post(s,r):
            b=s.ghost['post0']; I=inv(op,s1,s2,s,b,r); want=ex.want
            s.assume(CN(TOPV)==CN(TOPV),CN(mx0(r))==CN(mx0(r)),CN(mx0(b.l1))==CN(mx0(b.l1)),CN(mx0(b.l2))==CN(mx0(b.l2)))
            return [('both operand states stay initialised',z3.And(s1.live(s,b.q1),s2.live(s,b.q2)))]+\
                   [('invariant of the child state (%d)'%k,z3.Implies(r>0,c)) for k,c in enumerate(I)]+\
                   [('result is a lower level',z3.And(r>=-1,r<lev)),
                    ('0 only for rejection',z3.Implies(r==0,z3.Not(want))),
                    ('-1 only for acceptance',z3.Implies(r<0,want==(z3.BoolVal(True) if rd=='A' else AZ(TOPV,b32(0))))),
                    ('child state means the rest of the combination',z3.Implies(r>0,want==meaning(op,ex,s1,s2,s,b,r,TOPV)))]
        finish(ex,outs,post)
    def copy(ex):
        st,s1,s2=setup(ex,op); lev=z3.BitVec('level',32); st.assume(lev>0)
        ex.on_pre=lambda st,b: st.assume(*inv(op,s1,s2,st,b,lev))
        ex.on_mid=lambda st,b: st.assume(*dead(s1,s2,st,b))
        outs=ex.run_func(ex.mod.funcs['@vf_%s_copy'%op],[Ptr('a'),Ptr('b'),block(1),block(2)],st)
        def post(s,r):
            t,q=s.ghost['post0'],s.ghost['post1']; b0=ex.b[0]
            out=[]
            for nm,b in(('copy',t),('original',q)):
                out+=[('%s: operand states'%nm,z3.And(s1.id(s,b.q1)==s1.id(st,b0.q1),s2.id(s,b.q2)==s2.id(st,b0.q2)))]
                out+=[('%s: invariant (%d)'%(nm,k),c) for k,c in enumerate(inv(op,s1,s2,s,b,lev))]
                if op!='int': out+=[('%s: levels'%nm,z3.And(b.l1==b0.l1,b.l2==b0.l2))]
            return out
        finish(ex,outs,post)
    def destruct(ex):
        st,s1,s2=setup(ex,op); ex.on_pre=lambda st,b: st.assume(s1.live(st,b.q1),s2.live(st,b.q2))
        outs=ex.run_func(ex.mod.funcs['@vf_%s_destruct'%op],[Ptr('a'),Ptr('b'),block(1)],st)
        finish(ex,outs,lambda s,r:[('both operand states are released',z3.And(*dead(s1,s2,s,s.ghost['post0'])))])
    def equal(ex):
        st,s1,s2=setup(ex,op); lev=z3.BitVec('level',32); st.assume(lev>0,lev<b32(1<<20)); TOP=lev
        ex.on_pre=lambda st,b: st.assume(*inv(op,s1,s2,st,b,lev))
        outs=ex.run_func(ex.mod.funcs['@vf_%s_equal'%op],[Ptr('a'),Ptr('b'),block(1),block(2),lev],st)
        def post(s,r):
            p,q=ex.b; r=r if z3.is_bool(r) else r!=0
            return [('equal states have equal futures',z3.Implies(r,meaning(op,ex,s1,s2,s,p,lev,lev)==meaning(op,ex,s1,s2,s,q,lev,lev)))]
        finish(ex,outs,post)
    def hash_(ex):
        # hash is a function of what equal_to compares: run twice on two equal states
        st,s1,s2=setup(ex,op); lev=z3.BitVec('level',32); st.assume(lev>0,lev<b32(1<<20))
        ex.on_pre=lambda st,b: st.assume(*inv(op,s1,s2,st,b,lev))
        o1=ex.run_func(ex.mod.funcs['@vf_%s_hash'%op],[Ptr('a'),Ptr('b'),block(1),lev],st)
        outs=[]
        for o in o1:
            if o[0]!='ret': continue
            n=len(ex.b)
            for o2 in ex.run_func(ex.mod.funcs['@vf_%s_equal'%op],[Ptr('a'),Ptr('b'),block(1),block(2),lev],o[1].copy()):
                if o2[0]!='ret': continue
                e=o2[2] if z3.is_bool(o2[2]) else o2[2]!=0; s=o2[1].copy(); s.assume(e)
                if not ex.feasible(s.pc): continue
                for o3 in ex.run_func(ex.mod.funcs['@vf_%s_hash'%op],[Ptr('a'),Ptr('b'),block(2),lev],s):
                    if o3[0]=='ret': outs.append(('ret',o3[1],(o[2],o3[2])))
        finish(ex,outs,lambda s,r:[('states that compare equal have equal hash codes',r[0]==r[1])])
    F='%s_::'%nm
    contract('op.%s.getRoot'%nm,['C05','C16'],functions=[F+'getRoot',nm+' constructor'],**kw)(root)
    contract('op.%s.getChild'%nm,['C05','C16'],functions=[F+'getChild'],**kw)(child)
    contract('op.%s.get_copy'%nm,['C05','C16'],functions=[F+'get_copy'],**kw)(copy)
    contract('op.%s.destruct'%nm,['C16'],functions=[F+'destruct'],**kw)(destruct)
    contract('op.%s.equal_to'%nm,['C05'],functions=[F+'equal_to'],**kw)(equal)
    contract('op.%s.hash_code'%nm,['C05'],functions=[F+'hash_code'],**kw)(hash_)
for op in OPS: mk(op)
