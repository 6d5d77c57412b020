"""Adapters (op/Lookahead.hpp, op/Unreduction.hpp): C06, C16.  The adapted specification is arbitrary (see _absspec)."""
from ._absspec import *
KIND={'bl':('BddLookahead','A',False),'zl':('ZddLookahead','Z',False),'bu':('BddUnreduction','A',True),'zu':('ZddUnreduction','Z',True)}
ROOTS=['vf_%s%d_%s'%(o,k,f) for o in KIND for k in(2,3) for f in 'root child copy destruct equal hash merge'.split()]
ASM=['adapted specifications satisfy the documented DdSpec interface (result level below the argument level, equal states have equal futures and hashes, operations touch only their own state)',
     'operator new returns storage disjoint from every other block']
kw=dict(harness='adapt.cpp',roots=ROOTS,assume=ASM)
class Blk: pass
def setup(ex,kind,ar,unit):
    st=State(); by=not KIND[kind][2]; state_family(ex,by); un=(lambda n:n) if by else (lambda n:z3.LShR(n+7,3))
    s1=AbsSpec(ex,'Spec1' if ar==2 else 'Spec3',1,ar,unit=unit); s1.init(st)
    ex.axioms+=axioms_V(); ex.fams['a']=Fam('a',1,{},cell=True)
    if not unit: st.assume(s1.D>0)
    def rec(ex,st,a):
        b=Blk(); size,b.l,b.q,b.p=a; b.size=size
        if not unit or KIND[kind][2]: add_block(ex,st,b.p,un(z3.ZeroExt(32,size)))
        st.ghost['#b']=st.ghost.get('#b',())+(b,); return b
    def pre(ex,st,a,i): ex.on_pre(st,rec(ex,st,a)); return None
    def mid(ex,st,a,i): (ex.on_mid or ex.on_pre)(st,rec(ex,st,a)); return None
    def post(ex,st,a,i):
        b=Blk(); b.l,b.q,b.p=a; st.ghost['#post']=st.ghost.get('#post',())+(b,); return None
    def new(ex,st,a,i):
        n=ex.toint(a[0]); k=ex.nblk=getattr(ex,'nblk',10)+1; p=block(k); add_block(ex,st,p,un(n))
        st.assume(s1.dead(st,p)); ex.fams['S'].fresh=True; return p
    def delete(ex,st,a,i):
        p=a[0]
        if p.fam=='S' and not unit: ex.oblige('work area released with no live state in it',st,z3.Or(p.null,s1.dead(st,p)),'safety')
        return None
    def memset(ex,st,a,i): return None          # contents of fresh work areas are never assumed
    ex.handlers+=[('^@vf_pre$',pre),('^@vf_mid$',mid),('^@vf_post$',post),(r'^@_Zn[wa]m',new),(r'^@_Zd[la]Pv',delete)]
    if not KIND[kind][2]: ex.handlers.append((r'^@llvm\.memset',memset))
    ex.on_mid=None
    return st,s1
TOPV=z3.BitVec('top',32)
def fun(rd,s1,l,i,top): return s1.A(l,i) if rd=='A' else s1.F(top,l,i)
def redundant(rd,s1,ar,l,i):
    if rd=='Z': return z3.And([s1.LV(i,l,b32(b))==0 for b in range(1,ar)])
    L0,N0=s1.LV(i,l,b32(0)),s1.NX_(i,l,b32(0))
    return z3.And([z3.And(L0==s1.LV(i,l,b32(b)),z3.Or(L0<=0,s1.EQ(N0,s1.NX_(i,l,b32(b)),L0))) for b in range(1,ar)])

def mk(kind,ar,unit):
    nm,rd,unr=KIND[kind]; V_='@vf_%s%d_'%(kind,ar)
    def inv(s1,st,b,lev):
        if unr: return [s1.live(st,b.q),b.l>=-1,b.l<=lev,b.l!=0,z3.Implies(b.l>0,s1.at(st,b.q,b.l))]
        return [s1.live(st,b.q),s1.at(st,b.q,lev)]
    def lv(b,r): return b.l if unr else r
    def nv(ex): return [z3.BitVec('numVars',32)] if unr else []
    def cands(ex,s1):
        def f(le):
            st=le.st; b=st.ghost['#b'][0]; i=s1.id(st,b.q); out=[('state live',s1.live(st,b.q))]
            for k,(B,n) in enumerate(blks(st)):
                if z3.is_bv_value(B) and B.as_long()>10: out.append(('work area %d free'%k,s1.dead(st,Ptr('S',(B,)))))
            for n,x in le.ints(32):
                out+=[(n+' is the level of the state',z3.Implies(x>0,s1.at(st,b.q,x))),(n+'>=-1',x>=-1),(n+'<=top',x<=TOPV),
                      ('function of %s unchanged'%n,ex.want==fun(rd,s1,x,i,TOPV))]
            return out
        return f
    def post_common(ex,s1,s,r,want,maxlev):
        b=s.ghost['#post'][0]; i=s1.id(s,b.q)
        s.assume(CN(TOPV)==CN(TOPV),CN(mx0(r))==CN(mx0(r)),CN(mx0(b.l))==CN(mx0(b.l)))
        out=[('state stays initialised',s1.live(s,b.q))]+[('state handed out belongs to the level (%d)'%k,z3.Implies(r>0,c)) for k,c in enumerate(inv(s1,s,b,r))]
        top=TOPV
        out+=[('result is a level',z3.And(r>=-1,r<=maxlev)),('0 only for rejection',z3.Implies(r==0,z3.Not(want))),
              ('-1 only for acceptance',z3.Implies(r<0,want==(z3.BoolVal(True) if rd=='A' else AZ(top,b32(0))))),
              ('state means the same function',z3.Implies(r>0,want==(fun(rd,s1,lv(b,r),i,top))))]
        if not unr: out.append(('never hands out a state that is immediately redundant',z3.Implies(r>0,z3.Not(redundant(rd,s1,ar,r,i)))))
        return out
    def root(ex):
        st,s1=setup(ex,kind,ar,unit); ex.want=fun(rd,s1,s1.RL,s1.RI,TOPV); n=nv(ex)
        mxv=s1.RL
        if unr: st.assume(n[0]>=0,n[0]<b32(1<<20)); mxv=z3.If(n[0]>s1.RL,n[0],s1.RL)
        st.assume(TOPV==mx0(mxv)); ex.on_pre=lambda st,b: st.assume(s1.dead(st,b.q))
        ex.cands=cands(ex,s1)
        outs=ex.run_func(ex.mod.funcs[V_+'root'],[Ptr('a')]+n+[block(1)],st)
        def post(s,r):
            out=post_common(ex,s1,s,r,ex.want,TOPV)
            if unr: out+=[('root level is explicit',r==z3.If(s1.RL==0,b32(0),z3.If(TOPV>0,TOPV,b32(-1))))]
            return out
        finish(ex,outs,post)
    def child(ex):
        st,s1=setup(ex,kind,ar,unit); lev=z3.BitVec('level',32); t=z3.BitVec('take',32); n=nv(ex)
        st.assume(lev>0,lev<b32(1<<20),t>=0,t<ar,V(lev)==t,step_V(lev),TOPV==lev-1)
        def on_pre(st,b):
            st.assume(*inv(s1,st,b,lev)); i=s1.id(st,b.q); l=lv(b,lev)
            # value of the combined state under V: below level lev for the branch taken, V(lev)=t
            ex.want=fun(rd,s1,l,i,lev)
            if not unr:
                L,N=s1.LV(i,lev,t),s1.NX_(i,lev,t); st.assume(*s1.meaning(i,lev,t)); ex.want=fun(rd,s1,L,N,TOPV)
        ex.on_pre=on_pre; ex.cands=cands(ex,s1)
        outs=ex.run_func(ex.mod.funcs[V_+'child'],[Ptr('a')]+n+[block(1),lev,t],st)
        def post(s,r):
            out=post_common(ex,s1,s,r,ex.want,lev-1)
            if unr: out+=[('no level is skipped',z3.Or(r==0,r==lev-1,z3.And(lev==1,r==-1)))]
            return out
        finish(ex,outs,post)
    def copy(ex):
        st,s1=setup(ex,kind,ar,unit); lev=z3.BitVec('level',32); st.assume(lev>0); n=nv(ex)
        ex.on_pre=lambda st,b: st.assume(*inv(s1,st,b,lev)); ex.on_mid=lambda st,b: st.assume(s1.dead(st,b.q))
        outs=ex.run_func(ex.mod.funcs[V_+'copy'],[Ptr('a')]+n+[block(1),block(2)],st)
        def post(s,r):
            b0=s.ghost['#b'][0]; out=[]
            for m,b in zip(('copy','original'),s.ghost['#post']):
                out+=[('%s: state'%m,s1.id(s,b.q)==s1.id(st,b0.q))]+[('%s: invariant (%d)'%(m,k),c) for k,c in enumerate(inv(s1,s,b,lev))]
                if unr: out+=[('%s: level'%m,b.l==b0.l)]
            return out
        finish(ex,outs,post)
    def destruct(ex):
        st,s1=setup(ex,kind,ar,unit); ex.on_pre=lambda st,b: st.assume(s1.live(st,b.q))
        outs=ex.run_func(ex.mod.funcs[V_+'destruct'],[Ptr('a')]+nv(ex)+[block(1)],st)
        finish(ex,outs,lambda s,r:[('state is released',s1.dead(s,s.ghost['#post'][0].q))])
    def equal(ex):
        st,s1=setup(ex,kind,ar,unit); lev=z3.BitVec('level',32); st.assume(lev>0,lev<b32(1<<20))
        ex.on_pre=lambda st,b: st.assume(*inv(s1,st,b,lev))
        outs=ex.run_func(ex.mod.funcs[V_+'equal'],[Ptr('a')]+nv(ex)+[block(1),block(2),lev],st)
        def post(s,r):
            p,q=s.ghost['#b'][:2]; r=r if z3.is_bool(r) else r!=0
            return [('equal states have equal futures',z3.Implies(r,fun(rd,s1,lv(p,lev),s1.id(s,p.q),lev)==fun(rd,s1,lv(q,lev),s1.id(s,q.q),lev)))]
        finish(ex,outs,post)
    def hash_(ex):
        st,s1=setup(ex,kind,ar,unit); lev=z3.BitVec('level',32); st.assume(lev>0,lev<b32(1<<20)); n=nv(ex)
        ex.on_pre=lambda st,b: st.assume(*inv(s1,st,b,lev))
        outs=[]
        for o in ex.run_func(ex.mod.funcs[V_+'hash'],[Ptr('a')]+n+[block(1),lev],st):
            if o[0]!='ret': continue
            for o2 in ex.run_func(ex.mod.funcs[V_+'equal'],[Ptr('a')]+n+[block(1),block(2),lev],o[1].copy()):
                if o2[0]!='ret': continue
                e=o2[2] if z3.is_bool(o2[2]) else o2[2]!=0; s=o2[1].copy(); s.assume(e)
                if not ex.feasible(s.pc): continue
                for o3 in ex.run_func(ex.mod.funcs[V_+'hash'],[Ptr('a')]+n+[block(2),lev],s):
                    if o3[0]=='ret': outs.append(('ret',o3[1],(o[2],o3[2])))
        finish(ex,outs,lambda s,r:[('states that compare equal have equal hash codes',r[0]==r[1])])
    def merge(ex):
        st,s1=setup(ex,kind,ar,unit); ex.on_pre=lambda st,b: st.assume(s1.live(st,b.q))
        outs=ex.run_func(ex.mod.funcs[V_+'merge'],[Ptr('a')]+nv(ex)+[block(1),block(2)],st)
        def post(s,r):
            p,q=s.ghost['#b'][:2]; return [('merge decision is the specification\'s',r==s1.MG(s1.id(s,p.q),s1.id(s,q.q)))]
        finish(ex,outs,post)
    sfx='%d%s'%(ar,'.stateless' if unit else '')
    for f,fn,ps in(('get_root',root,['C06','C16']),('get_child',child,['C06','C16']),('get_copy',copy,['C16']),('destruct',destruct,['C16']),('equal_to',equal,['C06']),('hash_code',hash_,['C06']),('merge_states',merge,['C16'])):
        if unit and f not in('get_root','get_child'): continue
        if ar==3 and f in('get_copy','destruct','equal_to','hash_code','merge_states'): continue
        contract('adapt.%s.%s.%s'%(nm,f,sfx),[p for p in ps if not(unit and p=='C16')],functions=['%s<arity %d>::%s%s'%(nm,ar,f,' (datasize 0)' if unit else '')],**kw)(fn)
for kind in KIND:
    for ar in(2,3): mk(kind,ar,False)
    mk(kind,2,True)
