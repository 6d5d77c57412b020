"""Contract of an abstract specification (the interface that every user specification implements):

 state at address q (a block of datasize() bytes): ghost id[q] (abstract value), live[q] (constructed and not released),
 cl[q] (the level it was handed out for).
 get_root/get_copy/get_child/destruct/equal_to/hash_code have the typestate preconditions of the DdSpec documentation and
 -1 <= result < level.  A fixed but arbitrary assignment V: level -> branch gives meaning:
   A_k(l,s)  BDD reading:  A(l<0)=true, A(0)=false, A(l,s)=A(child(s,V(l)))
   Z_k(l,s)  ZDD reading from level l on: Z(l,s)=AZ(l-1,child level) and Z(child)   (AZ(a,b): V=0 on levels b+1..a)
 Operations may write any byte of the block they are given and nothing else."""
import z3
from ..run import *
I32=z3.BitVecSort(32)
def b32(n): return bv(n,32)
V=z3.Function('V',I32,I32)                 # the assignment
CN=z3.Function('CN',I32,I32)               # number of levels <= l with V != 0
def mx0(l): return z3.If(l>0,l,b32(0))
def AZ(a,b): return CN(a)==CN(b)
def axioms_V():
    a,b=z3.BitVecs('va vb',32)
    return [z3.ForAll([a,b],z3.Implies(z3.And(a>=b,b>=0),CN(a)>=CN(b)),patterns=[z3.MultiPattern(CN(a),CN(b))])]
def step_V(l): return z3.And(CN(l)==CN(l-1)+z3.If(V(l)!=0,b32(1),b32(0)))

class AbsSpec:
    def __init__(s,ex,name,k,arity=2,unit=False):
        s.unit=unit; s.ex=ex; s.name=name; s.k=k; s.arity=arity
        S=B64; n=str(k)
        s.LV=z3.Function('LV'+n,S,I32,I32,I32); s.NX=z3.Function('NX'+n,S,I32,I32,S)
        s.A_=z3.Function('A'+n,I32,S,z3.BoolSort()); s.Z_=z3.Function('Z'+n,I32,S,z3.BoolSort())
        s.EQ=z3.Function('EQ'+n,S,S,I32,z3.BoolSort()); s.HS=z3.Function('HS'+n,S,I32,B64); s.MG=z3.Function('MG'+n,S,S,I32)
        s.RL=z3.Const('RL'+n,I32); s.RI=z3.Const('RI'+n,S); s.D=z3.ZeroExt(12,z3.BitVec('D'+n,20)); s.W=z3.ZeroExt(46,z3.Extract(20,3,z3.ZeroExt(1,z3.BitVec('D'+n,20))+bv(7,21)))
        if getattr(ex,'bytes',False): s.W=z3.ZeroExt(32,s.D)
        if unit: s.D=b32(0); s.W=bv(0); s.RI=bv(0)
        rx=lambda m:r'^%s::%s\('%(name,m)
        ex.handlers+=[(rx('datasize'),s.h_size),(rx('get_root'),s.h_root),(rx('get_child'),s.h_child),(rx('get_copy'),s.h_copy),(rx('destruct'),s.h_destruct),
          (rx('equal_to'),s.h_eq),(rx('hash_code'),s.h_hash),(rx('merge_states'),s.h_merge),(rx('destructLevel'),s.h_dlevel)]
        ex.specs=getattr(ex,'specs',[])+[s]
    def NX_(s,i,l,b): return bv(0) if s.unit else s.NX(i,l,b)
    def A(s,l,i): return z3.If(l<=0,l!=0,s.A_(l,i))
    def Z(s,l,i): return z3.If(l<=0,l!=0,s.Z_(l,i))
    def F(s,n,l,i): return z3.And(AZ(n,mx0(l)),s.Z(l,i))       # ZDD reading from level n on
    def init(s,st):
        n=str(s.k)
        for g,so in(('id',B64),('live',z3.BoolSort()),('cl',I32)): st.ghost[g+n]=z3.Const('G_%s%s'%(g,n),z3.ArraySort(B64,z3.ArraySort(B64,so)))
        st.assume(s.RL>=-1,s.RL<b32(1<<20))
    def g(s,st,x): return st.ghost[x+str(s.k)]
    def setg(s,st,x,v): st.ghost[x+str(s.k)]=v; s.ex.wrote(('ghost',x+str(s.k)))
    def id(s,st,q): return bv(0) if s.unit else s.g(st,'id')[q.ix[0]][q.el]
    def live(s,st,q): return z3.BoolVal(True) if s.unit else s.g(st,'live')[q.ix[0]][q.el]
    def cl(s,st,q): return s.g(st,'cl')[q.ix[0]][q.el]
    def dead(s,st,q): return z3.BoolVal(True) if s.unit else z3.Not(s.live(st,q))
    def at(s,st,q,l): return z3.BoolVal(True) if s.unit else s.cl(st,q)==l
    def inblock(s,st,q,what):
        ex=s.ex
        if s.unit: return
        if q.fam!='S': raise Unsupported('%s: state outside the modelled blocks'%what)
        alt=[z3.And(q.ix[0]==b,z3.ULE(q.el,bv(1<<30)),z3.ULE(q.el+s.W,n)) for b,n in blks(st)]
        ex.oblige('%s.%s: the state lies inside its block'%(s.name,what),st,z3.And(z3.Not(q.null),z3.Or(alt)),'safety')
    def touch(s,st,q,ident,level,live=None):
        """the operation wrote the block of q: everything overlapping is lost"""
        if s.unit: return
        ex=s.ex; j=z3.BitVec('jt',64); W=s.W; e=q.el; B=q.ix[0]
        def put(outer,cond,name):
            old=outer[B]; new=fresh(name,old.sort())
            st.assume(z3.ForAll([j],z3.Implies(cond,new[j]==old[j]),patterns=[new[j]])); return z3.Store(outer,B,new)
        for off in ex.fams['S'].fields:
            ex.setarr(st,'S',off,put(ex.arr(st,'S',off),z3.Or(z3.ULT(j,e),z3.UGE(j,e+W)),'H_S_%d'%off))
        for o in ex.specs:
            for x in('id','cl','live'):
                apart=z3.Or(z3.ULE(j+o.W,e),z3.ULE(e+W,j))
                if o is s: apart=z3.And(apart,j!=e)
                if x=='live': apart=z3.Or(apart,j!=e) if o is s else z3.BoolVal(True)
                o.setg(st,x,put(o.g(st,x),apart,'H_g%s%d'%(x,o.k)))
        st.assume(s.id(st,q)==ident,s.cl(st,q)==level,s.live(st,q)==(z3.BoolVal(True) if live is None else live))
    # ---- handlers (contracts of the interface functions)
    def h_size(s,ex,st,a,i): return s.D
    def need(s,st,what,c): s.ex.oblige('%s.%s'%(s.name,what),st,c,'pre'); st.assume(c)
    def h_root(s,ex,st,a,i):
        q=a[1]; s.inblock(st,q,'get_root'); s.need(st,'get_root: storage holds no live state',s.dead(st,q))
        s.touch(st,q,s.RI,s.RL); return s.RL
    def h_child(s,ex,st,a,i):
        q,l,b=a[1],a[2],a[3]; s.inblock(st,q,'get_child')
        if z3.is_bool(b): b=b2bv(b,32)
        s.need(st,'get_child: state is live',s.live(st,q)); s.need(st,'get_child: level is the one the state was handed out for',z3.And(l>0,s.at(st,q,l)))
        s.need(st,'get_child: branch is in range',z3.And(b>=0,b<s.arity))
        ident=s.id(st,q); r=s.LV(ident,l,b); ni=s.NX_(ident,l,b)
        st.assume(*s.meaning(ident,l,b)); s.touch(st,q,ni,r); return r
    def meaning(s,ident,l,b):
        r=s.LV(ident,l,b); ni=s.NX_(ident,l,b)
        return [r>=-1,r<l,V(l)>=0,V(l)<s.arity,z3.Implies(b==V(l),s.A(l,ident)==s.A(r,ni)),z3.Implies(b==V(l),s.Z(l,ident)==z3.And(AZ(l-1,mx0(r)),s.Z(r,ni))),step_V(l)]
    def h_copy(s,ex,st,a,i):
        t,q=a[1],a[2]; s.inblock(st,t,'get_copy'); s.inblock(st,q,'get_copy')
        s.need(st,'get_copy: source is live',s.live(st,q)); s.need(st,'get_copy: target storage holds no live state',s.dead(st,t))
        ident,l=s.id(st,q),(None if s.unit else s.cl(st,q)); s.touch(st,t,ident,l); return None
    def h_destruct(s,ex,st,a,i):
        q=a[1]; s.inblock(st,q,'destruct'); s.need(st,'destruct: state is live',s.live(st,q))
        s.touch(st,q,fresh('dead',B64),fresh('dl',I32),z3.BoolVal(False)); return None
    def h_eq(s,ex,st,a,i):
        p,q,l=a[1],a[2],a[3]; s.inblock(st,p,'equal_to'); s.inblock(st,q,'equal_to')
        s.need(st,'equal_to: both states are live',z3.And(s.live(st,p),s.live(st,q))); s.need(st,'equal_to: both states belong to that level',z3.And(l>0,s.at(st,p,l),s.at(st,q,l)))
        x,y=s.id(st,p),s.id(st,q); r=s.EQ(x,y,l); st.assume(z3.Implies(r,z3.And(s.A(l,x)==s.A(l,y),s.Z(l,x)==s.Z(l,y),s.HS(x,l)==s.HS(y,l)))); return r
    def h_hash(s,ex,st,a,i):
        p,l=a[1],a[2]; s.inblock(st,p,'hash_code'); s.need(st,'hash_code: state is live',s.live(st,p)); s.need(st,'hash_code: state belongs to that level',z3.And(l>0,s.at(st,p,l)))
        return s.HS(s.id(st,p),l)
    def h_merge(s,ex,st,a,i):
        p,q=a[1],a[2]; s.inblock(st,p,'merge_states'); s.inblock(st,q,'merge_states'); s.need(st,'merge_states: both states are live',z3.And(s.live(st,p),s.live(st,q)))
        r=s.MG(s.id(st,p),s.id(st,q)); st.assume(z3.Or(r==0,r==1,r==2)); return r
    def h_dlevel(s,ex,st,a,i): return None

def state_family(ex,bytes=False):
    """state blocks in units of words (level fields are then visible) or of bytes"""
    ex.bytes=bytes; ex.fams['S']=Fam('S',1,{0:FInt(8)},nix=1) if bytes else Fam('S',8,{0:FInt(32),4:FInt(32)},nix=1)
def blks(st): return st.ghost.get('#blocks',())
def block(n): return Ptr('S',(bv(n),))
def add_block(ex,st,p,tot):
    """the state block p points to the begin of, of tot words"""
    if p.fam!='S' or not is_zero(p.el) or not is_zero(bv(p.off)): raise Unsupported('state block')
    st.assume(z3.ULT(tot,bv(1<<24))); st.ghost['#blocks']=blks(st)+((p.ix[0],tot),)
