"""Verification-condition generator: modular symbolic execution of LLVM IR with contracts.

 * loops are cut at their headers; the invariant is the largest inductive subset (Houdini) of the
   candidate predicates that the contract supplies for the loop's carried variables, so that it is
   found again after harmless edits (renamed/reordered/rotated/split loops);
 * calls to functions under contract are replaced by their contract (handler), everything else is
   inlined by the normalisation pass or interpreted in place;
 * integers are exact bit-vectors; memory is a set of typed families (see Fam) of SMT arrays.
"""
import z3, time, re, itertools
from . import ir, qi

class Unsupported(Exception): pass
class Vacuous(Exception): pass
B64=z3.BitVecSort(64)
def bv(n,w=64): return z3.BitVecVal(n,w)
_cnt=itertools.count()
def fresh(name,sort): return z3.Const('v_%s!%d'%(name,next(_cnt)) if not name[:2] in('H_','M_') else '%s!%d'%(name,next(_cnt)),sort)

class Ptr:
    """pointer = family (string), index tuple, element index (BV64), constant byte offset inside the
    element, null condition"""
    __slots__=('fam','ix','el','off','null')
    def __init__(s,fam,ix=(),el=None,off=0,null=None):
        s.fam=fam; s.ix=tuple(ix); s.el=bv(0) if el is None else el; s.off=off
        s.null=z3.BoolVal(False) if null is None else null
    def with_(s,**k):
        p=Ptr(s.fam,s.ix,s.el,s.off,s.null)
        for a,b in k.items(): setattr(p,a,b)
        return p
    def __repr__(s): return '&%s%s[%s]+%d'%(s.fam,list(s.ix),s.el,s.off)
NULL=Ptr(None,null=z3.BoolVal(True))

class Scaled:
    """integer value known to be term*size (pointer difference)"""
    __slots__=('t','k')
    def __init__(s,t,k): s.t=t;s.k=k
class PtrInt:
    __slots__=('p',)
    def __init__(s,p): s.p=p

class Fam:
    """family of arrays. esize: bytes per element. fields: off -> Field. nix: number of family indices.
    length(st,ix) -> BV64 number of elements (for bounds obligations) or None."""
    def __init__(s,name,esize,fields,nix=0,length=None,cell=False,lazy=None):
        s.name=name;s.esize=esize;s.fields=fields;s.nix=nix;s.length=length;s.cell=cell;s.lazy=lazy
class FInt:
    def __init__(s,w): s.w=w; s.sort=z3.BitVecSort(w)
class FOwn:
    """owning pointer: always to element 0 of family `to` at index ixf(ix,el); may be null if nullable
    (then a Boolean array keeps the null flag)"""
    def __init__(s,to,ixf,nullable=False): s.to=to;s.ixf=ixf;s.w=64;s.nullable=nullable; s.sort=z3.BoolSort()
class FRef:
    """non-owning pointer into family `to` at index ixf(ix,el); stored as BV64 element+1, 0 = null"""
    def __init__(s,to,ixf=lambda ix,el:()): s.to=to;s.ixf=ixf;s.w=64; s.sort=B64

def arr_sort(fam,f):
    so=z3.ArraySort(B64,f.sort)
    for _ in range(fam.nix): so=z3.ArraySort(B64,so)
    return so
def sel(a,ix,el):
    for i in ix: a=z3.Select(a,i)
    return z3.Select(a,el)
def sto(a,ix,el,v):
    if not ix: return z3.Store(a,el,v)
    return z3.Store(a,ix[0],sto(z3.Select(a,ix[0]),ix[1:],el,v))

class State:
    def __init__(s): s.pc=[]; s.mem={}; s.cells={}; s.ghost={}
    def copy(s):
        t=State(); t.pc=list(s.pc); t.mem=dict(s.mem); t.cells=dict(s.cells); t.ghost=dict(s.ghost); return t
    def assume(s,*c): s.pc.extend(c)

class Obl:
    def __init__(s,name,pc,goal,kind): s.name=name;s.pc=pc;s.goal=goal;s.kind=kind;s.status=None;s.time=0;s.model=None

class LoopEnv:
    """what candidates see at a loop header"""
    def __init__(s,ex,f,header,st,phis,entry_st,entry_phis,env,key):
        s.ex=ex;s.f=f;s.header=header;s.st=st;s.phi=phis;s.entry=entry_st;s.phi0=entry_phis;s.env=env;s.key=key
        if getattr(ex,'cell_carried',False):
            # memory cells written in the loop are carried variables too
            s.phi=dict(phis); s.phi0=dict(entry_phis)
            for k in sorted(ex.stats.get(('mod',)+key,())):
                if ex.cell_carried is not True and not ex.cell_carried(k): continue
                v,v0=st.cells.get(k),entry_st.cells.get(k)
                if v is None or v0 is None or not (z3.is_bv(v) and z3.is_bv(v0) and v.size()==v0.size() or isinstance(v,Ptr) and isinstance(v0,Ptr) and v.fam==v0.fam and v.fam is not None): continue
                s.phi['%s+%d'%k]=v; s.phi0['%s+%d'%k]=v0
    def entry_env(s):
        """values that were defined before the loop was entered (the same at entry, header and back edges)"""
        return [(n,v) for n,v in s.ex.stats.get(('env0',)+s.key,{}).items()]
    def ints(s,w=None): return [(n,v) for n,v in s.phi.items() if z3.is_bv(v) and (w is None or v.size()==w)]
    def counters(s,w=None):
        """those integers that (or whose next values) take part in a comparison; all if there is none"""
        ops=set(); nx={}; loc=lambda v:v[1] if v and v[0]=='loc' else None
        for b in s.f.blocks.values():
            for i in b.insts:
                if i.op=='icmp': ops|={loc(i.a['x']),loc(i.a['y'])}
            for i in b.phis: nx[i.res]={loc(v) for v,_ in i.a['inc']}
        ops.discard(None); r=[(n,v) for n,v in s.ints(w) if n in ops or nx.get(n,set())&ops]
        return r or s.ints(w)
    def bools(s): return [(n,v) for n,v in s.phi.items() if z3.is_bool(v)]
    def ptrs(s,fam=None): return [(n,v) for n,v in s.phi.items() if isinstance(v,Ptr) and (fam is None or v.fam==fam)]

class Exec:
    def __init__(s,mod,fams=(),handlers=None,cands=None,axioms=(),timeout=8000,log=None,name=''):
        s.memo={}; s.use_memo=True; s.visits={}; s.ctxkey=()
        s.mod=mod; s.fams={f.name:f for f in fams}; s.handlers=list(handlers or []); s.cands=cands
        s.axioms=list(axioms); s.timeout=timeout; s.obls=[]; s.rec=True; s.written=None; s.init_cells={}
        s.loopinfo={}; s.name=name; s.solver_time=0.0; s.nqueries=0; s.depth=0; s.throws=[]; s.stats={}
        s.lemma_inst=None; s.generic_frame=True; s.cache={}; s.maxpaths=4000; s.npaths=0; s.houdini_to=3000; s.hints=None; s.used_inv={}; s.check_bounds=True
        s.xm={}; s.fid=itertools.count(); s.deadline=None; s.gaveup=[]; s.tmul=1
    # ---------- solver
    def check(s,pc,goal,to=None):
        """returns 'unsat' (valid) / 'sat' / 'unknown', model"""
        if s.deadline and time.time()>s.deadline: raise Unsupported('time budget of this function exhausted')
        t=time.time(); r,m=qi.prove(s.axioms,pc,goal,to or s.timeout); s.solver_time+=time.time()-t; s.nqueries+=1
        return r,m
    def check_many(s,pc,goals):
        if s.deadline and time.time()>s.deadline: raise Unsupported('time budget of this function exhausted')
        t=time.time(); ok,n=qi.prove_many(s.axioms,pc,goals,s.timeout*s.tmul,per=2500*s.tmul,unkd=s.gaveup); s.solver_time+=time.time()-t; s.nqueries+=n
        return ok
    def feasible(s,pc):
        so=z3.Solver(); so.set('timeout',1500)
        for c in pc:
            if not has_q(c): so.add(c)
        t=time.time(); r=so.check(); s.solver_time+=time.time()-t; s.nqueries+=1
        return r!=z3.unsat
    def oblige(s,name,st,goal,kind='post'):
        if not s.rec: return
        s.obls.append(Obl(name,list(st.pc),goal,kind))
    # ---------- memory
    def famof(s,p):
        if p.fam is None: raise Unsupported('null/unknown pointer dereference')
        return s.fams[p.fam]
    def alloc_cell(s,name,size,lazy=None):
        nm='cell:%s:%d'%(name,next(s.fid)); s.fams[nm]=Fam(nm,size,{},cell=True,lazy=lazy); return Ptr(nm)
    def memget(s,st,fam,off):
        k=(fam.name,off)
        if k not in st.mem:
            if k not in s.cache: s.cache[k]=z3.Const('M_%s_%d'%k,arr_sort(fam,fam.fields[off]))
            st.mem[k]=s.cache[k]
        return st.mem[k]
    def arr(s,st,fam,off=0): return s.memget(st,s.fams[fam],off)
    def get(s,st,fam,ix,el,off=0): return sel(s.arr(st,fam,off),tuple(ix),el)
    def setarr(s,st,fam,off,a): st.mem[(fam,off)]=a; s.wrote((fam,off))
    def wrote(s,k):
        if s.written is not None: s.written.add(k)
    def bounds(s,st,p,fam,what):
        nz=z3.simplify(p.null)
        if not z3.is_false(nz): s.oblige('%s: pointer not null (%s)'%(what,fam.name),st,z3.Not(p.null),'safety'); st.assume(z3.Not(p.null))
        if fam.length is not None and s.check_bounds:
            g=z3.ULT(p.el,fam.length(st,p.ix))
            s.oblige('%s: %s in bounds'%(what,fam.name),st,g,'safety')
    def norm(s,p,fam):
        """fold constant offset beyond the element into el"""
        if fam.cell: return p
        k,off=divmod(p.off,fam.esize)
        if k: p=p.with_(el=p.el+bv(k),off=off)
        return p
    def load(s,st,p,ty,inst=None):
        fam=s.famof(p)
        if fam.cell:
            if not is_zero(p.el): raise Unsupported('symbolic index into cell '+fam.name)
            k=(fam.name,p.off)
            if k in st.cells:
                v=st.cells[k]
                return s.coerce(v,ty,st,fam,p)
            return s.cell_default(st,fam,p.off,ty)
        p=s.norm(p,fam); s.bounds(st,p,fam,'load')
        if p.off not in fam.fields:
            # narrower access inside a field?
            for o,f in fam.fields.items():
                if o<p.off<o+f.w//8 and isinstance(f,FInt) and ty.k=='int':
                    v=sel(s.memget(st,fam,o),p.ix,p.el); b=(p.off-o)*8
                    return z3.Extract(b+ty.a-1,b,v)
            raise Unsupported('no field %d in %s'%(p.off,fam.name))
        f=fam.fields[p.off]; v=sel(s.memget(st,fam,p.off),p.ix,p.el)
        if isinstance(f,FInt):
            w=s.mod.size(ty)*8
            if ty.k=='ptr': raise Unsupported('pointer load from int field %s+%d'%(fam.name,p.off))
            if w<f.w: v=z3.Extract(w-1,0,v)
            elif w>f.w:
                o=p.off; tot=f.w
                while tot<w:
                    f2=fam.fields[p.off+tot//8]; v=z3.Concat(sel(s.memget(st,fam,p.off+tot//8),p.ix,p.el),v); tot+=f2.w
                if tot!=w: raise Unsupported('wide load')
            return z3.Extract(0,0,v)==1 if ty.a==1 else v
        if isinstance(f,FOwn):
            return Ptr(f.to,f.ixf(p.ix,p.el),null=(v if f.nullable else None))
        if isinstance(f,FRef):
            return Ptr(f.to,f.ixf(p.ix,p.el),el=v-bv(1),null=(v==bv(0)))
        raise Unsupported('load')
    def coerce(s,v,ty,st,fam,p):
        if isinstance(v,Ptr):
            if ty.k!='ptr': raise Unsupported('int load of pointer cell')
            return v
        if ty.k=='int' and z3.is_bv(v):
            if ty.a==1: return z3.Extract(0,0,v)==1
            if v.size()==s.mod.size(ty)*8 or v.size()==ty.a: return v
            if v.size()>ty.a: return z3.Extract(ty.a-1,0,v)
            # wider: concat following cells
            w=v.size(); o=p.off
            while w<ty.a:
                k=(fam.name,o+w//8)
                if k not in st.cells: raise Unsupported('wide load of cell %s+%d'%k)
                x=st.cells[k]
                if z3.is_bool(x): x=b2bv(x,8)
                v=z3.Concat(x,v); w=v.size()
            return v
        if z3.is_bool(v):
            if ty.a==1: return v
            return b2bv(v,ty.a)
        if ty.k=='ptr' and z3.is_bv(v):
            if z3.is_bv_value(v) and v.as_long()==0: return NULL
        if isinstance(v,(PtrInt,)) and ty.k=='ptr': return v.p
        return v
    def cell_default(s,st,fam,off,ty):
        # narrower access inside an existing wider cell
        for o in range(off-1,max(-1,off-8),-1):
            v=st.cells.get((fam.name,o))
            if v is not None and z3.is_bv(v) and o+v.size()//8>off:
                b=(off-o)*8; w=s.mod.size(ty)*8
                return z3.Extract(b+w-1,b,v)
        k=(fam.name,off)
        if k not in s.init_cells:
            v=None
            if fam.lazy: v=fam.lazy(off,ty)
            if v is None:
                if ty.k=='int': v=fresh('%s_%d'%(fam.name,off),z3.BitVecSort(8*s.mod.size(ty)))
                elif ty.k in('double','float'): v=('fp',fresh('fp',z3.RealSort()))
                else: raise Unsupported('uninitialised pointer cell %s+%d'%k)
            s.init_cells[k]=v
        st.cells[k]=s.init_cells[k]
        return s.coerce(st.cells[k],ty,st,fam,Ptr(fam.name,off=off))
    def store(s,st,p,ty,v):
        fam=s.famof(p)
        if fam.cell:
            if not is_zero(p.el): raise Unsupported('symbolic store into cell')
            w=s.mod.size(ty)
            if ty.k in('arr','struct'):
                raise Unsupported('aggregate store')
            if z3.is_bool(v): v=b2bv(v,8)
            # invalidate overlapping
            for o in range(p.off-7,p.off+w):
                if o!=p.off and (fam.name,o) in st.cells:
                    old=st.cells[(fam.name,o)]; ow=cellw(old)
                    if o+ow>p.off and o<p.off:
                        if z3.is_bv(old) and z3.is_bv(v) and o+ow>=p.off+w:
                            hi=ow*8; parts=[]
                            lo=(p.off-o)*8; up=lo+w*8
                            if up<hi: parts.append(z3.Extract(hi-1,up,old))
                            parts.append(v); parts.append(z3.Extract(lo-1,0,old))
                            st.cells[(fam.name,o)]=z3.Concat(*parts); s.wrote((fam.name,o)); return
                        del st.cells[(fam.name,o)]; raise Unsupported('overlapping store')
                    elif p.off<o<p.off+w: del st.cells[(fam.name,o)]
            old=st.cells.get((fam.name,p.off))
            if old is not None and z3.is_bv(old) and z3.is_bv(v) and old.size()>v.size():
                v=z3.Concat(z3.Extract(old.size()-1,v.size(),old),v)
            st.cells[(fam.name,p.off)]=v; s.wrote((fam.name,p.off)); return
        p=s.norm(p,fam); s.bounds(st,p,fam,'store')
        if p.off not in fam.fields: raise Unsupported('no field %d in %s'%(p.off,fam.name))
        f=fam.fields[p.off]
        if isinstance(f,FInt):
            if isinstance(v,(PtrInt,Scaled)): v=s.toint(v)
            if isinstance(v,Ptr): raise Unsupported('pointer stored into int field %s+%d'%(fam.name,p.off))
            if z3.is_bool(v): v=b2bv(v,f.w if f.w<=8 else 8)
            w=v.size()
            if w<f.w:
                old=sel(s.memget(st,fam,p.off),p.ix,p.el); v=z3.Concat(z3.Extract(f.w-1,w,old),v)
            elif w>f.w:
                o=0
                while o<w:
                    f2=fam.fields[p.off+o//8]
                    st.mem[(fam.name,p.off+o//8)]=sto(s.memget(st,fam,p.off+o//8),p.ix,p.el,z3.Extract(o+f2.w-1,o,v)); s.wrote((fam.name,p.off+o//8)); o+=f2.w
                return
            st.mem[(fam.name,p.off)]=sto(s.memget(st,fam,p.off),p.ix,p.el,v); s.wrote((fam.name,p.off)); return
        if isinstance(f,FRef):
            if not isinstance(v,Ptr): raise Unsupported('int stored to ref field')
            if v.fam is None: t=bv(0)
            else:
                if v.fam!=f.to: raise Unsupported('ref store to wrong family %s->%s'%(v.fam,f.to))
                for a,b in zip(v.ix,f.ixf(p.ix,p.el)): s.oblige('stored reference points into the expected table',st,a==b,'safety')
                t=z3.If(v.null,bv(0),v.el+bv(1))
            st.mem[(fam.name,p.off)]=sto(s.memget(st,fam,p.off),p.ix,p.el,z3.simplify(t)); s.wrote((fam.name,p.off)); return
        raise Unsupported('store to %s+%d'%(fam.name,p.off))
    # ---------- values
    def val(s,env,v,ty,st):
        k=v[0]
        if k=='loc':
            if v[1] not in env: raise Unsupported('undefined '+v[1])
            return env[v[1]]
        if k=='int':
            if ty.k=='ptr': raise Unsupported('int ptr')
            if ty.a==1: return z3.BoolVal(v[1]!=0)
            return bv(v[1],ty.a)
        if k=='null': return NULL
        if k in('undef','poison'):
            if ty.k=='int': return fresh('undef',z3.BoolSort() if ty.a==1 else z3.BitVecSort(ty.a))
            if ty.k=='ptr': return NULL
            t=s.mod.resolve(ty)
            if t.k=='struct': return tuple(s.val(env,v,x,st) for x in t.a)
            return None
        if k=='zeroinitializer':
            t=s.mod.resolve(ty)
            if t.k=='int': return bv(0,t.a)
            if t.k=='struct': return tuple(s.val(env,v,x,st) for x in t.a)
            if t.k=='ptr': return NULL
        if k=='glob':
            nm='glob:'+v[1]
            if nm not in s.fams: s.fams[nm]=Fam(nm,0,{},cell=True)
            return Ptr(nm)
        if k=='cgep':
            p=s.val(env,v[2],ir.Ty('ptr'),st); return s.gep(env,st,p,v[1],v[3])
        if k=='fp': return ('fp',v[1])
        if k=='agg': return tuple(s.val(env,x,t,st) for t,x in v[1])
        raise Unsupported('value %r'%(v,))
    def toint(s,v):
        if isinstance(v,Scaled): return v.t*bv(v.k)
        if isinstance(v,PtrInt):
            p=v.p
            if p.fam is None: return bv(0)
            f=s.fams[p.fam]
            base=z3.Const('base_'+re.sub(r'\W','_',p.fam),B64) if not p.ix else z3.Function('base_'+p.fam,*([B64]*len(p.ix)),B64)(*p.ix)
            return base+p.el*bv(f.esize)+bv(p.off)
        return v
    def gep(s,env,st,p,bt,ix):
        if p.fam is None:
            r=p
            for it,iv in ix:
                x=s.val(env,iv,it,st)
                if not is_zero(x): raise Unsupported('gep on null')
            return p
        fam=s.fams[p.fam]; cur=bt; first=True
        for it,iv in ix:
            x=s.val(env,iv,it,st)
            if isinstance(x,(Scaled,PtrInt)): x=s.toint(x)
            if first: size=s.mod.size(bt); first=False
            else:
                t=s.mod.resolve(cur)
                if t.k=='struct':
                    o,cur=s.mod.field(t,x.as_long()); p=p.with_(off=p.off+o); continue
                elif t.k=='arr': cur=t.b; size=s.mod.size(cur)
                else: raise Unsupported('gep type')
            if z3.is_bv(x) and x.size()<64: x=z3.SignExt(64-x.size(),x)
            x=z3.simplify(x)
            if z3.is_bv_value(x):
                n=x.as_signed_long()*size
                if not fam.cell and n%fam.esize==0: p=p.with_(el=z3.simplify(p.el+bv(n//fam.esize)))
                else: p=p.with_(off=p.off+n)
            elif not fam.cell and size%fam.esize==0:
                p=p.with_(el=z3.simplify(p.el+(x if size==fam.esize else x*bv(size//fam.esize))))
            elif not fam.cell and size<fam.esize:
                # element address computed in smaller units, e.g. bytes: x must be k*esize
                d=divide_term(x,fam.esize//size) if fam.esize%size==0 else None
                if d is not None: p=p.with_(el=z3.simplify(p.el+d))
                else: raise NeedSplit(x,size)
            else: raise NeedSplit(x,size)
        return s.norm(p,fam) if not fam.cell else p
    def ptrcmp(s,pred,x,y):
        if x.fam is None or y.fam is None:
            a,b=(x,y) if y.fam is None else (y,x)
            e=a.null if a.fam is not None else z3.BoolVal(True)
            if pred=='eq': return e
            if pred=='ne': return z3.Not(e)
            raise Unsupported('order compare with null')
        if x.fam!=y.fam:
            both=z3.And(x.null,y.null)
            if pred=='eq': return both
            if pred=='ne': return z3.Not(both)
            raise Unsupported('pointer comparison across objects %s %s'%(x.fam,y.fam))
        f=s.fams[x.fam]; x=s.norm(x,f); y=s.norm(y,f)
        same=z3.And(*[a==b for a,b in zip(x.ix,y.ix)]) if x.ix else z3.BoolVal(True)
        eq=z3.And(same,x.el==y.el) if x.off==y.off else z3.BoolVal(False)
        nn=z3.And(z3.Not(x.null),z3.Not(y.null))
        if pred in('eq','ne'):
            e=z3.simplify(z3.Or(z3.And(nn,eq),z3.And(x.null,y.null)))
            return e if pred=='eq' else z3.Not(e)
        # order: elements are signed offsets from the object base (one-before-begin allowed)
        lt=x.el<y.el if x.off==y.off else z3.Or(x.el<y.el,z3.And(x.el==y.el,z3.BoolVal(x.off<y.off)))
        gt=y.el<x.el if x.off==y.off else z3.Or(y.el<x.el,z3.And(x.el==y.el,z3.BoolVal(y.off<x.off)))
        return {'ult':lt,'ugt':gt,'ule':z3.Not(gt),'uge':z3.Not(lt),'slt':lt,'sgt':gt,'sle':z3.Not(gt),'sge':z3.Not(lt)}[pred]
    def binop(s,op,x,y,f=()):
        if isinstance(x,PtrInt) and isinstance(y,PtrInt) and op=='sub':
            a,b=x.p,y.p
            if a.fam is None and b.fam is None: return bv(0)
            if a.fam is not None and a.fam==b.fam:
                fam=s.fams[a.fam]; a=s.norm(a,fam); b=s.norm(b,fam)
                if a.off==b.off: return Scaled(z3.simplify(a.el-b.el),fam.esize)
                return (a.el-b.el)*bv(fam.esize)+bv(a.off-b.off)
            raise Unsupported('difference of unrelated pointers')
        if isinstance(x,Scaled) and z3.is_bv(y) and z3.is_bv_value(y):
            n=y.as_long()
            if op in('ashr','lshr') and (1<<n)==x.k: return x.t
            if op in('ashr','lshr') and x.k%(1<<n)==0 and (1<<n)<x.k: return Scaled(x.t,x.k>>n)
            if op in('sdiv','udiv') and x.k%n==0: return x.t if n==x.k else Scaled(x.t,x.k//n)
            if op=='mul': # exact division via inverse multiplication after shift
                if x.k!=1 and (x.k*n)%(1<<64)==1: return x.t
        x=s.toint(x);y=s.toint(y)
        if isinstance(x,Ptr) or isinstance(y,Ptr): raise Unsupported('ptr arith')
        if z3.is_bool(x) or z3.is_bool(y):
            if op=='and': return z3.And(x,y)
            if op=='or': return z3.Or(x,y)
            if op in('xor','add','sub'): return z3.Xor(x,y)
            if op=='mul': return z3.And(x,y)
            raise Unsupported('bool '+op)
        if op=='add': return x+y
        if op=='sub': return x-y
        if op=='mul': return x*y
        if op=='and': return x&y
        if op=='or': return x|y
        if op=='xor': return x^y
        if op=='shl': return x<<y
        if op=='lshr': return z3.LShR(x,y)
        if op=='ashr': return x>>y
        if op=='udiv': return s.udiv(x,y) if hasattr(s,'udiv') else z3.UDiv(x,y)
        if op=='urem': return s.urem(x,y) if hasattr(s,'urem') else z3.URem(x,y)
        if op=='sdiv': return x/y
        if op=='srem': return z3.SRem(x,y)
        raise Unsupported(op)
    def simp(s,v):
        return z3.simplify(v) if z3.is_expr(v) else v
    # ---------- instruction
    def step(s,f,i,env,st):
        """executes one non-terminator. returns list of (env,st) (fork) or None for in-place"""
        op=i.op; a=i.a
        V=lambda v,t=i.ty: s.val(env,v,t,st)
        if op in ir.BIN:
            x=V(a['x']);y=V(a['y'])
            if op in('udiv','urem','sdiv','srem') and not (z3.is_bv(y) and z3.is_bv_value(y)):
                s.oblige('division by non-zero',st,s.toint(y)!=bv(0,i.ty.a),'safety')
            r=env[i.res]=s.simp(s.binop(op,x,y,a['f']))
            if op=='and' and z3.is_bv(y) and z3.is_bv_value(y) and z3.is_app_of(x,z3.Z3_OP_BXOR) and x.num_args()==2: s.xm[r.get_id()]=(r,x.arg(0)&y,x.arg(1)&y)
            return
        if op=='icmp':
            x=V(a['x'],a['t']);y=V(a['y'],a['t']);p=a['p']
            if isinstance(x,PtrInt) and isinstance(y,PtrInt): x,y=x.p,y.p
            if isinstance(x,Ptr) or isinstance(y,Ptr):
                env[i.res]=s.simp(s.ptrcmp(p,x,y)); return
            if isinstance(x,Scaled) and isinstance(y,Scaled) and x.k==y.k: x,y=x.t,y.t
            elif isinstance(x,Scaled) and z3.is_bv(y) and z3.is_bv_value(y) and y.as_signed_long()%x.k==0:
                x,y=x.t,bv(y.as_signed_long()//x.k)
            x=s.toint(x);y=s.toint(y)
            if z3.is_bool(x): x=b2bv(x,1);y=b2bv(y,1)
            if p in('eq','ne') and is_zero(y) and x.get_id() in s.xm: _,x,y=s.xm[x.get_id()]   # ((u^v)&m)==0 is (u&m)==(v&m)
            env[i.res]=s.simp({'eq':lambda:x==y,'ne':lambda:x!=y,'ult':lambda:z3.ULT(x,y),'ule':lambda:z3.ULE(x,y),
              'ugt':lambda:z3.UGT(x,y),'uge':lambda:z3.UGE(x,y),'slt':lambda:x<y,'sle':lambda:x<=y,'sgt':lambda:x>y,'sge':lambda:x>=y}[p]()); return
        if op in('zext','sext','trunc'):
            x=V(a['x'],a['t']); w=i.ty.a
            if isinstance(x,PtrInt): x=s.toint(x)
            if isinstance(x,Scaled):
                x=s.toint(x)
            if z3.is_bool(x): env[i.res]=s.simp(b2bv(x,w) if op=='zext' else z3.If(x,bv(-1,w),bv(0,w))); return
            if op=='zext': r=z3.ZeroExt(w-x.size(),x)
            elif op=='sext': r=z3.SignExt(w-x.size(),x)
            elif w==1: r=z3.Extract(0,0,x)==1
            else: r=z3.Extract(w-1,0,x)
            env[i.res]=s.simp(r); return
        if op=='ptrtoint':
            x=V(a['x'],a['t']); env[i.res]=PtrInt(x) if i.ty.a==64 else z3.Extract(i.ty.a-1,0,s.toint(PtrInt(x))); return
        if op=='inttoptr':
            x=V(a['x'],a['t'])
            if isinstance(x,PtrInt): env[i.res]=x.p; return
            if z3.is_bv(x) and is_zero(x): env[i.res]=NULL; return
            raise Unsupported('inttoptr')
        if op in('bitcast','freeze','addrspacecast'): env[i.res]=V(a['x'],a.get('t',i.ty)); return
        if op=='select':
            c=V(a['c'],ir.Ty('int',1)); x=V(a['x']);y=V(a['y'])
            c=s.simp(c)
            if z3.is_true(c): env[i.res]=x; return
            if z3.is_false(c): env[i.res]=y; return
            m=s.merge(c,x,y)
            if m is not None: env[i.res]=m; return
            e2=dict(env);s2=st.copy(); s2.assume(z3.Not(c)); e2[i.res]=y
            st.assume(c); env[i.res]=x
            return [(env,st),(e2,s2)]
        if op=='gep':
            p=V(a['p'],ir.Ty('ptr'))
            try: env[i.res]=s.gep(env,st,p,a['bt'],a['ix'])
            except NeedSplit as e: return s.split_gep(i,env,st,p,e)
            return
        if op=='load':
            p=V(a['p'],ir.Ty('ptr')); env[i.res]=s.simp(s.load(st,p,i.ty,i)); return
        if op=='store':
            p=V(a['p'],ir.Ty('ptr')); v=V(a['v']); s.store(st,p,i.ty,v); return
        if op=='alloca':
            env[i.res]=s.alloc_cell(i.res,s.mod.size(i.ty)); return
        if op=='extractvalue':
            v=V(a['v'])
            for k in a['ix']: v=v[k]
            env[i.res]=v; return
        if op=='insertvalue':
            v=list(V(a['v'])); x=V(a['x'],a['xt'])
            assert len(a['ix'])==1
            v[a['ix'][0]]=x; env[i.res]=tuple(v); return
        if op=='call': return s.call(f,i,env,st)
        if op=='fbin':
            env[i.res]=('fp',fresh('fp',z3.RealSort())); return
        if op in('uitofp','sitofp','fpext','fptrunc'): env[i.res]=('fp',fresh('fp',z3.RealSort())); return
        if op in('fptoui','fptosi'): env[i.res]=fresh('fpi',z3.BitVecSort(i.ty.a)); return
        raise Unsupported('instruction '+i.text.strip()[:100])
    def split_gep(s,i,env,st,p,e):
        # concretise a small symbolic index (child index < arity)
        out=[]
        for k in range(0,8):
            s2=st.copy(); s2.assume(e.x==bv(k))
            if s.feasible(s2.pc):
                e2=dict(env); e2['%__split']=None
                # substitute: recompute with the constant
                try:
                    ix=[]
                    a=i.a
                    for it,iv in a['ix']:
                        x=s.val(env,iv,it,st)
                        if z3.is_bv(x) and x.size()<64: x=z3.SignExt(64-x.size(),x)
                        if z3.is_expr(x) and z3.simplify(x).eq(e.x): ix.append((ir.Ty('int',64),('int',k)))
                        else: ix.append((it,iv))
                    e2[i.res]=s.gep(env,s2,p,a['bt'],ix)
                except NeedSplit: raise Unsupported('gep split')
                out.append((e2,s2))
        s2=st.copy(); s2.assume(z3.UGT(e.x,bv(7)))
        if s.feasible(s2.pc): raise Unsupported('unbounded symbolic sub-element index')
        return out
    def merge(s,c,x,y):
        if z3.is_expr(x) and z3.is_expr(y): return s.simp(z3.If(c,x,y))
        if isinstance(x,Ptr) and isinstance(y,Ptr):
            if x.fam==y.fam and x.fam is not None and not s.fams[x.fam].cell:
                f=s.fams[x.fam]; x=s.norm(x,f);y=s.norm(y,f)
                if x.off==y.off:
                    return Ptr(x.fam,tuple(s.simp(z3.If(c,a,b)) for a,b in zip(x.ix,y.ix)),s.simp(z3.If(c,x.el,y.el)),x.off,s.simp(z3.If(c,x.null,y.null)))
            if x.fam==y.fam and x.off==y.off and x.el.eq(y.el): return x.with_(null=s.simp(z3.If(c,x.null,y.null)))
            if x.fam is None and y.fam is not None: return y.with_(null=s.simp(z3.Or(c,y.null)))
            if y.fam is None and x.fam is not None: return x.with_(null=s.simp(z3.Or(z3.Not(c),x.null)))
        if isinstance(x,(Scaled,PtrInt)) or isinstance(y,(Scaled,PtrInt)):
            try: return s.simp(z3.If(c,s.toint(x),s.toint(y)))
            except Exception: return None
        return None
    # ---------- calls
    IGN=('@llvm.lifetime','@llvm.dbg','@llvm.experimental.noalias','@llvm.assume','@llvm.invariant','@llvm.stacksave','@llvm.stackrestore','@llvm.prefetch')
    def call(s,f,i,env,st):
        c=i.a['callee']
        if c[0]!='glob':
            v=s.val(env,c,ir.Ty('ptr'),st)
            if not isinstance(v,Ptr) or v.fam!='FN': raise Unsupported('indirect call')
            name='@virtual:%d'%v.off      # a member of an abstract class: the handlers give its contract
        else: name=c[1]
        if name.startswith(s.IGN): 
            return
        args=[s.val(env,v,t,st) if t.k!='metadata' else None for t,v in i.a['args']]
        for rx,h in s.handlers:
            if re.search(rx,name) or re.search(rx,demangled(name)):
                r=h(s,st,args,i)
                return s.ret(i,env,st,r)
        r=s.intrinsic(name,args,i,st)
        if r is not NotImplemented: return s.ret(i,env,st,r)
        if name in s.mod.funcs:
            if s.depth>12: raise Unsupported('call depth '+name)
            s.depth+=1
            outs=s.run_func(s.mod.funcs[name],args,st)
            s.depth-=1
            res=[]
            for o in outs:
                if o[0]=='ret':
                    e=dict(env)
                    if i.res: e[i.res]=o[2]
                    res.append((e,o[1]))
            return res
        raise Unsupported('call to '+demangled(name))
    def ret(s,i,env,st,r):
        if isinstance(r,list):
            out=[]
            for st2,v in r:
                e=dict(env)
                if i.res: e[i.res]=v
                out.append((e,st2))
            return out
        if i.res: env[i.res]=r
        return None
    def intrinsic(s,name,args,i,st):
        m=re.match(r'@llvm\.(umax|umin|smax|smin)\.i(\d+)',name)
        if m:
            x,y=map(s.toint,args[:2]); k=m.group(1)
            c={'umax':lambda:z3.UGE(x,y),'umin':lambda:z3.ULE(x,y),'smax':lambda:x>=y,'smin':lambda:x<=y}[k]()
            return s.simp(z3.If(c,x,y))
        m=re.match(r'@llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)',name)
        if m:
            x,y=map(s.toint,args[:2]); sg,op,w=m.group(1),m.group(2),int(m.group(3))
            ext=(lambda v:z3.ZeroExt(w,v)) if sg=='u' else (lambda v:z3.SignExt(w,v))
            r={'add':x+y,'sub':x-y,'mul':x*y}[op]; R={'add':ext(x)+ext(y),'sub':ext(x)-ext(y),'mul':ext(x)*ext(y)}[op]
            return (s.simp(r),s.simp(R!=ext(r)))
        m=re.match(r'@llvm\.abs\.i(\d+)',name)
        if m:
            x=s.toint(args[0]); return s.simp(z3.If(x<0,-x,x))
        m=re.match(r'@llvm\.usub\.sat\.i(\d+)',name)
        if m:
            x,y=map(s.toint,args[:2]); return s.simp(z3.If(z3.ULT(x,y),bv(0,x.size()),x-y))
        if name.startswith('@llvm.expect.'): return args[0]
        if name.startswith('@llvm.memcpy') or name.startswith('@llvm.memmove'): return s.memcpy(st,*args[:3])
        if name.startswith('@llvm.memset'): return s.memset(st,*args[:3])
        if name in('@lldiv','@ldiv'):
            x,y=map(s.toint,args); return (s.simp(x/y),s.simp(z3.SRem(x,y)))
        if name in('@_ZdlPv','@_ZdaPv','@_ZdlPvm','@_ZdaPvm'): return None
        return NotImplemented
    def memcpy(s,st,d,p,n):
        n=s.toint(n)
        fd=s.famof(d)
        if not z3.is_bv_value(n): raise Unsupported('memcpy of symbolic length')
        n=n.as_long(); fp=s.famof(p); o=0
        while o<n:
            w=8
            if not fp.cell:
                q=s.norm(p.with_(off=p.off+o),fp)
                if q.off in fp.fields: w=fp.fields[q.off].w//8
            else:
                c=st.cells.get((fp.name,p.off+o))
                if c is not None: w=cellw(c)
                elif not fd.cell:
                    q=s.norm(d.with_(off=d.off+o),fd)
                    if q.off in fd.fields: w=fd.fields[q.off].w//8
            while o+w>n or w not in (1,2,4,8): w=w//2 if w>1 else 1
            isptr=False
            if not fp.cell:
                q=s.norm(p.with_(off=p.off+o),fp); isptr=isinstance(fp.fields.get(q.off),(FOwn,FRef))
            else: isptr=isinstance(st.cells.get((fp.name,p.off+o)),Ptr)
            ty=ir.Ty('ptr') if isptr else ir.Ty('int',8*w)
            v=s.load(st,p.with_(off=p.off+o),ty); s.store(st,d.with_(off=d.off+o),ty,v); o+=w
        return None
    def memset(s,st,d,v,n):
        n=s.toint(n)
        if not z3.is_bv_value(n): raise Unsupported('memset of symbolic length')
        n=n.as_long(); o=0; fd=s.famof(d)
        while o<n:
            w=8
            if not fd.cell:
                q=s.norm(d.with_(off=d.off+o),fd)
                if q.off in fd.fields: w=fd.fields[q.off].w//8
            while o+w>n: w//=2
            x=z3.Concat(*([v]*w)) if w>1 else v
            if not fd.cell and isinstance(fd.fields.get(q.off),(FRef,)) : s.store(st,d.with_(off=d.off+o),ir.Ty('ptr'),NULL)
            else: s.store(st,d.with_(off=d.off+o),ir.Ty('int',8*w),s.simp(x))
            o+=w
        return None
    # ---------- control
    def run_func(s,f,args,st):
        env={n:a for (t,n),a in zip(f.args,args)}
        if f.name not in s.loopinfo: s.loopinfo[f.name]=ir.loops(f)
        outs=s.explore(f,env,st,f.entry,None,None,None)
        return outs
    def explore(s,f,env,st,block,pred,region,header):
        """returns outcomes ('ret',st,val)/('exit',block,pred,env,st)/('back',pred,env,st)"""
        outs=[]; work=[(block,pred,env,st,0)]; lp=s.loopinfo[f.name][0]; first=True
        while work:
            b,pred,env,st,pc=work.pop()
            s.npaths+=1
            if s.npaths>s.maxpaths: raise Unsupported('too many paths')
            if pc==0 and not first:
                if region is not None and b==header: outs.append(('back',pred,env,st)); continue
                if region is not None and b not in region: outs.append(('exit',b,pred,env,st)); continue
            isfirst=first; first=False
            blk=f.blocks[b]
            if pc==0:
                if b in lp and not (isfirst and region is not None and b==header) and not s.concrete_header(f,b,pred,env,st):
                    # enter a loop from outside
                    for o in s.loop(f,b,lp[b],pred,env,st):
                        if o[0]=='exit': work.append((o[1],o[2],o[3],o[4],0))
                        elif o[0]=='ret': outs.append(o)
                    continue
                if not (isfirst and region is not None and b==header):
                    s.phis(blk,pred,env,st)
            k=pc; forked=False
            while k<len(blk.insts):
                r=s.step(f,blk.insts[k],env,st); k+=1
                if r is not None:
                    for e2,s2 in r: work.append((b,pred,e2,s2,k if k>0 else 1))
                    forked=True; break
            if forked:
                continue
            t=blk.term
            if t.op=='br': work.append((t.a['to'],b,env,st,0))
            elif t.op=='cbr':
                c=s.simp(s.val(env,t.a['c'],ir.Ty('int',1),st))
                if z3.is_true(c): work.append((t.a['a'],b,env,st,0))
                elif z3.is_false(c): work.append((t.a['b'],b,env,st,0))
                else:
                    s2=st.copy(); s2.assume(z3.Not(c)); st.assume(c)
                    fa=s.feasible(st.pc); fb=s.feasible(s2.pc)
                    if fb: work.append((t.a['b'],b,dict(env),s2,0))
                    if fa: work.append((t.a['a'],b,env,st,0))
            elif t.op=='switch':
                v=s.toint(s.val(env,t.a['v'],t.ty,st)); rest=[]; v=b2bv(v,t.ty.a) if z3.is_bool(v) else v
                for cv,to in t.a['cs']:
                    c=v==bv(cv[1],t.ty.a); s2=st.copy(); s2.assume(c); rest.append(z3.Not(c))
                    if s.feasible(s2.pc): work.append((to,b,dict(env),s2,0))
                st.assume(*rest)
                if s.feasible(st.pc): work.append((t.a['d'],b,env,st,0))
            elif t.op=='ret':
                v=None if t.a['v'] is None else s.val(env,t.a['v'],t.ty,st)
                outs.append(('ret',st,v))
            elif t.op=='unreachable':
                s.oblige('unreachable code is not reached',st,z3.BoolVal(False),'safety') if getattr(s,'strict_unreachable',False) else None
            elif t.op=='invoke':
                i=t; r=s.call(f,i,env,st)
                if r is None: work.append((t.a['normal'],b,env,st,0))
                else:
                    for e2,s2 in r: work.append((t.a['normal'],b,e2,s2,0))
            elif t.op=='resume': pass
            else: raise Unsupported(t.op)
        return outs
    def concrete_header(s,f,b,pred,env,st):
        """a loop whose exit test has a concrete outcome is executed instead of cut"""
        blk=f.blocks[b]; t=blk.term
        if t.op!='cbr' or not blk.phis or any(i.op not in('icmp',)+tuple(ir.BIN)+('zext','sext','trunc') for i in blk.insts): return False
        try:
            e=dict(env); s.phis(blk,pred,e,st)
            if not any(z3.is_bv(e[p.res]) and z3.is_bv_value(e[p.res]) for p in blk.phis): return False
            rec=s.rec; s.rec=False
            try:
                for i in blk.insts: s.step(f,i,e,st)
                c=s.simp(s.val(e,t.a['c'],ir.Ty('int',1),st))
            finally: s.rec=rec
        except Unsupported: return False
        return z3.is_true(c) or z3.is_false(c)
    def phis(s,blk,pred,env,st):
        new={}
        for p in blk.phis:
            for v,b in p.a['inc']:
                if b==pred: new[p.res]=s.val(env,v,p.ty,st); break
            else: raise Unsupported('phi')
        env.update(new)
    def havoc_val(s,name,v,backs=()):
        if z3.is_expr(v): return fresh(name,v.sort())
        if isinstance(v,Scaled): return Scaled(fresh(name,B64),v.k)
        if isinstance(v,PtrInt): return PtrInt(s.havoc_val(name,v.p))
        if isinstance(v,Ptr):
            if v.fam is None: return v
            if s.fams[v.fam].cell: return v
            f=s.fams[v.fam]; v=s.norm(v,f)
            nn=z3.is_false(z3.simplify(v.null)) and not getattr(s,'nullable_phis',False)
            return Ptr(v.fam,tuple(fresh(name+'.ix',B64) for _ in v.ix),fresh(name+'.el',B64),v.off,None if nn else fresh(name+'.null',z3.BoolSort()))
        if isinstance(v,tuple) and v and v[0]=='fp': return ('fp',fresh(name,z3.RealSort()))
        raise Unsupported('havoc %r'%(v,))
    def loop(s,f,header,body,pred,env,st):
        blk=f.blocks[header]; key=(f.name,header)
        e0=dict(env); s.phis(blk,pred,e0,st)
        names=[p.res for p in blk.phis]
        # a pointer phi entering as null needs the family from the back edge: resolved on the fly
        phi0={n:e0[n] for n in names}; s.stats[('env0',)+key]={n:v for n,v in env.items() if n not in names}
        outer_rec=s.rec; outer_written=s.written
        mod=s.stats.setdefault(('mod',)+key,set())
        fam_over=s.stats.setdefault(('fam',)+key,{})
        # Candidates that failed in an earlier round of the enclosing loop fail again, since its rounds only weaken what is known here
        # (same loop, same predecessor, same position in the exploration); run.verify repeats an unproved contract without this memory.
        s.visits[(header,pred)]=s.visits.get((header,pred),0)+1
        mk=s.ctxkey+((f.name,header,pred,s.visits[(header,pred)]),)
        dropped=s.memo.setdefault(mk,set()) if s.use_memo else set()
        def sub(*a):
            v,c=s.visits,s.ctxkey; s.visits={}; s.ctxkey=mk
            try: return s.explore(*a)
            finally: s.visits,s.ctxkey=v,c
        cfirst=None; rounds=0
        while True:
            rounds+=1
            if rounds>60: raise Unsupported('loop fixpoint')
            # havoc
            h=st.copy(); eh=dict(e0)
            for k in mod:
                if k[0].startswith('cell:') or (k[0] in s.fams and s.fams[k[0]].cell):
                    if k in h.cells: h.cells[k]=s.havoc_val('c',h.cells[k])
                    else: pass
                elif k[0]=='ghost': h.ghost[k[1]]=s.havoc_val('g',h.ghost[k[1]])
                else: h.mem[k]=fresh('H_%s_%d'%k,s.memget(st,s.fams[k[0]],k[1]).sort())
            for n in names:
                v=phi0[n]
                if isinstance(v,Ptr) and v.fam is None and n in fam_over:
                    p=fam_over[n]; v=Ptr(p.fam,tuple(bv(0) for _ in p.ix),bv(0),p.off,z3.BoolVal(True)); phi0[n]=v
                eh[n]=s.havoc_val(n.strip('%'),v)
                if isinstance(v,Ptr) and n in fam_over and isinstance(eh[n],Ptr) and eh[n].fam: eh[n].null=fresh(n+'.null',z3.BoolSort())
            phih={n:eh[n] for n in names}
            le0=LoopEnv(s,f,header,st,phi0,st,phi0,e0,key)
            leh=LoopEnv(s,f,header,h,phih,st,phi0,eh,key)
            C0=dict(s.allcands(le0)); Ch=dict(s.allcands(leh))
            # initial filter
            if cfirst is None or cfirst!=(frozenset(mod),frozenset(fam_over)):
                cfirst=(frozenset(mod),frozenset(fam_over))
                ok=s.check_many(st.pc,{l:C0[l] for l in Ch if l in C0 and l not in dropped})
                alive=[l for l in Ch if l in ok]; dropped.update({l for l in Ch if l in C0 and l not in ok})
            live=set()
            for l in alive: live|=arr_consts(Ch[l])
            for a_ in h.mem.values(): live|=arr_consts(a_)
            h.pc=[c for c in h.pc if not has_q(c) or not (arr_consts(c)-live)]
            h.assume(*[Ch[l] for l in alive])
            s.rec=False; s.written=set()
            outs=sub(f,dict(eh),h.copy(),header,None,body,header)
            w=s.written; s.written=outer_written; s.rec=outer_rec
            # allocations inside the loop are path local
            w={k for k in w if not (k[0].startswith('cell:') and not any(k[0]==kk[0] for kk in st.cells) and k not in mod and int(k[0].split(':')[-1])>=s.stats.get(('fid',)+key,1<<60))}
            if not w<=mod: mod|=w; continue
            # family changes of pointer phis (null at entry)
            ch=False
            for o in outs:
                if o[0]=='back':
                    s.stats.setdefault('backs',0)
                    eb=dict(o[2]); s.phis(blk,o[1],eb,o[3])
                    for n in names:
                        v=eb[n]
                        if isinstance(v,Ptr) and v.fam is not None:
                            if isinstance(phih[n],Ptr) and phih[n].fam is None and n not in fam_over: fam_over[n]=v; ch=True
                            elif isinstance(phih[n],Ptr) and phih[n].fam not in(None,v.fam): raise Unsupported('pointer phi changes object')
                            elif isinstance(phih[n],Ptr) and n not in fam_over and z3.is_false(phih[n].null) and not z3.is_false(z3.simplify(v.null)): fam_over[n]=v; ch=True
            if ch: continue
            bad=set()
            for o in outs:
                if o[0]!='back': continue
                eb=dict(o[2]); s.phis(blk,o[1],eb,o[3])
                leb=LoopEnv(s,f,header,o[3],{n:eb[n] for n in names},st,phi0,eb,key)
                Cb=dict(s.allcands(leb))
                ok=s.check_many(o[3].pc+(s.lemma_inst(leb) if s.lemma_inst else []),{l:Cb[l] for l in alive if l in Cb and l not in bad})
                bad|={l for l in alive if l not in ok}
            if bad:
                dropped.update(bad); alive=[l for l in alive if l not in bad]; continue
            break
        s.used_inv[key]=list(alive)
        s.stats[('cands',)+key]=len(Ch)
        # final pass with recording
        if s.rec:
            for l in alive: s.obls.append(Obl('loop %s invariant "%s" (established and preserved)'%(header,l),[],z3.BoolVal(True),'inv'))
        s.written=outer_written
        outs=sub(f,dict(eh),h,header,None,body,header)
        if outer_written is not None: outer_written|=mod
        res=[o for o in outs if o[0]!='back']
        if s.rec:
            for o in outs:
                if o[0]=='back': s.dec_check(f,header,phi0,phih,o,blk,names,alive)
        return res
    def dec_check(s,f,header,phi0,phih,o,blk,names,alive):
        if not getattr(s,'want_termination',False): return
    def allcands(s,le):
        out=[]
        out+=generic_cands(le)
        if s.cands: out+=s.cands(le)
        return out

class NeedSplit(Exception):
    def __init__(s,x,size): s.x=x; s.size=size

def generic_cands(le):
    out=[]; sc=[]
    if getattr(le.ex,'no_generic',False): return out       # the contract gives all candidates itself
    for n,v in le.phi.items():
        v0=le.phi0[n]
        if z3.is_bv(v):
            sc.append((n,v,v0))
            out.append((n+'==entry',v==v0))
            if v.size()>8:
                out.append((n+'>=u entry',z3.UGE(v,v0))); out.append((n+'<=u entry',z3.ULE(v,v0)))
                out.append((n+'>=s entry',v>=v0)); out.append((n+'<=s entry',v<=v0))
            elif v.size()==8: out.append((n+' is 0/1',z3.ULE(v,bv(1,8))))
        elif isinstance(v,Ptr) and v.fam is not None and isinstance(v0,Ptr):
            for k,(a,b) in enumerate(zip(v.ix,v0.ix)): out.append((n+'.ix%d==entry'%k,a==b))
            sc.append((n,v.el,v0.el))
            out.append((n+'==entry',v.el==v0.el))
            out.append((n+'>=s entry',v.el>=v0.el)); out.append((n+'<=s entry',v.el<=v0.el))
            out.append((n+' not null',z3.Not(v.null)))
    for n,v in le.phi.items():
        if z3.is_bv(v):
            for m,p in le.phi.items():
                if isinstance(p,Ptr) and p.fam is not None and not le.ex.fams[p.fam].cell:
                    fam=le.ex.fams[p.fam]; q=le.ex.norm(p,fam); fd=fam.fields.get(q.off)
                    if isinstance(fd,FInt) and fd.w==v.size():
                        out.append((n+'==*'+m,v==sel(le.ex.memget(le.st,fam,q.off),q.ix,q.el)))
    # frame: untouched part of the arrays written in the loop
    jv=z3.BitVec('jf',64)
    for n,p in (le.ptrs() if le.ex.generic_frame else []):
        if p.fam is None: continue
        fam=le.ex.fams[p.fam]
        if fam.cell or fam.nix: continue
        for off in fam.fields:
            M=le.ex.memget(le.st,fam,off); E=le.ex.memget(le.entry,fam,off)
            out.append(('%s frame above +%d'%(n,off),z3.ForAll([jv],z3.Implies(jv>=p.el,M[jv]==E[jv]),patterns=[M[jv]])))
            out.append(('%s frame below +%d'%(n,off),z3.ForAll([jv],z3.Implies(jv<p.el,M[jv]==E[jv]),patterns=[M[jv]])))
    for i in range(len(sc)):
        for j in range(i):
            a,b=sc[i],sc[j]
            if a[1].size()==b[1].size() and a[1].size()>8:
                out.append((a[0]+' lockstep '+b[0],a[1]-a[2]==b[1]-b[2]))
                out.append((a[0]+' antistep '+b[0],a[1]-a[2]==b[2]-b[1]))
            elif {a[1].size(),b[1].size()}=={32,64}:
                x,y=(a,b) if a[1].size()==64 else (b,a)
                out.append((x[0]+' lockstepx '+y[0],x[1]-x[2]==z3.SignExt(32,y[1]-y[2])))
    return out

def b2bv(x,w): return z3.If(x,bv(1,w),bv(0,w))
def is_zero(x):
    x=z3.simplify(x); return z3.is_bv_value(x) and x.as_long()==0
def cellw(v):
    if z3.is_bv(v): return max(1,v.size()//8)
    if z3.is_bool(v): return 1
    return 8
_hq={}
def has_q(e):
    i=e.get_id()
    r=_hq.get(i)
    if r is not None and r[0].eq(e): return r[1]
    seen=set(); st=[e]; res=False
    while st:
        x=st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): res=True; break
        st.extend(x.children())
    _hq[i]=(e,res); return res
_ac={}
def arr_consts(e):
    """names of havocked arrays (H_...) occurring in e"""
    i=e.get_id(); r=_ac.get(i)
    if r is not None and r[0].eq(e): return r[1]
    seen=set(); st=[e]; res=set()
    while st:
        x=st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_const(x) and z3.is_app(x) and x.decl().kind()==z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('H_'): res.add(x.decl().name())
        st.extend(x.children())
    _ac[i]=(e,res); return res
def divide_term(x,k):
    """x == k*d syntactically -> d"""
    x=z3.simplify(x)
    if z3.is_app_of(x,z3.Z3_OP_BMUL):
        ch=x.children()
        for j,c in enumerate(ch):
            if z3.is_bv_value(c) and c.as_signed_long()%k==0:
                m=c.as_signed_long()//k; r=[y for jj,y in enumerate(ch) if jj!=j]
                d=r[0]
                for y in r[1:]: d=d*y
                return d if m==1 else d*bv(m)
    if z3.is_app_of(x,z3.Z3_OP_BADD):
        ds=[divide_term(c,k) for c in x.children()]
        if all(d is not None for d in ds):
            r=ds[0]
            for d in ds[1:]: r=r+d
            return r
    if z3.is_bv_value(x) and x.as_signed_long()%k==0: return bv(x.as_signed_long()//k)
    if z3.is_app_of(x,z3.Z3_OP_CONCAT):
        # (t<<n) simplified to concat(extract(63-n,0,t),0_n)
        ch=x.children()
        if len(ch)==2 and z3.is_bv_value(ch[1]) and ch[1].as_long()==0 and k==(1<<ch[1].size()):
            return z3.ZeroExt(ch[1].size(),ch[0])
    return None
_dm={}
def demangled(n):
    if n not in _dm:
        from . import build
        _dm[n]=build.demangle([n])[0]
    return _dm[n]
def rootpat(p):
    """pattern with the array term replaced by its root constant (qi matches on the root and the indices only)"""
    if not z3.is_app_of(p,z3.Z3_OP_SELECT): return p
    ix=[]; a=p
    while True:
        if z3.is_app_of(a,z3.Z3_OP_SELECT): ix.append(a.arg(1)); a=a.arg(0)
        else: break
    while True:
        if z3.is_app_of(a,z3.Z3_OP_STORE): a=a.arg(0)
        elif z3.is_app_of(a,z3.Z3_OP_ITE): a=a.arg(1)
        elif z3.is_app_of(a,z3.Z3_OP_SELECT):
            # an element array taken out of an outer array: its index is fixed
            ix.append(a.arg(1)); a=a.arg(0)
        else: break
    for i in reversed(ix): a=z3.Select(a,i)
    return a
def FA(vs,body,*pats):
    return z3.ForAll(vs,body,patterns=[z3.MultiPattern(*map(rootpat,p)) if isinstance(p,(list,tuple)) else rootpat(p) for p in pats])
