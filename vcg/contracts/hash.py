"""MyHashTable for an abstract hash function and an abstract equivalence (util/MyHashTable.hpp): C12.
 Entries are 64-bit values, 0 is the default entry. The equivalence is CLS(a)==CLS(b) for an uninterpreted CLS, the hash code is an
 uninterpreted function of the class (equivalent entries have equal hash codes, nothing else is assumed), and "% tableSize_" is an
 uninterpreted HOME(h,ts)<ts.
 ghost per table object: M (set of entries), P (slot of the member of each class)."""
from ..run import *
kw=dict(harness='hash.cpp',roots=['vf_'+f for f in 'prime ctor ctorn copy assign move dtor clear init rehash add get size empty itctor itnext citctor citnext begin'.split()],
  assume=['MyHashTable is proved for entries that are one machine word with default value 0, for every equivalence relation and every hash function compatible with it',
          'an allocation of 2^42 entries or more does not succeed; the entry passed to add is not the default entry (documented) and does not live in the table itself'])
BB=z3.ArraySort(B64,z3.BoolSort()); A64=z3.ArraySort(B64,B64)
CLS=z3.Function('CLS',B64,B64); HC=z3.Function('HASHOFCLASS',B64,B64); HOME=z3.Function('HOME',B64,B64,B64)
CARD=z3.Function('CARD',BB,B64); DIFF=z3.Function('DIFF',BB,BB,B64); DIVQ=z3.Function('DIVQ',B64,B64,B64)
EMPTY=z3.K(B64,z3.BoolVal(False)); LIM=bv(1<<42)
V1,V2,V3,BLK=z3.BitVecs('v1 v2 v3 blk_any',64)
F='cap ts ms size tab coll'.split()
def EQV(a,b): return CLS(a)==CLS(b)
def home(v,ts): return HOME(HC(CLS(v)),ts)
def cyc(a,b,k): return z3.If(z3.ULE(a,b),z3.And(z3.ULE(a,k),z3.ULT(k,b)),z3.Or(z3.ULE(a,k),z3.ULT(k,b)))
class Tab:
    """the six fields of the table object stored in a cell family"""
    def __init__(s,ex,st,nm): s.ex=ex; s.nm=nm; s.o=ex.lay
    def __getattr__(s,k): raise AttributeError(k)
    def get(s,st):
        r={}
        for f in F:
            v=st.cells.get((s.nm,s.o[f]))
            if v is None: return None
            if f=='tab':
                if z3.is_expr(v) or v.fam is None: v=Ptr('T',(bv(0),),null=z3.BoolVal(True))
            r[f]=v
        return r
    def set(s,st,f,v): st.cells[(s.nm,s.o[f])]=v; s.ex.wrote((s.nm,s.o[f]))
    def setg(s,st,g,v): st.ghost[g+s.nm]=v; s.ex.wrote(('ghost',g+s.nm))
    def M(s,st): return st.ghost['M:'+s.nm]
    def P(s,st): return st.ghost['P:'+s.nm]
    def row(s,st): return s.ex.arr(st,'T')[s.get(st)['tab'].ix[0]]
    def storage(s,st):
        r=s.get(st); p=r['tab']; b=p.ix[0]; G=st.ghost
        return [('no storage means capacity 0',z3.Implies(p.null,z3.And(r['cap']==0,b==0))),('storage is a block of tableCapacity_ entries',z3.Implies(z3.Not(p.null),z3.And(p.el==0,b!=0,G['alloc'][b],G['asz'][b]==r['cap'],r['cap']!=0))),
                ('capacity bounded',z3.ULT(r['cap'],LIM))]
    def inv(s,st):
        r=s.get(st); T=s.row(st); M,P=s.M(st),s.P(st); k,v,w=z3.BitVecs('ik iv iw',64); ts=r['ts']
        return s.storage(st)+[('table size within the capacity',z3.ULE(ts,r['cap'])),('size limits',z3.And(z3.ULE(r['size'],r['ms']),z3.ULE(r['ms'],ts))),
          ('every occupied slot holds a member, at its position',z3.ForAll([k],z3.Implies(z3.And(z3.ULT(k,ts),T[k]!=0),z3.And(M[T[k]],P[CLS(T[k])]==k)),patterns=[T[k]])),
          ('every member is stored in its slot',z3.ForAll([v],z3.Implies(M[v],z3.And(v!=0,z3.ULT(P[CLS(v)],ts),T[P[CLS(v)]]==v)),patterns=[M[v]])),
          ('probe chains have no holes',z3.ForAll([v,k],z3.Implies(z3.And(M[v],z3.ULT(k,ts),cyc(home(v,ts),P[CLS(v)],k)),T[k]!=0),patterns=[z3.MultiPattern(M[v],T[k])])),
          ('size() counts the members',r['size']==CARD(M))]
def newset(s,pred,card,name='M'):
    """a set given by its membership predicate and its cardinality"""
    m=fresh(name,BB); v=z3.BitVec('sv',64); c=pred(v)
    s.assume(z3.ForAll([v],m[v]==c,patterns=[m[v]]),CARD(m)==card)
    for x in olds_of(c): s.assume(z3.ForAll([v],m[v]==c,patterns=[x]))
    return m
def olds_of(c):
    out={}; st=[c]
    while st:
        x=st.pop()
        if z3.is_app_of(x,z3.Z3_OP_SELECT) and x.sort()==z3.BoolSort() and z3.is_const(x.arg(0)): out[x.get_id()]=x
        st.extend(x.children())
    return list(out.values())
def emptyset(s): return newset(s,lambda v:z3.BoolVal(False),bv(0))
def setup(ex,full='h',blank=(),other=None):
    """family 'T' and the layout call-back; tables named in full get a symbolic state satisfying the invariant"""
    qi.CROSS=False; qi.STAGED=True
    st=State(); ex.generic_frame=False; ex.lay=None; ex.tabs={}; ex.extra=[]; ex.scan=[]; ex.key=None; ex.cell_carried=lambda k:k[0] not in ex.tabs; ex.weak=False
    ex.fams['T']=Fam('T',8,{0:FInt(64)},nix=1,length=lambda q,ix:z3.If(q.ghost['alloc'][ix[0]],q.ghost['asz'][ix[0]],bv(0)))
    for g,so in(('alloc',BB),('asz',A64)): st.ghost[g]=z3.Const('G_'+g,so)
    st.assume(z3.Not(st.ghost['alloc'][bv(0)]),st.ghost['asz'][bv(0)]==0)
    names=list(full)+list(blank)
    for n in names: ex.fams[n]=Fam(n,64,{},cell=True)
    def layout(e,s,a,i):
        e.lay={f:p.off for f,p in zip(F,a)}
        for n in names:
            t=Tab(e,s,n)
            if n in blank: e.tabs[n]=t; continue
            for f in F:
                if f=='tab': s.cells[(n,e.lay[f])]=Ptr('T',(z3.BitVec(n+'.blk',64),),null=z3.Bool(n+'.null'))
                else: s.cells[(n,e.lay[f])]=z3.BitVec(n+'.'+f,64)
            s.ghost['M:'+n]=z3.Const('M0_'+n,BB); s.ghost['P:'+n]=z3.Const('P0_'+n,A64); e.tabs[n]=t
            s.assume(*[c for _,c in (t.storage(s) if e.weak else t.inv(s))])
        fl=[n for n in names if n not in blank]
        for x in range(len(fl)):
            for y in range(x):
                p,q=e.tabs[fl[x]].get(s)['tab'],e.tabs[fl[y]].get(s)['tab']; s.assume(z3.Or(p.null,q.null,p.ix[0]!=q.ix[0]))
        if e.key is not None:
            for n in fl: q=e.tabs[n].get(s)['tab']; s.assume(z3.Or(q.null,q.ix[0]!=e.key.ix[0]))
        e.s0=s.copy(); return None
    def hashfn(e,s,a,i): return HC(CLS(a[0]))
    def eqv(e,s,a,i): return EQV(a[0],a[1])
    def new(e,s,a,i):
        n=e.toint(a[0]); n=z3.simplify(n); s.assume(z3.ULT(n,bv(1<<45))); k=divide_term(n,8)
        if k is None: k=z3.LShR(n,bv(3)); e.oblige('allocation is a whole number of entries',s,n&bv(7)==0,'safety')
        s.assume(z3.ULT(k,LIM))
        b=fresh('blk',B64); s.assume(z3.Not(s.ghost['alloc'][b]),b!=0)
        s.ghost['alloc']=z3.Store(s.ghost['alloc'],b,z3.BoolVal(True)); s.ghost['asz']=z3.Store(s.ghost['asz'],b,z3.simplify(k)); e.wrote(('ghost','alloc')); e.wrote(('ghost','asz'))
        return Ptr('T',(b,))
    def dele(e,s,a,i):
        p=a[0]
        if p.fam is None: return None
        if p.fam!='T': raise Unsupported('delete[] of another object')
        g=z3.Or(p.null,z3.And(p.el==0,s.ghost['alloc'][p.ix[0]])); e.oblige('delete[]: begin of an allocated block',s,g,'safety'); s.assume(g)
        s.ghost['alloc']=z3.If(p.null,s.ghost['alloc'],z3.Store(s.ghost['alloc'],p.ix[0],z3.BoolVal(False))) if not z3.is_false(z3.simplify(p.null)) else z3.Store(s.ghost['alloc'],p.ix[0],z3.BoolVal(False))
        e.wrote(('ghost','alloc')); return None
    ex.handlers+=[(r'^@vf_layout$',layout),(r'^@vf_hashfn$',hashfn),(r'^@vf_eqv$',eqv),(r'^@_Znam$',new),(r'^@_Zda',dele)]
    ex.urem=lambda x,y: HOME(x,y)
    def udiv(x,y):
        q=DIVQ(x,y); x=z3.simplify(x); ex.axioms.append(z3.Implies(z3.UGE(y,bv(2)),z3.ULE(q,z3.LShR(x,bv(1)))))
        if z3.is_app_of(x,z3.Z3_OP_BMUL) and x.num_args()==2 and z3.is_bv_value(x.arg(0)):
            c=x.arg(0).as_long(); ex.axioms.append(z3.Implies(z3.And(z3.ULE(x.arg(1),bv((2**64-1)//c)),z3.UGE(y,bv(c))),z3.ULE(q,x.arg(1))))
        return q
    ex.udiv=udiv; ex.cands=cands
    t1,t2=z3.BitVecs('hx hy',64)
    ex.axioms.append(z3.ForAll([t1,t2],z3.Implies(t2!=0,z3.ULT(HOME(t1,t2),t2)),patterns=[HOME(t1,t2)]))
    return st
def key(ex,st):
    b,e=z3.BitVecs('key.blk key.el',64); st.assume(st.ghost['alloc'][b],z3.ULT(e,st.ghost['asz'][b]),b!=0); ex.key=Ptr('T',(b,),e)
    x=ex.arr(st,'T')[b][e]; st.assume(x!=0); return x
def cands(le):
    ex=le.ex; st,en=le.st,le.entry; out=[]; T=ex.arr(st,'T'); T0=ex.arr(en,'T'); k,b,v=z3.BitVecs('ck cb cv',64); G,G0=st.ghost,en.ghost
    own=[]
    mod=ex.stats.get(('mod',)+le.key,())
    touched=any(m[0] in ex.tabs or m==('T',0) or m[0]=='ghost' for m in mod)
    tabs=[(n,t) for n,t in ex.tabs.items() if t.get(st) is not None and t.get(en) is not None]
    for n,t in tabs: own+=[t.get(en)['tab'].ix[0]]
    envp=[x.ix[0] for _,x in le.entry_env() if isinstance(x,Ptr) and x.fam=='T']
    blks=list({z3.simplify(x).get_id():x for x in own+envp+getattr(ex,'blks',[])}.values())
    if touched:
        for n,t in tabs:
            if 'M:'+n not in G: continue
            rebased=any(m[0]==n and m[1] in(ex.lay['tab'],) for m in mod) or any(m[0]=='ghost' and m[1].endswith(':'+n) for m in mod)
            if rebased or ('ghost','alloc') in mod or any(m[0]==n for m in mod): out+=[('%s: %s'%(n,l),c) for l,c in t.inv(st)]
            if rebased:
                M,M0=t.M(st),t.M(en); out.append((n+': members unchanged',z3.ForAll([v],M[v]==M0[v],patterns=[M[v]])))
                out.append((n+': table size nonzero',t.get(st)['ts']!=0))
                r=t.get(st)['tab']; out.append((n+': storage is old or fresh',z3.Or(r.null,r.ix[0]==t.get(en)['tab'].ix[0],z3.Not(G0['alloc'][r.ix[0]]))))
                for n2,t2 in tabs:
                    if n2!=n: out.append(('%s and %s: separate storage'%(n,n2),z3.Or(r.null,t2.get(st)['tab'].null,r.ix[0]!=t2.get(st)['tab'].ix[0])))
                for n2,t2 in tabs:
                    if n2!=n and 'M:'+n2 in G:
                        M2,P2=t2.M(st),t2.P(st)
                        for pn,p in le.ptrs('T'): out.append(('%s holds what %s has below %s'%(n,n2,pn),z3.ForAll([v],M[v]==z3.And(M2[v],z3.ULT(P2[CLS(v)],p.el)),patterns=[M[v],M2[v]])))
    own0=z3.And(*[b!=x for x in own]) if own else z3.BoolVal(True); on=','.join(n for n,_ in tabs)
    news=[t.get(st)['tab'] for n,t in tabs]
    if touched:
        if ('ghost','alloc') in mod:
            free=z3.And(own0,*[z3.Or(p.null,b!=p.ix[0]) for p in news])
            out+=[('other blocks stay allocated (%s)'%on,z3.ForAll([b],z3.Implies(z3.And(own0,G0['alloc'][b]),z3.And(G['alloc'][b],G['asz'][b]==G0['asz'][b])),patterns=[G['alloc'][b]])),
                  ('no other block is allocated (%s)'%on,z3.ForAll([b],z3.Implies(z3.And(free,z3.Not(G0['alloc'][b])),z3.Not(G['alloc'][b])),patterns=[G['alloc'][b]])),
                  ('null block',z3.And(z3.Not(G['alloc'][bv(0)]),G['asz'][bv(0)]==0))]
            for n,t in tabs:
                p,q=t.get(en)['tab'],t.get(st)['tab']; out.append((n+': released storage is not allocated',z3.Or(p.null,z3.And(z3.Not(q.null),p.ix[0]==q.ix[0]),z3.Not(G['alloc'][p.ix[0]]))))
        if ('T',0) in mod:
            out.append(('contents of other blocks (%s)'%on,z3.ForAll([b,k],z3.Implies(z3.And(own0,G0['alloc'][b]),T[b][k]==T0[b][k]),patterns=[T[b][k]])))
            for i,B in enumerate(blks):
                if ('ghost','alloc') in mod and not (i<len(own) and len(own)>1): continue
                out.append(('contents of %s unchanged'%B,z3.ForAll([k],T[B][k]==T0[B][k],patterns=[T[B][k]])))
                if ('ghost','alloc') in mod: continue
                others=z3.And(*[b!=B])
                out.append(('contents except %s unchanged'%B,z3.ForAll([b,k],z3.Implies(others,T[b][k]==T0[b][k]),patterns=[T[b][k]])))
    idx=[(n,x) for n,x in le.ints(64) if n.split('+')[0] not in ex.tabs]+[(n,p.el) for n,p in le.ptrs('T')]
    tops=[(n+'.'+f,t.get(st)[f]) for n,t in tabs for f in('ts','cap')]+[(l,x) for l,x in ex.extra]
    for n,p in le.ptrs('T'):
        if isinstance(le.phi0[n],Ptr): out.append((n+' null as at entry',p.null==le.phi0[n].null))
    for n,x in idx:
        for tn,t in tops: out+=[(n+'<='+tn,z3.ULE(x,t)),(n+'<'+tn,z3.ULT(x,t))]
        for B in blks:
            R=T[B]
            if ('T',0) in mod: out.append(('%s zero below %s'%(B,n),z3.ForAll([k],z3.Implies(z3.ULT(k,x),R[k]==0),patterns=[R[k]])))
            for sn,f in ex.scan:
                out.append(('%s empty from %s to %s'%(B,sn,n),z3.ForAll([k],z3.Implies(z3.And(z3.UGE(k,f),z3.ULT(k,x)),R[k]==0),patterns=[R[k]])))
            n0=le.phi0.get(n); x0=n0.el if isinstance(n0,Ptr) else n0
            if ex.scan and x0 is not None and z3.is_bv(x0):
                out.append(('%s empty strictly between entry and %s'%(B,n),z3.ForAll([k],z3.Implies(z3.And(z3.UGT(k,x0),z3.ULT(k,x)),R[k]==0),patterns=[R[k]])))
                out.append(('%s empty after entry up to %s'%(B,n),z3.ForAll([k],z3.Implies(z3.And(z3.UGT(k,x0),z3.ULE(k,x)),R[k]==0),patterns=[R[k]])))
                out.append(('%s empty between entry and %s'%(B,n),z3.ForAll([k],z3.Implies(z3.And(z3.UGE(k,x0),z3.ULT(k,x)),R[k]==0),patterns=[R[k]])))
            if tabs and isinstance(n0,Ptr):
                out.append(('%s: %s at an entry or the end'%(B,n),z3.Or(*[z3.And(x==t.get(st)['ts'],t.get(st)['tab'].ix[0]==B) for _,t in tabs],R[x]!=0)))
    if ex.key is not None:
        e0=ex.arr(ex.s0,'T')[ex.key.ix[0]][ex.key.el]
        for tn,t in tabs: q=t.get(st)['tab']; out.append(('the given entry stays outside '+tn,z3.And(G['alloc'][ex.key.ix[0]],G['asz'][ex.key.ix[0]]==ex.s0.ghost['asz'][ex.key.ix[0]],z3.Or(q.null,q.ix[0]!=ex.key.ix[0]))))
        if touched: out.append(('the given entry is unchanged',T[ex.key.ix[0]][ex.key.el]==e0))
        for tn,t in tabs:
            ts=t.get(st)['ts']; R=t.row(st); hm=home(e0,ts)
            for n,x in idx: out.append(('%s: slots probed before %s are occupied by entries that are not equivalent'%(tn,n),z3.ForAll([k],z3.Implies(z3.And(z3.ULT(k,ts),cyc(hm,x,k)),z3.And(R[k]!=0,z3.Not(EQV(R[k],e0)))),patterns=[R[k]])))
    return out
def frame(ex,s,names,keepm=()):
    """blocks other than the tables' are untouched, nothing leaks"""
    S0=ex.s0; G,G0=s.ghost,S0.ghost; b=BLK; T,T0=ex.arr(s,'T'),ex.arr(S0,'T')
    olds=[ex.tabs[n].get(S0)['tab'] for n in names if ex.tabs[n].get(S0)]; news=[ex.tabs[n].get(s)['tab'] for n in names if ex.tabs[n].get(s)]
    other=z3.And(*[z3.Or(p.null,b!=p.ix[0]) for p in olds+news])
    out=[('other blocks stay allocated',z3.Implies(z3.And(other,G0['alloc'][b]),z3.And(G['alloc'][b],G['asz'][b]==G0['asz'][b]))),('other blocks keep their contents',z3.Implies(z3.And(other,G0['alloc'][b]),T[b][V3]==T0[b][V3])),
         ('nothing leaks',z3.Implies(z3.And(G['alloc'][b],z3.Or(z3.Not(G0['alloc'][b]),*[z3.And(z3.Not(p.null),b==p.ix[0]) for p in olds])),z3.Or(*[z3.And(z3.Not(p.null),b==p.ix[0]) for p in news])))]
    return out
def invs(ex,s,n): return [('%s: %s'%(n,l),c) for l,c in ex.tabs[n].inv(s)]
def hc(name,fn,**k):
    def deco(f): contract('hash.'+name,['C12'],functions=['MyHashTable::'+fn],**dict(kw,**k))(f); return f
    return deco
def run(ex,f,args,st,post): finish(ex,ex.run_func(ex.mod.funcs['@vf_'+f],args,st),post)
N=z3.BitVec('n',64)
NI=r'MyHashTable<Key.*>::(rehash|add|initialize)\('; NP=r'MyHashConstant::primeSize'
# ---------------------------------------------------------------- contracts as seen by callers
def tabof(ex,st,p):
    if p.fam is None or not ex.fams[p.fam].cell or p.off!=0: raise Unsupported('table object expected')
    if p.fam not in ex.tabs: ex.tabs[p.fam]=Tab(ex,st,p.fam)
    return ex.tabs[p.fam]
def pre(ex,st,what,cs):
    for l,c in cs: ex.oblige('%s: requires %s'%(what,l),st,c,'pre'); st.assume(c)
def havoc_fields(ex,st,t):
    for f in F:
        if f=='tab': t.set(st,f,Ptr('T',(fresh('blk',B64),),null=fresh('null',z3.BoolSort())))
        else: t.set(st,f,fresh(f,B64))
def callee_frame(ex,st,s0,t):
    """storage of t replaced or reused, everything else untouched"""
    b,k=z3.BitVecs('fb fk',64); G0=s0.ghost
    for g in('alloc','asz'): st.ghost[g]=fresh('g'+g,st.ghost[g].sort()); ex.wrote(('ghost',g))
    T0=ex.arr(s0,'T'); ex.setarr(st,'T',0,fresh('M_T_0',T0.sort())); T=ex.arr(st,'T'); G=st.ghost
    old=t.get(s0)['tab']; new=t.get(st)['tab']
    other=z3.And(z3.Or(old.null,b!=old.ix[0]),z3.Or(new.null,b!=new.ix[0]))
    st.assume(z3.ForAll([b],z3.Implies(z3.And(other,G0['alloc'][b]),z3.And(G['alloc'][b],G['asz'][b]==G0['asz'][b])),patterns=[G['alloc'][b],G['asz'][b]]),
      z3.ForAll([b,k],z3.Implies(z3.And(other,G0['alloc'][b]),T[b][k]==T0[b][k]),patterns=[T[b][k],T0[b][k]]),
      z3.ForAll([b],z3.Implies(z3.And(G['alloc'][b],z3.Or(z3.Not(G0['alloc'][b]),z3.And(z3.Not(old.null),b==old.ix[0]))),z3.And(z3.Not(new.null),b==new.ix[0])),patterns=[G['alloc'][b]]),
      z3.Or(new.null,z3.And(z3.Not(old.null),new.ix[0]==old.ix[0]),z3.Not(G0['alloc'][new.ix[0]])), z3.Not(G['alloc'][bv(0)]),G['asz'][bv(0)]==0)
def h_prime(ex,st,a,i):
    r=fresh('prime',B64); pre(ex,st,'primeSize',[('a representable size',z3.ULT(a[0],bv(1<<63)))]); st.assume(z3.UGE(r,a[0])); return r
def h_initialize(ex,st,a,i):
    t=tabof(ex,st,a[0]); n=a[1]; pre(ex,st,'initialize',t.storage(st)+[('a representable size',z3.ULT(n,bv(1<<44)))]); s0=st.copy()
    havoc_fields(ex,st,t); t.setg(st,'M:',emptyset(st)); t.setg(st,'P:',fresh('P',A64)); callee_frame(ex,st,s0,t)
    st.assume(*[c for _,c in t.inv(st)]); st.assume(t.get(st)['ts']!=0)
def h_rehash(ex,st,a,i):
    t=tabof(ex,st,a[0]); n=a[1]; pre(ex,st,'rehash',t.inv(st)+[('a representable size',z3.ULT(n,bv(1<<44)))]); s0=st.copy()
    havoc_fields(ex,st,t); t.setg(st,'P:',fresh('P',A64)); callee_frame(ex,st,s0,t)
    st.assume(*[c for _,c in t.inv(st)]); st.assume(t.get(st)['ts']!=0)
def h_add(ex,st,a,i):
    t=tabof(ex,st,a[0]); e=ex.load(st,a[1],ir.Ty('int',64)); q=t.get(st)['tab']
    pre(ex,st,'add',t.inv(st)+[('an entry other than the default',e!=0),('an entry outside the table',z3.Or(q.null,q.ix[0]!=a[1].ix[0]) if a[1].fam=='T' else z3.BoolVal(True))]); s0=st.copy()
    havoc_fields(ex,st,t); t.setg(st,'P:',fresh('P',A64)); callee_frame(ex,st,s0,t); M=t.M(s0); w=fresh('w',B64); v=z3.BitVec('aw',64)
    s2=st.copy(); t.setg(s2,'M:',newset(s2,lambda v:z3.Or(v==e,M[v]),CARD(M)+1))
    for s,val,extra in((st,w,[M[w],EQV(w,e)]),(s2,e,[z3.ForAll([v],z3.Implies(M[v],z3.Not(EQV(v,e))),patterns=[M[v]])])):
        s.assume(*extra); s.assume(*[c for _,c in t.inv(s)])
    return [(s,Ptr('T',(t.get(s)['tab'].ix[0],),t.P(s)[CLS(val)])) for s,val in((st,w),(s2,e))]
HPR=(r'MyHashConstant::primeSize',h_prime); HIN=(r'MyHashTable<Key.*>::initialize\(',h_initialize); HRE=(r'MyHashTable<Key.*>::rehash\(',h_rehash); HAD=(r'MyHashTable<Key.*>::add\(',h_add)
def itp(ex,st,p,q,lo):
    """new position of an iterator over [lo,q) of the block of p (null range: null)"""
    if p.fam is None: return p
    b=p.ix[0]; e=fresh('pos',B64); k=z3.BitVec('itk',64); T=ex.arr(st,'T')[b]; nn=z3.Not(p.null)
    st.assume(z3.Implies(nn,z3.And(z3.UGE(e,lo),z3.ULE(e,q.el),z3.Or(e==q.el,T[e]!=0))),z3.ForAll([k],z3.Implies(z3.And(nn,z3.UGE(k,lo),z3.ULT(k,e)),T[k]==0),patterns=[T[k]]))
    return Ptr('T',(b,),z3.If(p.null,p.el,e),null=p.null)
def rng(ex,st,what,p,q,strict=False):
    if p.fam is None and q.fam is None: return
    G=st.ghost; b=p.ix[0]; g=z3.And(q.ix[0]==b,p.null==q.null,z3.Or(p.null,z3.And(G['alloc'][b],z3.ULT(G['asz'][b],LIM),z3.ULE(q.el,G['asz'][b]),(z3.ULT if strict else z3.ULE)(p.el,q.el))),z3.Implies(p.null,p.el==q.el))
    if strict: g=z3.And(g,z3.Not(p.null))
    pre(ex,st,what,[('a range of one block',g)])
def h_itctor(ex,st,a,i):
    it,p,q=a; rng(ex,st,'iterator',p,q); ex.store(st,it,ir.Ty('ptr'),itp(ex,st,p,q,p.el)); ex.store(st,it.with_(off=it.off+8),ir.Ty('ptr'),q)
def h_itnext(ex,st,a,i):
    it=a[0]; p=ex.load(st,it,ir.Ty('ptr')); q=ex.load(st,it.with_(off=it.off+8),ir.Ty('ptr')); rng(ex,st,'operator++',p,q,True); ex.store(st,it,ir.Ty('ptr'),itp(ex,st,p,q,p.el+1)); return it
ITC=r'MyHashTable<Key.*>::(const_)?iterator::((const_)?iterator\(|operator\+\+)'
HIT=(r'MyHashTable<Key.*>::(const_)?iterator::(const_)?iterator\(',h_itctor); HNX=(r'MyHashTable<Key.*>::(const_)?iterator::operator\+\+',h_itnext)
# ---------------------------------------------------------------- proofs
@hc('primeSize','primeSize')
def _(ex):
    st=State(); ex.generic_frame=False; nm=[g for g in ex.mod.globals if 'primeSize' in g and 'primes' in g]
    if len(nm)!=1: raise Unsupported('table of primes not found')
    vals=[int(x)%2**64 for x in re.findall(r'i64 (-?\d+)',ex.mod.globals[nm[0]].split('[',2)[2])]
    ex.fams['glob:'+nm[0]]=Fam('glob:'+nm[0],8,{0:FInt(64)},length=lambda q,ix:bv(len(vals))); A=ex.arr(st,'glob:'+nm[0])
    st.assume(*[A[bv(k)]==bv(x) for k,x in enumerate(vals)]); st.assume(z3.ULT(N,bv(1<<63)))
    def c(le):
        out=[]; A=ex.arr(le.st,'glob:'+nm[0])
        xs=[(n,z3.SignExt(32,x)) for n,x in le.ints(32)]+[(n,x) for n,x in le.ints(64)]
        for n,x in xs:
            out+=[(n+' in range',z3.ULT(x,bv(len(vals)))),('n<=primes[%s]'%n,z3.ULE(N,A[x]))]
            for m,y in xs:
                if m!=n: out+=[('%s<=%s'%(n,m),x<=y),('n<=primes[avg]',z3.ULE(N,A[z3.LShR(x+y,bv(1))]))]
                for o,z in xs:
                    if len({m,n,o})==3: out.append(('%s between %s and %s'%(o,n,m),z3.Implies(x==y,z==x)))
        return out
    ex.cands=c
    run(ex,'prime',[N],st,lambda s,r:[('result is at least n',z3.UGE(r,N))])
@hc('initialize','initialize',noinline=[NP])
def _(ex):
    st=setup(ex); ex.weak=True; ex.handlers.insert(0,HPR); st.assume(z3.ULT(N,bv(1<<44)))
    def post(s,r):
        t=ex.tabs['h']; s.ghost['M:h']=emptyset(s); s.ghost['P:h']=fresh('P',A64)
        return [('table size nonzero',t.get(s)['ts']!=0)]+invs(ex,s,'h')+frame(ex,s,['h'])
    # only the storage part of the invariant is required: the constructor calls it on a blank table
    run(ex,'init',[Ptr('h'),N],st,post)
@hc('rehash','rehash',noinline=[NP,ITC,r'MyHashTable<Key.*>::(add|initialize)\('],budget=240)
def _(ex):
    st=setup(ex); ex.handlers[0:0]=[HIT,HNX,HIN,HAD]; st.assume(z3.ULT(N,bv(1<<44)))
    def post(s,r):
        t=ex.tabs['h']; tmp=[n for n in ex.tabs if n!='h']; S0=ex.s0
        if len(tmp)!=1: raise Unsupported('one temporary table expected')
        M1=s.ghost['M:'+tmp[0]]; M0=t.M(S0); out=[('holds exactly the same entries',M1[V1]==M0[V1])]
        d=DIFF(M1,M0); out.append(('same entries (at the difference witness)',M1[d]==M0[d]))
        s.ghost['M:h']=M1; s.ghost['P:h']=s.ghost['P:'+tmp[0]]
        return out+[('table size nonzero',t.get(s)['ts']!=0)]+invs(ex,s,'h')+frame(ex,s,['h'])
    run(ex,'rehash',[Ptr('h'),N],st,post)
@hc('add','add',noinline=[r'MyHashTable<Key.*>::rehash\('],budget=240)
def _(ex):
    st=setup(ex); e=key(ex,st); ex.handlers.insert(0,HRE)
    def post(s,r):
        t=ex.tabs['h']; M=t.M(s); g=t.get(s); T=ex.arr(s,'T'); got=T[r.ix[0]][r.el]
        # the table grew iff size_ differs: in that case the new entry is the given one
        old=t.get(ex.s0)['size']; grew=g['size']!=old; P0=t.P(s)
        s.ghost['M:h']=newset(s,lambda v:z3.Or(M[v],z3.And(grew,v==e)),CARD(M)+z3.If(grew,bv(1),bv(0)))   # sound: the obligation 'added only if ...' implies that e was not a member
        P1=fresh('P',A64); pv=z3.BitVec('pv',64); s.assume(z3.ForAll([pv],P1[pv]==z3.If(z3.And(grew,pv==CLS(e)),r.el,P0[pv]),patterns=[P1[pv]])); s.ghost['P:h']=P1
        v=V2
        return [('result refers to a slot of the table',z3.And(z3.Not(r.null),z3.Not(g['tab'].null),r.ix[0]==g['tab'].ix[0],z3.ULT(r.el,g['ts']))),
                ('result is equivalent to the given entry',EQV(got,e)),('not added: result is a former member',z3.Implies(z3.Not(grew),M[got])),
                ('added: result is the entry itself',z3.Implies(grew,got==e)),('added only if no former member is equivalent',z3.Implies(z3.And(grew,M[v]),z3.Not(EQV(v,e)))),
                ('still no two equivalent members',z3.Implies(z3.And(s.ghost['M:h'][V1],s.ghost['M:h'][V2],EQV(V1,V2)),V1==V2)),('position of the result',z3.Implies(z3.Not(grew),P0[CLS(got)]==r.el))]+invs(ex,s,'h')+frame(ex,s,['h'])
    run(ex,'add',[Ptr('h'),ex.key],st,post)
@hc('get','get')
def _(ex):
    st=setup(ex); e=key(ex,st)
    def post(s,r):
        t=ex.tabs['h']; M=t.M(ex.s0); g=t.get(ex.s0); T=ex.arr(s,'T')
        if r.fam is None: res=[('null only if no member is equivalent',z3.Implies(M[V1],z3.Not(EQV(V1,e))))]
        else: res=[('null only if no member is equivalent',z3.Implies(z3.And(r.null,M[V1]),z3.Not(EQV(V1,e)))),('otherwise refers to an equivalent member in the table',z3.Implies(z3.Not(r.null),z3.And(r.ix[0]==g['tab'].ix[0],z3.ULT(r.el,g['ts']),M[T[r.ix[0]][r.el]],EQV(T[r.ix[0]][r.el],e))))]
        return res+[('table unchanged',z3.And(*[(t.get(s)[f]==g[f] if f!='tab' else z3.And(t.get(s)[f].ix[0]==g[f].ix[0],t.get(s)[f].null==g[f].null)) for f in F]))]+frame(ex,s,['h'])+[('contents unchanged',T[BLK][V2]==ex.arr(ex.s0,'T')[BLK][V2])]
    run(ex,'get',[Ptr('h'),ex.key],st,post)
def copies(ex,s,src,dst='h'):
    M1=ex.tabs[dst].M(s); M0=ex.tabs[src].M(ex.s0)
    return [('holds exactly the entries of the source',M1[V1]==M0[V1])]+invs(ex,s,dst)+[('source: '+l,c) for l,c in ex.tabs[src].inv(s)]
@hc('copy','MyHashTable(MyHashTable const&)',noinline=[NP,ITC,r'MyHashTable<Key.*>::(add|initialize)\('],budget=240)
def _(ex):
    st=setup(ex,full='o',blank='h'); ex.handlers[0:0]=[HIT,HNX,HIN,HAD]
    run(ex,'copy',[Ptr('h'),Ptr('o')],st,lambda s,r:copies(ex,s,'o')+frame(ex,s,['h','o']))
@hc('assign','operator=(MyHashTable const&)',noinline=[NP,ITC,r'MyHashTable<Key.*>::(add|initialize)\('],budget=240)
def _(ex):
    st=setup(ex,full='ho'); ex.handlers[0:0]=[HIT,HNX,HIN,HAD]
    run(ex,'assign',[Ptr('h'),Ptr('o')],st,lambda s,r:copies(ex,s,'o')+frame(ex,s,['h','o']))
@hc('self-assign','operator= (to itself)',noinline=[NP,r'MyHashTable<Key.*>::(add|initialize)\('])
def _(ex):
    st=setup(ex); ex.handlers[0:0]=[HIT,HNX,HIN,HAD]
    run(ex,'assign',[Ptr('h'),Ptr('h')],st,lambda s,r:[('same entries',ex.tabs['h'].M(s)[V1]==ex.tabs['h'].M(ex.s0)[V1])]+invs(ex,s,'h')+frame(ex,s,['h']))
@hc('moveAssign','moveAssign')
def _(ex):
    st=setup(ex,full='ho')
    def post(s,r):
        t,o=ex.tabs['h'],ex.tabs['o']; s.ghost['M:h']=o.M(ex.s0); s.ghost['P:h']=o.P(ex.s0); s.ghost['M:o']=emptyset(s); s.ghost['P:o']=o.P(ex.s0)
        return invs(ex,s,'h')+invs(ex,s,'o')+frame(ex,s,['h','o'])
    run(ex,'move',[Ptr('h'),Ptr('o')],st,post)
def empty(ex,s,n='h'):
    s.ghost['M:'+n]=emptyset(s); s.ghost['P:'+n]=fresh('P',A64); return invs(ex,s,n)
@hc('ctor','MyHashTable()')
def _(ex):
    st=setup(ex,full='',blank='h'); run(ex,'ctor',[Ptr('h')],st,lambda s,r:empty(ex,s)+frame(ex,s,['h']))
@hc('ctorn','MyHashTable(n)',noinline=[NP,r'MyHashTable<Key.*>::(add|initialize)\('])
def _(ex):
    st=setup(ex,full='',blank='h'); ex.handlers.insert(0,HIN); st.assume(z3.ULT(N,bv(1<<44)))
    run(ex,'ctorn',[Ptr('h'),N],st,lambda s,r:[('empty',z3.Not(ex.tabs['h'].M(s)[V1]))]+invs(ex,s,'h')+frame(ex,s,['h']))
@hc('clear','clear')
def _(ex):
    st=setup(ex); run(ex,'clear',[Ptr('h')],st,lambda s,r:empty(ex,s)+frame(ex,s,['h']))
@hc('dtor','~MyHashTable()')
def _(ex):
    st=setup(ex)
    def post(s,r):
        p=ex.tabs['h'].get(ex.s0)['tab']; return [('storage released',z3.Or(p.null,z3.Not(s.ghost['alloc'][p.ix[0]])))]+[x for x in frame(ex,s,['h']) if x[0]!='nothing leaks']
    run(ex,'dtor',[Ptr('h')],st,post)
@hc('size','size')
def _(ex):
    st=setup(ex); run(ex,'size',[Ptr('h')],st,lambda s,r:[('number of members',r==CARD(ex.tabs['h'].M(s)))]+invs(ex,s,'h')+frame(ex,s,['h']))
@hc('empty','empty')
def _(ex):
    st=setup(ex); run(ex,'empty',[Ptr('h')],st,lambda s,r:[('no members',(r if z3.is_bool(r) else r!=0)==(CARD(ex.tabs['h'].M(s))==0))]+invs(ex,s,'h'))
# iterators: [from,to) is part of one block
def it_post(ex,s,what,b,lo,to,p):
    T=ex.arr(s,'T')[b]; k=V1
    return [(what+': stays in the range',z3.And(p.ix[0]==b,z3.UGE(p.el,lo),z3.ULE(p.el,to),z3.Not(p.null))),(what+': no entry is skipped',z3.Implies(z3.And(z3.UGE(k,lo),z3.ULT(k,p.el)),T[k]==0)),(what+': at an entry or the end',z3.Or(p.el==to,T[p.el]!=0))]
def it_setup(ex):
    st=setup(ex,full=''); ex.fams['it']=Fam('it',16,{},cell=True); b,lo,hi=z3.BitVecs('it.blk it.from it.to',64); ex.scan=[('from',lo),('next',lo+1)]; ex.extra=[('to',hi)]
    st.assume(st.ghost['alloc'][b],z3.ULE(lo,hi),z3.ULE(hi,st.ghost['asz'][b]),z3.ULT(st.ghost['asz'][b],LIM)); ex.s0=st.copy(); ex.blks=[b]; return st,b,lo,hi
def unchanged(ex,s): return [('contents unchanged',ex.arr(s,'T')[BLK][V2]==ex.arr(ex.s0,'T')[BLK][V2])]
for c,cn in(('','iterator'),('c','const_iterator')):
    @hc(cn,cn+'::'+cn)
    def _(ex,c=c):
        st,b,lo,hi=it_setup(ex)
        run(ex,c+'itctor',[Ptr('it'),Ptr('T',(b,),lo),Ptr('T',(b,),hi)],st,lambda s,r:it_post(ex,s,'constructor',b,lo,hi,s.cells[('it',0)])+[('end is kept',z3.And(s.cells[('it',8)].ix[0]==b,s.cells[('it',8)].el==hi))]+unchanged(ex,s))
    @hc(cn+'(null)',cn+'::'+cn)
    def _(ex,c=c):
        st,b,lo,hi=it_setup(ex)
        isnull=lambda p:z3.BoolVal(True) if p.fam is None else p.null
        run(ex,c+'itctor',[Ptr('it'),Ptr('T',(bv(0),),null=z3.BoolVal(True)),Ptr('T',(bv(0),),null=z3.BoolVal(True))],st,lambda s,r:[('an empty range is at its end',z3.And(isnull(s.cells[('it',0)]),isnull(s.cells[('it',8)])))]+unchanged(ex,s))
    @hc(cn+'::operator++',cn+'::operator++')
    def _(ex,c=c):
        st,b,lo,hi=it_setup(ex); st.assume(z3.ULT(lo,hi)); st.cells[('it',0)]=Ptr('T',(b,),lo); st.cells[('it',8)]=Ptr('T',(b,),hi); ex.s0=st.copy()
        run(ex,c+'itnext',[Ptr('it')],st,lambda s,r:it_post(ex,s,'++',b,lo+1,hi,s.cells[('it',0)])+[('end is kept',z3.And(s.cells[('it',8)].ix[0]==b,s.cells[('it',8)].el==hi)),('returns the iterator',z3.BoolVal(r.fam=='it' and r.off==0))]+unchanged(ex,s))
@hc('begin','begin',noinline=[ITC])
def _(ex):
    st=setup(ex); ex.handlers.insert(0,HIT)
    def post(s,r):
        t=ex.tabs['h']; g=t.get(s); T=t.row(s); at=z3.If(r.null,bv(0),r.el)
        return [('within the table',z3.Or(r.null,z3.And(r.ix[0]==g['tab'].ix[0],z3.ULE(r.el,g['ts'])))),('all slots before are empty',z3.Implies(z3.ULT(V1,at),T[V1]==0)),('at an entry or the end',z3.Or(at==g['ts'],T[at]!=0))]
    run(ex,'begin',[Ptr('h')],st,post)
