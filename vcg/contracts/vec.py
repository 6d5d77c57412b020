"""MyVector<T> for an abstract element type T (util/MyVector.hpp): C13."""
from ._heap import *
FN='ctor ctorn ctornv copy assign swap dtor cap size empty reserve init resize erase erase1 clear push pop back at cat begin end data eq hash'.split()
kw=dict(harness='vec.cpp',roots=['vf_'+f for f in FN],assume=['MyVector is proved for an abstract element type whose constructors, destructor and assignment satisfy the C++ object life-cycle; sizes are below 2^40 elements; a value passed by reference to push_back does not live in the vector itself'])
class Vec:
    """symbolic MyVector object stored in cell family nm"""
    def __init__(s,ex,st,nm,blank=False):
        s.ex=ex; s.nm=nm; ex.fams[nm]=Fam(nm,24,{},cell=True)
        if blank: return
        s.cap,s.size,s.blk=[z3.BitVec(nm+x,64) for x in('.cap','.size','.blk')]; s.null=z3.Bool(nm+'.null')
        st.cells[(nm,0)]=s.cap; st.cells[(nm,8)]=s.size; st.cells[(nm,16)]=Ptr('E',(s.blk,),null=s.null)
        st.assume(*[c for _,c in s.inv(st)]); st.assume(z3.Implies(s.null,s.blk==0))
    def ptr(s): return Ptr(s.nm)
    def get(s,st):
        p=st.cells[(s.nm,16)]
        if p.fam is None: p=Ptr('E',(bv(0),),null=z3.BoolVal(True))
        return st.cells[(s.nm,0)],st.cells[(s.nm,8)],p
    def inv(s,st):
        cap,size,p=s.get(st); b=p.ix[0]; j=z3.BitVec('ji',64); nn=z3.Not(p.null); G=st.ghost
        return [('no storage means empty',z3.Implies(p.null,z3.And(cap==0,size==0))),('array starts at its block',z3.Implies(nn,p.el==0)),
           ('block allocated',z3.Implies(nn,G['alloc'][b])),('capacity is the block size',z3.Implies(nn,z3.And(G['asz'][b]==cap,cap!=0))),
           ('size within capacity',z3.And(z3.ULE(size,cap),z3.ULT(cap,bv(LIM)))),
           ('exactly the first size elements are alive',z3.Implies(nn,z3.ForAll([j],z3.Implies(z3.ULT(j,cap),G['live'][b][j]==z3.ULT(j,size)),patterns=[G['live'][b][j]])))]
JC=z3.BitVec('jc',64); BC=z3.BitVec('bc',64)
def setup(ex,*names,blank=()):
    st=State(); h=Heap(ex,st); ex.generic_frame=False; ex.h=h; vs=[]
    for n in names: vs.append(Vec(ex,st,n,n in blank))
    full=[v for v in vs if v.nm not in blank]
    j0=z3.BitVec('j0',64); st.assume(st.ghost['asz'][bv(0)]==0,z3.Not(st.ghost['alloc'][bv(0)]))      # the null block
    for i in range(len(full)):
        for k in range(i): st.assume(z3.Or(full[i].null,full[k].null,full[i].blk!=full[k].blk))
    ex.vs=vs; ex.s0=st.copy(); ex.cands=cands; ex.extra=[]
    return [st]+vs
def cands(le):
    ex=le.ex; out=[]; st,en=le.st,le.entry; G,G0=st.ghost,en.ghost; j=z3.BitVec('jq',64); b=z3.BitVec('bq',64)
    S0=ex.s0
    idx=[(n,x) for n,x in le.ints(64)]; 
    for v in ex.vs:
        if (v.nm,8) in ex.stats.get(('mod',)+le.key,()) and (v.nm,8) in st.cells and z3.is_bv(st.cells[(v.nm,8)]): idx.append((v.nm+'.size',st.cells[(v.nm,8)]))
    for n,p in le.ptrs('E'): idx.append((n,p.el))
    blks={}
    for v in ex.vs:
        for s in(S0,en):
            p=s.cells.get((v.nm,16))
            if isinstance(p,Ptr) and p.fam: blks.setdefault(p.ix[0].get_id(),p.ix[0])
    for nm_,e in le.entry_env():
        if isinstance(e,Ptr) and e.fam=='E': blks.setdefault(e.ix[0].get_id(),e.ix[0])
    # sizes of interest: entry sizes and parameters
    tops=[(v.nm+'.size@',en.cells[(v.nm,8)]) for v in ex.vs if (v.nm,8) in en.cells and z3.is_bv(en.cells[(v.nm,8)])]+[(v.nm+'.size0',S0.cells[(v.nm,8)]) for v in ex.vs if (v.nm,8) in S0.cells and z3.is_bv(S0.cells[(v.nm,8)])]+[(v.nm+'.cap0',S0.cells[(v.nm,0)]) for v in ex.vs if (v.nm,0) in S0.cells and z3.is_bv(S0.cells[(v.nm,0)])]+list(ex.extra)
    tops=list({z3.simplify(t).get_id():(tn,z3.simplify(t)) for tn,t in reversed(tops)}.values()); sizes=[t for t in tops if '.cap' not in t[0]]
    for n,x in idx:
        for tn,t in tops: out+=[(n+'<=u'+tn,z3.ULE(x,t)),(n+'>=u'+tn,z3.UGE(x,t)),(n+'=='+tn,x==t)]
    for tn,t in ex.extra:
        for n,x in idx:
            for sn,u in sizes:
                if sn!=tn: out.append((n+'==%s or >=%s'%(sn,tn),z3.Or(x==u,z3.UGE(x,t))))
    for v in ex.vs:
        sz=st.cells.get((v.nm,8))
        if z3.is_bv(sz): out+=[(n+'=='+v.nm+'.size',x==sz) for n,x in le.ints(64)]
    for B in blks.values():
        L,L0,V_,V0=G['live'][B],G0['live'][B],G['val'][B],G0['val'][B]
        bn='block '+str(B)
        out+=[(bn+' values unchanged',z3.ForAll([j],V_[j]==V0[j],patterns=[V_[j]])),(bn+' lives unchanged',z3.ForAll([j],L[j]==L0[j],patterns=[L[j]]))]
        for tn,t in sizes: out.append((bn+' values unchanged below '+tn,z3.ForAll([j],z3.Implies(z3.ULT(j,t),V_[j]==V0[j]),patterns=[V_[j]])))
        for n,x in idx:
            out+=[(bn+' alive below '+n,z3.ForAll([j],z3.Implies(z3.ULT(j,G['asz'][B]),L[j]==z3.ULT(j,x)),patterns=[L[j]])),
                  (bn+' values unchanged from '+n,z3.ForAll([j],z3.Implies(z3.UGE(j,x),V_[j]==V0[j]),patterns=[V_[j]])),
                  (bn+' values unchanged below '+n,z3.ForAll([j],z3.Implies(z3.ULT(j,x),V_[j]==V0[j]),patterns=[V_[j]]))]
            for tn,t in sizes:
                out+=[(bn+' alive from %s to %s'%(n,tn),z3.ForAll([j],z3.Implies(z3.ULT(j,G['asz'][B]),L[j]==z3.And(z3.UGE(j,x),z3.ULT(j,t))),patterns=[L[j]])),
                      (bn+' default from %s to %s'%(tn,n),z3.ForAll([j],z3.Implies(z3.And(z3.UGE(j,t),z3.ULT(j,x)),V_[j]==DEFV),patterns=[V_[j]]))]
            for B2 in blks.values():
                if not B2.eq(B): out.append((bn+' copy of %s below %s'%(B2,n),z3.ForAll([j],z3.Implies(z3.ULT(j,x),V_[j]==G0['val'][B2][j]),patterns=[V_[j]])))
            if getattr(ex,'fill',None) is not None: out.append((bn+' filled below '+n,z3.ForAll([j],z3.Implies(z3.ULT(j,x),V_[j]==ex.fill),patterns=[V_[j]])))
            if getattr(ex,'shift',None) is not None:
                f,l=ex.shift; out.append((bn+' shifted below '+n,z3.ForAll([j],z3.Implies(z3.And(z3.UGE(j,f),z3.ULT(j,x)),V_[j]==V0[j+(l-f)]),patterns=[V_[j]])))
    out.append(('allocation unchanged',G['alloc']==G0['alloc'])); out.append(('block sizes unchanged',G['asz']==G0['asz']))
    own=z3.And(*[b!=B for B in blks.values()]); on=','.join(sorted(map(str,blks.values())))
    out+=[('other blocks: lives',z3.ForAll([b,j],z3.Implies(own,G['live'][b][j]==G0['live'][b][j]),patterns=[G['live'][b][j]])),
          ('other blocks: values',z3.ForAll([b,j],z3.Implies(own,G['val'][b][j]==G0['val'][b][j]),patterns=[G['val'][b][j]]))]
    return out
def frame(ex,s,vs,extra=()):
    """blocks that are neither an old nor the new block of the vectors vs are untouched; old blocks are freed unless still used"""
    S0=ex.s0; b,j=BC,JC; G,G0=s.ghost,S0.ghost
    olds=[v.get(S0)[2] for v in vs if (v.nm,16) in S0.cells]; news=[v.get(s)[2] for v in vs]
    other=z3.And(*[z3.Or(p.null,b!=p.ix[0]) for p in olds+news])
    allv=[v.get(s)[2] for v in ex.vs if (v.nm,16) in s.cells]
    out=[('other blocks untouched',z3.Implies(z3.And(other,G0['alloc'][b]),z3.And(G['alloc'][b],G['asz'][b]==G0['asz'][b],G['live'][b][j]==G0['live'][b][j],G['val'][b][j]==G0['val'][b][j]))),
         ('nothing leaks: a newly allocated block is owned by the vector',z3.Implies(z3.And(G['alloc'][b],z3.Not(G0['alloc'][b])),z3.Or(*[z3.And(z3.Not(p.null),b==p.ix[0]) for p in news])))]
    for v in vs:
        if (v.nm,16) in S0.cells: o,n=v.get(S0)[2],v.get(s)[2]; out.append(('storage is the old block, a fresh one or (swap) one of the vectors',z3.Implies(z3.Not(n.null),z3.Or(z3.Not(G0['alloc'][n.ix[0]]),*[z3.And(z3.Not(p.null),n.ix[0]==p.ix[0]) for p in olds]))))
    for p in olds: out.append(('nothing leaks: the old block is released unless it is still in use',z3.Implies(z3.And(z3.Not(p.null),G['alloc'][p.ix[0]]),z3.Or(*[z3.And(z3.Not(q.null),p.ix[0]==q.ix[0]) for q in allv]))))
    return out
def elem(s,v,j):
    cap,size,p=v.get(s); return s.ghost['val'][p.ix[0]][j]
def vc(name,fn,**k):
    def deco(f): contract('vec.'+name,['C13'],functions=['MyVector::'+fn],**dict(kw,**k))(f); return f
    return deco
def run(ex,f,args,st,post):
    outs=ex.run_func(ex.mod.funcs['@vf_'+f],args,st); finish(ex,outs,post)
def invs(v,s): return v.inv(s)
@vc('ctor','MyVector()')
def _(ex):
    st,v=setup(ex,'v',blank='v')
    run(ex,'ctor',[v.ptr()],st,lambda s,r:invs(v,s)+[('empty',z3.And(v.get(s)[1]==0,v.get(s)[0]==0))]+frame(ex,s,[v]))
N=z3.BitVec('n',64)
def keep(ex,v,n,s,cnt=None):
    """size is n; elements below min(old size,n) kept, the rest default"""
    old=v.get(ex.s0); j=JC; e=elem(s,v,j); e0=ex.s0.ghost['val'][old[2].ix[0]][j]
    return [('size',v.get(s)[1]==n),('elements kept',z3.Implies(z3.And(z3.ULT(j,n),z3.ULT(j,old[1])),e==e0)),('new elements default constructed',z3.Implies(z3.And(z3.ULT(j,n),z3.UGE(j,old[1])),e==DEFV))]
@vc('resize','resize')
def _(ex):
    st,v=setup(ex,'v'); st.assume(z3.ULT(N,bv(LIM))); ex.extra=[('n',N)]
    run(ex,'resize',[v.ptr(),N],st,lambda s,r:keep(ex,v,N,s)+invs(v,s)+frame(ex,s,[v]))
@vc('ctorn','MyVector(n)')
def _(ex):
    st,v=setup(ex,'v',blank='v'); st.assume(z3.ULT(N,bv(LIM))); ex.extra=[('n',N)]
    run(ex,'ctorn',[v.ptr(),N],st,lambda s,r:[('size',v.get(s)[1]==N),('default constructed',z3.Implies(z3.ULT(JC,N),elem(s,v,JC)==DEFV))]+invs(v,s)+frame(ex,s,[v]))
@vc('init','init')
def _(ex):
    st,v=setup(ex,'v'); st.assume(z3.ULT(N,bv(LIM))); ex.extra=[('n',N)]
    run(ex,'init',[v.ptr(),N],st,lambda s,r:[('size',v.get(s)[1]==N),('default constructed',z3.Implies(z3.ULT(JC,N),elem(s,v,JC)==DEFV))]+invs(v,s)+frame(ex,s,[v]))
def same(ex,v,s):
    old=v.get(ex.s0); return [('size',v.get(s)[1]==old[1]),('elements kept',z3.Implies(z3.ULT(JC,old[1]),elem(s,v,JC)==ex.s0.ghost['val'][old[2].ix[0]][JC]))]
@vc('reserve','reserve')
def _(ex):
    st,v=setup(ex,'v'); st.assume(z3.ULT(N,bv(LIM))); ex.extra=[('n',N)]
    run(ex,'reserve',[v.ptr(),N],st,lambda s,r:same(ex,v,s)+[('capacity',z3.UGE(v.get(s)[0],N)),('capacity does not shrink',z3.UGE(v.get(s)[0],v.get(ex.s0)[0]))]+invs(v,s)+frame(ex,s,[v]))
@vc('clear','clear')
def _(ex):
    st,v=setup(ex,'v')
    run(ex,'clear',[v.ptr()],st,lambda s,r:[('empty',z3.And(v.get(s)[1]==0,v.get(s)[0]==0))]+invs(v,s)+frame(ex,s,[v]))
@vc('dtor','~MyVector()')
def _(ex):
    st,v=setup(ex,'v'); p=v.get(st)[2]
    def post(s,r): return [('storage released',z3.Implies(z3.Not(p.null),z3.Not(s.ghost['alloc'][p.ix[0]])))]+frame(ex,s,[v])
    run(ex,'dtor',[v.ptr()],st,post)
def arg(ex,st,v):
    """an element outside the vector"""
    xb,xe=z3.BitVecs('xb xe',64); G=st.ghost
    st.assume(G['alloc'][xb],z3.ULT(xe,G['asz'][xb]),G['live'][xb][xe]); 
    if v is not None: st.assume(z3.Or(v.null,xb!=v.blk))
    return Ptr('E',(xb,),xe)
@vc('push_back','push_back')
def _(ex):
    st,v=setup(ex,'v'); st.assume(z3.ULT(v.cap,bv(LIM//4))); x=arg(ex,st,v); ex.s0=st.copy(); x0=st.ghost['val'][x.ix[0]][x.el]
    def post(s,r):
        old=v.get(ex.s0); return [('size',v.get(s)[1]==old[1]+1),('elements kept',z3.Implies(z3.ULT(JC,old[1]),elem(s,v,JC)==ex.s0.ghost['val'][old[2].ix[0]][JC])),('new element',elem(s,v,old[1])==x0)]+invs(v,s)+frame(ex,s,[v])
    run(ex,'push',[v.ptr(),x],st,post)
@vc('ctornv','MyVector(n,val)',noinline=[r'MyVector<Elem.*>::push_back'],budget=200)
def _(ex):
    st,v=setup(ex,'v',blank='v'); st.assume(z3.ULT(N,bv(LIM//4))); ex.extra=[('n',N)]; x=arg(ex,st,None); ex.s0=st.copy(); x0=st.ghost['val'][x.ix[0]][x.el]; ex.fill=x0
    def push(e,s,a,i):
        # contract of push_back (vec.push_back), restricted to the case capacity > size, where storage is not moved
        cap,size,p=v.get(s); b=p.ix[0]
        e.oblige('push_back: invariant of the vector',s,z3.And(*[c for _,c in v.inv(s)]),'pre'); e.oblige('push_back: room (storage is not moved)',s,z3.ULT(size,cap),'pre'); s.assume(z3.ULT(size,cap),z3.Not(p.null))
        q=Ptr('E',(b,),size); e.h.h_copy(e,s,[q,a[1]],i); s.cells[('v',8)]=z3.simplify(size+1); e.wrote(('v',8)); return None
    ex.handlers.insert(0,(r'MyVector<Elem.*>::push_back',push))
    run(ex,'ctornv',[v.ptr(),N,x],st,lambda s,r:[('size',v.get(s)[1]==N),('filled with the value',z3.Implies(z3.ULT(JC,N),elem(s,v,JC)==x0))]+invs(v,s)+frame(ex,s,[v]))
@vc('pop_back','pop_back')
def _(ex):
    st,v=setup(ex,'v')
    def post(s,r):
        old=v.get(ex.s0); n=z3.If(old[1]==0,bv(0),old[1]-1)
        return [('size',v.get(s)[1]==n),('elements kept',z3.Implies(z3.ULT(JC,n),elem(s,v,JC)==ex.s0.ghost['val'][old[2].ix[0]][JC]))]+invs(v,s)+frame(ex,s,[v])
    run(ex,'pop',[v.ptr()],st,post)
def copied(ex,v,o,s):
    old=o.get(ex.s0); return [('size',v.get(s)[1]==old[1]),('elements copied',z3.Implies(z3.ULT(JC,old[1]),elem(s,v,JC)==ex.s0.ghost['val'][old[2].ix[0]][JC]))]
@vc('copy','MyVector(MyVector const&)')
def _(ex):
    st,v,o=setup(ex,'v','o',blank='v')
    run(ex,'copy',[v.ptr(),o.ptr()],st,lambda s,r:copied(ex,v,o,s)+invs(v,s)+[('source: '+a,b) for a,b in invs(o,s)+same(ex,o,s)]+[('storage is not shared',z3.Or(v.get(s)[2].null,o.get(s)[2].null,v.get(s)[2].ix[0]!=o.get(s)[2].ix[0]))]+frame(ex,s,[v]))
def use(ex,v,s,what):
    """the contracts of resize (what=('resize',n)) and reserve (('reserve',n)) as seen by a caller"""
    kind,n=what; s0=s.copy(); old=v.get(s0)
    ex.oblige(kind+': invariant of the vector',s,z3.And(*[c for _,c in v.inv(s)]),'pre'); ex.oblige(kind+': size is representable',s,z3.ULT(n,bv(LIM)),'pre')
    for g in('alloc','asz','live','val'): ex.h.set(s,g,fresh('g'+g,s.ghost[g].sort()))
    cap,size,blk=[fresh(x,B64) for x in('cap','size','blk')]; nul=fresh('null',z3.BoolSort())
    s.cells[(v.nm,0)]=cap; s.cells[(v.nm,8)]=size; s.cells[(v.nm,16)]=Ptr('E',(blk,),null=nul)
    for o in(0,8,16): ex.wrote((v.nm,o))
    s.assume(*[c for _,c in v.inv(s)]); s.assume(z3.Implies(nul,blk==0),s.ghost['asz'][bv(0)]==0,z3.Not(s.ghost['alloc'][bv(0)]))
    j=z3.BitVec('ju',64); b=z3.BitVec('bu',64); G,G0=s.ghost,s0.ghost
    if kind=='resize': s.assume(size==n,z3.ForAll([j],z3.Implies(z3.ULT(j,n),G['val'][blk][j]==z3.If(z3.ULT(j,old[1]),G0['val'][old[2].ix[0]][j],DEFV)),patterns=[G['val'][blk][j]]))
    else: s.assume(size==old[1],z3.UGE(cap,n),z3.UGE(cap,old[0]),z3.ForAll([j],z3.Implies(z3.ULT(j,size),G['val'][blk][j]==G0['val'][old[2].ix[0]][j]),patterns=[G['val'][blk][j]]))
    other=z3.And(z3.Or(old[2].null,b!=old[2].ix[0]),z3.Or(nul,b!=blk))
    s.assume(z3.ForAll([b],z3.Implies(z3.And(other,G0['alloc'][b]),z3.And(G['alloc'][b],G['asz'][b]==G0['asz'][b])),patterns=[G['alloc'][b]]))
    s.assume(z3.ForAll([b,j],z3.Implies(z3.And(other,G0['alloc'][b]),z3.And(G['live'][b][j]==G0['live'][b][j])),patterns=[G['live'][b][j]]))
    s.assume(z3.ForAll([b,j],z3.Implies(z3.And(other,G0['alloc'][b]),z3.And(G['val'][b][j]==G0['val'][b][j])),patterns=[G['val'][b][j]]))
    s.assume(z3.ForAll([b],z3.Implies(z3.And(G['alloc'][b],z3.Not(G0['alloc'][b])),z3.And(z3.Not(nul),b==blk)),patterns=[G['alloc'][b]]))
    s.assume(z3.Implies(z3.And(z3.Not(old[2].null),G['alloc'][old[2].ix[0]]),z3.And(z3.Not(nul),blk==old[2].ix[0])))
    s.assume(z3.Implies(z3.Not(nul),z3.Or(z3.And(z3.Not(old[2].null),blk==old[2].ix[0]),z3.Not(G0['alloc'][blk]))))
@vc('assign','operator=(MyVector const&)',budget=200,noinline=[r'MyVector<Elem.*>::(resize|reserve)\('])
def _(ex):
    st,v,o=setup(ex,'v','o')
    ex.handlers.insert(0,(r'MyVector<Elem.*>::resize\(',lambda e,s,a,i:use(e,v,s,('resize',a[1])))); ex.handlers.insert(0,(r'MyVector<Elem.*>::reserve\(',lambda e,s,a,i:use(e,v,s,('reserve',a[1]))))
    run(ex,'assign',[v.ptr(),o.ptr()],st,lambda s,r:copied(ex,v,o,s)+invs(v,s)+[('source: '+a,b) for a,b in invs(o,s)+same(ex,o,s)]+[('storage is not shared',z3.Or(v.get(s)[2].null,o.get(s)[2].null,v.get(s)[2].ix[0]!=o.get(s)[2].ix[0]))]+frame(ex,s,[v]))
@vc('self-assign','operator= (to itself)')
def _(ex):
    st,v=setup(ex,'v')
    run(ex,'assign',[v.ptr(),v.ptr()],st,lambda s,r:same(ex,v,s)+invs(v,s)+frame(ex,s,[v]))
@vc('swap','swap')
def _(ex):
    st,v,o=setup(ex,'v','o')
    def post(s,r):
        out=[]
        for a,b in((v,o),(o,v)):
            x=a.get(s); y=b.get(ex.s0); out+=[('exchanged',z3.And(x[0]==y[0],x[1]==y[1],x[2].null==y[2].null,z3.Or(y[2].null,z3.And(x[2].ix[0]==y[2].ix[0],x[2].el==y[2].el))))]
        return out+invs(v,s)+invs(o,s)+frame(ex,s,[v,o])
    run(ex,'swap',[v.ptr(),o.ptr()],st,post)
def erase(ex,f):
    st,v=setup(ex,'v'); a,b=z3.BitVecs('first last',64); st.assume(z3.Not(v.null),z3.ULE(a,b),z3.ULE(b,v.size))
    if f=='erase1': st.assume(b==a+1); 
    ex.extra=[('first',a),('last',b),('new size',v.size-(b-a))]; ex.shift=(a,b); ex.s0=st.copy()
    args=[v.ptr(),Ptr('E',(v.blk,),a)]+([Ptr('E',(v.blk,),b)] if f=='erase' else [])
    def post(s,r):
        n=v.size-(b-a); V0=ex.s0.ghost['val'][v.blk]
        return [('size',v.get(s)[1]==n),('elements before kept',z3.Implies(z3.ULT(JC,a),elem(s,v,JC)==V0[JC])),('elements after moved down',z3.Implies(z3.And(z3.UGE(JC,a),z3.ULT(JC,n)),elem(s,v,JC)==V0[JC+(b-a)])),('returns the position',z3.And(r.ix[0]==v.get(s)[2].ix[0],r.el==a))]+invs(v,s)+frame(ex,s,[v])
    run(ex,f,args,st,post)
@vc('erase','erase(first,last)',budget=200)
def _(ex): erase(ex,'erase')
@vc('erase1','erase(pos)')
def _(ex): erase(ex,'erase1')
def acc(name,f,args,post):
    @vc(name,name)
    def _(ex):
        st,v=setup(ex,'v'); i=z3.BitVec('i',64)
        if f in('at','cat'): st.assume(z3.ULT(i,v.size))
        if f=='back': st.assume(v.size!=0)
        run(ex,f,[v.ptr()]+([i] if args else []),st,lambda s,r:post(v,i,r)+[('vector unchanged: '+a,b) for a,b in same(ex,v,s)+invs(v,s)])
def at(v,e): return lambda v,i,r: [('refers to the element',z3.And(z3.Not(r.null),r.ix[0]==v.blk,r.el==e(v,i)))]
acc('capacity','cap',0,lambda v,i,r:[('capacity',r==v.cap)]); acc('size','size',0,lambda v,i,r:[('size',r==v.size)]); acc('empty','empty',0,lambda v,i,r:[('empty',(r if z3.is_bool(r) else r!=0)==(v.size==0))])
acc('operator[]','at',1,at(None,lambda v,i:i)); acc('operator[] const','cat',1,at(None,lambda v,i:i)); acc('back','back',0,at(None,lambda v,i:v.size-1))
rng=lambda e:lambda v,i,r:[('position',z3.Or(z3.And(v.null,e(v)==0),z3.And(z3.Not(r.null),r.ix[0]==v.blk,r.el==e(v))))]
acc('begin','begin',0,rng(lambda v:bv(0))); acc('end','end',0,rng(lambda v:v.size)); acc('data','data',0,rng(lambda v:bv(0)))
@vc('operator==','operator==')
def _(ex):
    st,v,o=setup(ex,'v','o'); j=z3.BitVec('jz',64); ex.s0=st.copy(); A=st.ghost['val'][v.blk]; Bv=st.ghost['val'][o.blk]
    base=cands
    def c2(le):
        out=base(le)
        for n,x in le.ints(64): out.append((n+' equal so far',z3.ForAll([j],z3.Implies(z3.ULT(j,x),A[j]==Bv[j]),patterns=[A[j]])))
        return out
    ex.cands=c2
    eq=z3.And(v.size==o.size,z3.ForAll([j],z3.Implies(z3.ULT(j,v.size),A[j]==Bv[j]),patterns=[A[j]]))
    def post(s,r):
        r=r if z3.is_bool(r) else r!=0
        return [('true only if equal',z3.Implies(r,eq)),('true if equal',z3.Implies(eq,r))]+[('operands unchanged: '+a,b) for x in(v,o) for a,b in same(ex,x,s)]+frame(ex,s,[])
    run(ex,'eq',[v.ptr(),o.ptr()],st,post)
