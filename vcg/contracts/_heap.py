"""Heap blocks of abstract elements.
 ghost: alloc[b] (block b is allocated), asz[b] (its size in elements), live[b][j] (a constructed object lives there),
        val[b][j] (its abstract value).
 operator new returns a fresh block with no live object; operator delete needs the begin of an allocated block without live
 objects (so every leak of an object or a double destruction is a failed obligation); constructors need dead storage inside an
 allocated block, destructors/copies/assignments need live objects."""
from ..run import *
BB=z3.ArraySort(B64,z3.BoolSort())
DEFV=z3.Const('DEFAULT_VALUE',B64)
HASH=z3.Function('HASHV',B64,B64)
LIM=1<<40
class Heap:
    def __init__(s,ex,st,fam='E',cls='Elem',esize=8):
        s.ex=ex; s.fam=fam; s.esize=esize
        ex.fams[fam]=Fam(fam,esize,{},nix=1,length=lambda q,ix:q.ghost['asz'][ix[0]])
        for g,so in(('alloc',BB),('asz',z3.ArraySort(B64,B64)),('live',z3.ArraySort(B64,BB)),('val',z3.ArraySort(B64,z3.ArraySort(B64,B64)))): st.ghost[g]=z3.Const('G_'+g,so)
        c=cls
        ex.handlers+=[(r'^%s::%s\(\)$'%(c,c),s.h_ctor),(r'^%s::%s\(%s const&\)$'%(c,c,c),s.h_copy),(r'^%s::operator=\(%s const&\)$'%(c,c),s.h_assign),(r'^%s::~%s\(\)$'%(c,c),s.h_dtor),
          (r'^%s::operator==\(%s const&\) const$'%(c,c),s.h_eq),(r'^%s::hash\(\) const$'%c,s.h_hash),
          (r'^operator new\(unsigned long\)$',s.h_new),(r'^operator delete\(void\*(, unsigned long)?\)$',s.h_del)]
    def set(s,st,g,v): st.ghost[g]=v; s.ex.wrote(('ghost',g))
    def live(s,st,b,j): return st.ghost['live'][b][j]
    def val(s,st,b,j): return st.ghost['val'][b][j]
    def put(s,st,g,p,v): s.set(st,g,z3.Store(st.ghost[g],p.ix[0],z3.Store(st.ghost[g][p.ix[0]],p.el,v)))
    def need(s,st,what,c): s.ex.oblige(what,st,c,'safety'); st.assume(c)
    def chk(s,st,p,what):
        if p.fam!=s.fam: raise Unsupported('%s: object outside the modelled heap'%what)
        s.need(st,what+': inside an allocated block',z3.And(z3.Not(p.null),st.ghost['alloc'][p.ix[0]],z3.ULT(p.el,st.ghost['asz'][p.ix[0]])))
    def isdead(s,st,p,what): s.chk(st,p,what); s.need(st,what+': no object lives in the storage',z3.Not(s.live(st,p.ix[0],p.el)))
    def islive(s,st,p,what): s.chk(st,p,what); s.need(st,what+': the object is alive',s.live(st,p.ix[0],p.el))
    def h_ctor(s,ex,st,a,i): s.isdead(st,a[0],'constructor'); s.put(st,'live',a[0],z3.BoolVal(True)); s.put(st,'val',a[0],DEFV)
    def h_copy(s,ex,st,a,i): s.islive(st,a[1],'copy source'); s.isdead(st,a[0],'copy constructor'); s.put(st,'live',a[0],z3.BoolVal(True)); s.put(st,'val',a[0],s.val(st,a[1].ix[0],a[1].el))
    def h_assign(s,ex,st,a,i): s.islive(st,a[1],'assignment source'); s.islive(st,a[0],'assignment target'); s.put(st,'val',a[0],s.val(st,a[1].ix[0],a[1].el)); return a[0]
    def h_dtor(s,ex,st,a,i): s.islive(st,a[0],'destructor'); s.put(st,'live',a[0],z3.BoolVal(False))
    def h_eq(s,ex,st,a,i): s.islive(st,a[0],'comparison'); s.islive(st,a[1],'comparison'); return s.val(st,a[0].ix[0],a[0].el)==s.val(st,a[1].ix[0],a[1].el)
    def h_hash(s,ex,st,a,i): s.islive(st,a[0],'hash'); return HASH(s.val(st,a[0].ix[0],a[0].el))
    def h_new(s,ex,st,a,i):
        n=ex.toint(a[0]); k=divide_term(n,s.esize)
        if k is None: k=z3.UDiv(n,bv(s.esize)); s.need(st,'allocation is a whole number of elements',z3.URem(n,bv(s.esize))==0)
        else: k=z3.simplify(k)
        b=fresh('blk',B64); st.assume(z3.Not(st.ghost['alloc'][b]),b!=0)
        s.set(st,'alloc',z3.Store(st.ghost['alloc'],b,z3.BoolVal(True))); s.set(st,'asz',z3.Store(st.ghost['asz'],b,k)); s.set(st,'live',z3.Store(st.ghost['live'],b,z3.K(B64,z3.BoolVal(False))))
        return Ptr(s.fam,(b,))
    def h_del(s,ex,st,a,i):
        p=a[0]
        if p.fam is None: return None
        if p.fam!=s.fam: raise Unsupported('delete of an object outside the modelled heap')
        st2=st.copy(); st2.assume(p.null); st.assume(z3.Not(p.null)); out=[]
        if ex.feasible(st2.pc): out.append((st2,None))
        if ex.feasible(st.pc):
            b=p.ix[0]; j=z3.BitVec('jd',64)
            s.need(st,'delete: begin of an allocated block',z3.And(p.el==0,st.ghost['alloc'][b]))
            if len(a)>1: s.need(st,'delete: with the size it was allocated with',ex.toint(a[1])==st.ghost['asz'][b]*s.esize)
            s.need(st,'delete: no object is left alive in the block',z3.ForAll([j],z3.Implies(z3.ULT(j,st.ghost['asz'][b]),z3.Not(s.live(st,b,j))),patterns=[s.live(st,b,j)]))
            s.set(st,'alloc',z3.Store(st.ghost['alloc'],b,z3.BoolVal(False))); out.append((st,None))
        return out
