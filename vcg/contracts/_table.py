"""Vectors of vectors (DataTable, NodeTableEntity) as modelled memory.
 A table nm has the row family nm+'R' (MyVector objects: size; the array is owned by the row) and the data family nm+'D' indexed by the
 row. The members of MyVector that change sizes are replaced by their contracts (proved for an abstract element type in vec.py):
 resize keeps the elements below both sizes and leaves new ones unspecified, clear makes the vector empty, and so on."""
from ..run import *
from .node import row,col,att,code,ATT,RMAX,CMAX
FLAGS=('-fno-access-control',)
NI=[r'MyVector<.*>::(MyVector|~MyVector|resize|clear|push_back|pop_back|init|reserve)\(',r'::(lowerLevels|higherLevels|makeIndex)\(',r'MessageHandler',r'typenameof']
ROWLIM=bv(1<<20); COLLIM=bv(1<<43)
def s64(x): return z3.SignExt(64-x.size(),x) if x.size()<64 else x
class Layout: pass
class Table:
    def __init__(s,ex,nm,esize,fields):
        L=ex.L; s.ex=ex; s.nm=nm; s.R=nm+'R'; s.D=nm+'D'; ex.tables=getattr(ex,'tables',{}); ex.tables[nm]=s; s.fields=fields
        ex.fams[s.R]=Fam(s.R,L.vsize,{L.vcap:FInt(64),L.vsz:FInt(64),L.varr:FOwn(s.D,lambda ix,el:(el,))},length=lambda q,ix:s.nrows(q))
        ex.fams[s.D]=Fam(s.D,esize,fields,nix=1,length=lambda q,ix:s.size(q,ix[0]))
        s.home=None
    def place(s,st,fam,off,n=None):
        """the outer vector object lives in cell fam at offset off"""
        L=s.ex.L; s.home=(fam,off)
        st.cells[(fam,off+L.varr)]=Ptr(s.R); st.cells[(fam,off+L.vcap)]=fresh(s.nm+'cap',B64); s.setrows(st,z3.ZeroExt(43,z3.BitVec(s.nm+'.rows',21)) if n is None else n)
    def nrows(s,st): return st.cells[(s.home[0],s.home[1]+s.ex.L.vsz)]
    def setrows(s,st,n): k=(s.home[0],s.home[1]+s.ex.L.vsz); st.cells[k]=n; s.ex.wrote(k)
    def sizes(s,st): return s.ex.arr(st,s.R,s.ex.L.vsz)
    def size(s,st,r): return s.sizes(st)[r]
    def data(s,st,off=0): return s.ex.arr(st,s.D,off)
    def setsize(s,st,r,n): s.ex.setarr(st,s.R,s.ex.L.vsz,z3.Store(s.sizes(st),r,n))
    def hrow(s,st,r,keep):
        """row r gets unspecified contents except for the elements below keep"""
        for o in s.fields:
            A=s.data(st,o); new=fresh('M_%s_%d'%(s.D,o),A.sort().range()); c=z3.BitVec('hc',64)
            if keep is not None: st.assume(z3.ForAll([c],z3.Implies(z3.ULT(c,keep),new[c]==A[r][c]),patterns=[new[c]]))
            s.ex.setarr(st,s.D,o,z3.Store(A,r,new))
    def hall(s,st,same):
        """all rows with not same(r) get unspecified contents and sizes"""
        r,c=z3.BitVecs('hr hc',64)
        for o in s.fields:
            A=s.data(st,o); new=fresh('M_%s_%d'%(s.D,o),A.sort()); st.assume(z3.ForAll([r,c],z3.Implies(same(r),new[r][c]==A[r][c]),patterns=[new[r][c]])); s.ex.setarr(st,s.D,o,new)
        A=s.sizes(st); new=fresh('M_%s_%d'%(s.R,s.ex.L.vsz),A.sort()); st.assume(z3.ForAll([r],z3.Implies(same(r),new[r]==A[r]),patterns=[new[r]])); s.ex.setarr(st,s.R,s.ex.L.vsz,new); return new
def find(ex,p,what):
    """(table, row) for an inner vector, (table, None) for an outer one"""
    for t in getattr(ex,'tables',{}).values():
        if p.fam==t.R: return t,p.el
        if t.home==(p.fam,p.off): return t,None
    raise Unsupported('%s: vector outside the modelled tables (%s)'%(what,p))
def inrow(ex,st,t,r,what): g=z3.ULT(r,t.nrows(st)); ex.oblige('%s: row exists (%s)'%(what,t.nm),st,g,'safety'); st.assume(g)
def h_resize(ex,st,a,i):
    t,r=find(ex,a[0],'resize'); n=ex.toint(a[1])
    if r is None:
        ex.oblige('resize: number of rows is representable',st,z3.ULE(n,ROWLIM),'pre'); st.assume(z3.ULE(n,ROWLIM))
        old=t.nrows(st); new=t.hall(st,lambda r:z3.ULT(r,z3.If(z3.ULT(old,n),old,n))); q=z3.BitVec('rz',64)
        st.assume(z3.ForAll([q],z3.Implies(z3.And(z3.UGE(q,old),z3.ULT(q,n)),new[q]==0),patterns=[new[q]])); t.setrows(st,z3.simplify(n))
    else:
        inrow(ex,st,t,r,'resize'); old=t.size(st,r); t.hrow(st,r,z3.If(z3.ULT(old,n),old,n)); t.setsize(st,r,n)
def h_clear(ex,st,a,i):
    if a[0].fam and (a[0].fam,a[0].off) in getattr(ex,'novec',()): return None
    t,r=find(ex,a[0],'clear')
    if r is None: t.setrows(st,bv(0))
    else: inrow(ex,st,t,r,'clear'); t.setsize(st,r,bv(0))
def h_push(ex,st,a,i):
    t,r=find(ex,a[0],'push_back')
    if r is None: raise Unsupported('push_back on a table')
    inrow(ex,st,t,r,'push_back'); n=t.size(st,r); w=t.fields[0].w; v=ex.toint(ex.load(st,a[1],ir.Ty('int',w)))
    if list(t.fields)!=[0]: raise Unsupported('push_back of a structure')
    A=t.data(st); ex.setarr(st,t.D,0,z3.Store(A,r,z3.Store(A[r],n,v))); t.setsize(st,r,n+1)
class Vec:
    """a plain vector object in a cell; its array is the family nm"""
    def __init__(s,ex,st,p,n,esize,fields,zero=False):
        L=ex.L; s.ex=ex; s.nm='vec:%s:%d'%(p.fam,p.off); s.home=(p.fam,p.off); s.fields=fields; ex.vecs=getattr(ex,'vecs',{}); ex.vecs[s.home]=s
        ex.fams[s.nm]=Fam(s.nm,esize,fields,length=lambda q,ix:s.size(q))
        st.cells[(p.fam,p.off+L.varr)]=Ptr(s.nm); s.setsize(st,n)
        for o,f in fields.items():
            A=fresh('M_%s_%d'%(s.nm,o),arr_sort(ex.fams[s.nm],f)); ex.setarr(st,s.nm,o,A); q=z3.BitVec('vz',64)
            if zero: st.assume(z3.ForAll([q],z3.Implies(z3.ULT(q,n),A[q]==0),patterns=[A[q]]))
    def size(s,st): return st.cells[(s.home[0],s.home[1]+s.ex.L.vsz)]
    def setsize(s,st,n): k=(s.home[0],s.home[1]+s.ex.L.vsz); st.cells[k]=n; s.ex.wrote(k)
    def data(s,st,o=0): return s.ex.arr(st,s.nm,o)
HV=[(r'MyVector<.*>::push_back\(',h_push),(r'MyVector<.*>::resize\(',h_resize),(r'MyVector<.*>::clear\(\)',h_clear)]
def nop(*a): return None
def start(ex,props=None):
    """installs the layout call-backs; ex.go(ex,st) builds the pre-state once the layout is known"""
    st=State(); L=ex.L=Layout(); ex.generic_frame=False; qi.CROSS=False
    def layvec(e,s,a,i):
        L.vcap,L.vsz,L.varr=[p.off for p in a]; L.vsize=24
        if sorted((L.vcap,L.vsz,L.varr))!=[0,8,16]: raise Unsupported('layout of MyVector')
    def laytab(e,s,a,i): L.tab=a[1].off-a[0].off
    def layobj(e,s,a,i): L.ref=a[1].off-a[0].off; L.ent=a[2].off-a[0].off
    def laydd(e,s,a,i): L.dptr=a[1].off-a[0].off; L.root=a[2].off-a[0].off
    def laylev(e,s,a,i): L.hi=a[1].off-a[0].off; L.lo=a[2].off-a[0].off
    def layval(e,s,a,i): L.vv=a[1].off-a[0].off; L.vl=a[2].off-a[0].off
    def layred(e,s,a,i): L.old,L.new,L.ids,L.roots=[p.off-a[0].off for p in a[1:]]
    def go(e,s,a,i): e.go(e,s); e.s0=s.copy()
    ex.handlers+=[(r'^@vf_layvec$',layvec),(r'^@vf_laytab$',laytab),(r'^@vf_layobj$',layobj),(r'^@vf_laydd$',laydd),(r'^@vf_layval$',layval),(r'^@vf_laylev$',laylev),(r'^@vf_layred$',layred),(r'^@vf_go$',go)]+HV
    return st
