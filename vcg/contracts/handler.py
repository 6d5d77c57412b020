"""NodeTableHandler (dd/NodeTable.hpp): C11.  Objects are numbered; ghost live[o] (allocated and not released), N[o] (number of handlers that
 refer to o), TAB[o] (the value of its node table).  Invariant: for each live object refCount = N >= 1.  Every operation keeps it
 for the handlers that exist afterwards, changes the table of no object that another handler refers to, gives writable access only to an object with a
 single handler, and releases an object exactly when its last handler goes away.  The members of NodeTableEntity are replaced by
 their contracts (copy: equal table; init: table with n rows)."""
from ..run import *
NI=[r'^tdzdd::NodeTableEntity<2>::(NodeTableEntity|~NodeTableEntity|init)\(',r'^tdzdd::(NodeTableEntity|DataTable)<.*>::operator\[\]\(',r'^tdzdd::MyVector<[^:]*::[^:]*>::clear\(']
I32=z3.BitVecSort(32); AB=lambda so:z3.ArraySort(B64,so); INIT=z3.Function('INIT',I32,B64); CLR=z3.Function('CLEARED',B64,I32,B64); P0,Q0,ANY=z3.BitVecs('obj obj2 any',64); MAXR=(1<<32)-2
def mk(name,fn,args,two,self_,effect,post):
    @contract('handler.'+name,['C11'],functions=['NodeTableHandler::'+fn],harness='handler.cpp',flags=('-fno-access-control',),noinline=NI,roots=['vf_h'+name.split('.')[0]],assume=['fewer than 2^32-1 handlers share a table (more throw)','NodeTableEntity satisfies its contract (copy construction gives an equal table)'])
    def _(ex):
        st=State(); ex.generic_frame=False; qi.CROSS=False; ex.fams['h']=Fam('h',4096,{},cell=True); ex.fams['g']=Fam('g',4096,{},cell=True); o={}
        def lay(e,s,a,i): o['ref']=a[1].off-a[0].off; o['ent']=a[2].off-a[0].off; o['size']=a[3].off-a[0].off
        def go(e,s,a,i):
            e.fams['B']=Fam('B',o['size'],{o['ref']:FInt(32)},nix=1,length=lambda q,ix:z3.If(q.ghost['live'][ix[0]],bv(1),bv(0)))
            s.ghost['live']=z3.Const('live',AB(z3.BoolSort())); s.ghost['N']=z3.Const('N',AB(I32)); s.ghost['TAB']=z3.Const('TAB',AB(B64)); x=z3.BitVec('ox',64)
            rc=e.arr(s,'B',o['ref']); L,N=s.ghost['live'],s.ghost['N']
            s.assume(FA([x],z3.Implies(L[x],z3.And(rc[x][bv(0)]==N[x],z3.UGE(N[x],b(1)),z3.ULE(N[x],b(MAXR)))),L[x],rc[x][bv(0)]))
            if name!='new' and name!='copy': s.cells[('h',0)]=Ptr('B',(P0,)); s.assume(L[P0])
            if two: s.cells[('g',0)]=Ptr('B',(Q0,)); s.assume(L[Q0])
            if two and not self_: s.assume(z3.Implies(P0==Q0,z3.UGE(N[P0],b(2))))
            e.s0=s.copy(); e.fresh=[]
        b=lambda n:bv(n,32)
        def setg(s,g,k,v): s.ghost[g]=z3.Store(s.ghost[g],k,v); ex.wrote(('ghost',g))
        def new(e,s,a,i):
            n=fresh('newobj',B64); s.assume(z3.Not(s.ghost['live'][n]),z3.Not(e.s0.ghost['live'][n])); setg(s,'live',n,z3.BoolVal(True)); e.fresh.append(n); s.ghost['new']=n
            e.oblige('allocates one object',s,z3.BoolVal(z3.simplify(e.toint(a[0])).as_long()==o['size']),'safety'); return Ptr('B',(n,))
        def delete(e,s,a,i):
            p=a[0]
            if p.fam!='B': raise Unsupported('delete')
            e.oblige('releases a live object',s,s.ghost['live'][p.ix[0]],'safety'); e.oblige('releases it only when no handler is left',s,e.arr(s,'B',o['ref'])[p.ix[0]][bv(0)]==0,'safety'); setg(s,'live',p.ix[0],z3.BoolVal(False))
        def ent(p,what):
            if p.fam!='B' or p.off!=o['ent']: raise Unsupported(what)
            return p.ix[0]
        def alive(e,s,x,what): e.oblige(what+': of a live object',s,s.ghost['live'][x],'safety')
        def ctor(e,s,a,i):
            x=ent(a[0],'table'); alive(e,s,x,'table')
            if isinstance(a[1],Ptr): y=ent(a[1],'table'); alive(e,s,y,'copied table'); setg(s,'TAB',x,s.ghost['TAB'][y])
            else: setg(s,'TAB',x,INIT(e.toint(a[1])))
        def private(e,s,x,what): alive(e,s,x,what); e.oblige(what+': written only if not shared',s,e.arr(s,'B',o['ref'])[x][bv(0)]==1,'pre')
        def init(e,s,a,i): x=ent(a[0],'init'); private(e,s,x,'table'); setg(s,'TAB',x,INIT(e.toint(a[1])))
        def rowp(e,s,a,i): x=ent(a[0],'row'); alive(e,s,x,'row'); return Ptr('ROW',(x,),el=z3.SignExt(64-a[1].size(),a[1]) if a[1].size()<64 else a[1])
        def clear(e,s,a,i):
            p=a[0]
            if p.fam!='ROW': raise Unsupported('clear')
            private(e,s,p.ix[0],'row'); setg(s,'TAB',p.ix[0],CLR(s.ghost['TAB'][p.ix[0]],z3.Extract(31,0,p.el)))
        ex.fams['ROW']=Fam('ROW',24,{},nix=1)
        ex.handlers+=[('^@vf_layh$',lay),('^@vf_go$',go),('^@vf_lay',lambda *a:None),(r'^@_Znwm',new),(r'^@_ZdlPv',delete),(r'NodeTableEntity<.*>::NodeTableEntity\(',ctor),(r'NodeTableEntity<.*>::~NodeTableEntity',lambda *a:None),(r'NodeTableEntity<.*>::init\(',init),(r'::operator\[\]\(',rowp),(r'MyVector<.*>::clear',clear)]
        H=Ptr('h'); A={'n':z3.BitVec('n',32),'g':H if self_ else Ptr('g'),'i':z3.BitVec('i',32)}
        def pst(s,r):
            s0=ex.s0; L0,N0,T0=[s0.ghost[g] for g in('live','N','TAB')]; L,T=s.ghost['live'],s.ghost['TAB']; rc=ex.arr(s,'B',o['ref']); h=s.cells.get(('h',0)); hx=h.ix[0] if isinstance(h,Ptr) and h.fam=='B' else None
            one=lambda x,y:z3.If(x==y,b(1),b(0)); new=s.ghost.get('new'); x=ANY
            before=one(x,P0) if name not in('new','copy') else b(0); after=one(x,hx) if name!='dtor' and hx is not None else b(0)
            n0=z3.If(L0[x],N0[x],b(0)); n=n0-before+after
            out=[('an object is live exactly while a handler refers to it',z3.Implies(z3.Or(L0[x],x==new) if new is not None else L0[x],L[x]==(n!=0))),('reference counts are the numbers of handlers',z3.Implies(L[x],rc[x][bv(0)]==n)),
                 ('tables others refer to are not changed',z3.Implies(z3.And(L0[x],z3.UGT(n0-before,b(0))),z3.And(L[x],T[x]==T0[x])))]
            if name!='dtor': out.append(('refers to a live object',z3.And(z3.BoolVal(hx is not None),L[hx])))
            return out+post(ex,s,s0,hx,r,o,rc,A)
        finish(ex,ex.run_func(ex.mod.funcs['@vf_h'+name.split('.')[0]],[H]+[A[x] for x in args],st),pst)
b=lambda n:bv(n,32)
def isent(r,hx,o): return isinstance(r,Ptr) and r.fam=='B' and r.off==o['ent'] and hx is not None
same=lambda w:lambda ex,s,s0,hx,r,o,rc,A:[('refers to the same table',s.ghost['TAB'][hx]==s0.ghost['TAB'][w])]
mk('new','NodeTableHandler(n)','n',False,False,None,lambda ex,s,s0,hx,r,o,rc,A:[('a new table',z3.And(s.ghost['TAB'][hx]==INIT(A['n']),rc[hx][bv(0)]==1,z3.Not(s0.ghost['live'][hx])))])
mk('copy','NodeTableHandler(NodeTableHandler const&)','g',True,False,None,same(Q0))
mk('assign','operator=','g',True,False,None,same(Q0))
mk('assign.self','operator= (to itself)','g',False,True,None,same(P0))
mk('dtor','~NodeTableHandler','',False,False,None,lambda *a:[])
rd=lambda ex,s,s0,hx,r,o,rc,A:[('the table it refers to',z3.And(z3.BoolVal(isent(r,hx,o)),r.ix[0]==P0,hx==P0) if isent(r,hx,o) else z3.BoolVal(False))]
mk('deref','operator*','',False,False,None,rd); mk('arrow','operator->','',False,False,None,rd)
def priv(v):
    def f(ex,s,s0,hx,r,o,rc,A):
        ok=isent(r,hx,o); x=r.ix[0] if ok else P0
        return [('the table it refers to',z3.And(z3.BoolVal(ok),x==hx)),('not shared',rc[x][bv(0)]==1),('contents',s.ghost['TAB'][x]==v(s0,A))]
    return f
mk('priv','privateEntity','',False,False,None,priv(lambda s0,A:s0.ghost['TAB'][P0])); mk('init','init','n',False,False,None,priv(lambda s0,A:INIT(A['n'])))
mk('lev','derefLevel','i',False,False,None,lambda ex,s,s0,hx,r,o,rc,A:[('the same object',hx==P0),('cleared or kept',z3.Or(s.ghost['TAB'][hx]==s0.ghost['TAB'][P0],s.ghost['TAB'][hx]==CLR(s0.ghost['TAB'][P0],A['i'])))])
