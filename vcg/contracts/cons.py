"""IntRange, SizeConstraint and LinearConstraints<int>: C17.
 V is an arbitrary assignment, CN(l) the number of items taken on levels 1..l; a SizeConstraint state (l,count) stands for
 "count+CN(l) is in the subset".  A LinearConstraints item of a level carries the bounds addMin..addMax of what the levels below can
 still contribute; D(k) is an arbitrary contribution within them: a step keeps the truth of lb <= value+D <= ub for every item, and rejects only if
 one item cannot be satisfied."""
from ..run import *
from ._absspec import V,CN,step_V,b32,I32
kw=dict(harness='cons.cpp',flags=('-fno-access-control',))
def rng(n,fn,post):
    @contract('IntRange.'+n,['C17'],functions=[fn],roots=['vf_'+n],assume=['step >= 1'],**kw)
    def _(ex):
        st=State(); ex.generic_frame=False; mn,mx,sp,x=z3.BitVecs('min max step x',32); st.assume(sp>=1)
        a=[mn,mx,sp]+([x] if n=='range' else []); finish(ex,ex.run_func(ex.mod.funcs['@vf_'+n],a,st),lambda s,r:post(r if not z3.is_bv(r) or r.size()>1 else r==1,mn,mx,sp,x))
L=lambda x:z3.SignExt(32,x)
rng('range','IntRange::contains',lambda r,mn,mx,sp,x:[('exactly the progression within the bounds',r==z3.And(mn<=x,x<=mx,z3.SRem(L(x)-L(mn),L(sp))==0))])
rng('rlow','IntRange::lowerBound',lambda r,mn,mx,sp,x:[('lower bound',r==mn)])
rng('rupp','IntRange::upperBound',lambda r,mn,mx,sp,x:[('upper bound',r==mx)])
IN=z3.Function('INSET',I32,z3.BoolSort()); LB,UB=z3.BitVecs('LB UB',32)
def size(null):
    nm='SizeConstraint'+('.all' if null else ''); A=['the subset contains only numbers between its lowerBound() and upperBound()','n < 2^20']
    def setup(ex):
        st=State(); ex.generic_frame=False; ex.fams['IS']=Fam('IS',8,{},cell=True); ex.fams['c']=Fam('c',4,{},cell=True); ex.fams['VT']=Fam('VT',512,{},cell=True); ex.fams['FN']=Fam('FN',512,{},cell=True)
        st.cells[('IS',0)]=Ptr('VT')
        def lay(e,s,a,i):
            for x,n in zip(a,('in','lo','up')): s.cells[('VT',z3.simplify(x).as_long())]=Ptr('FN',off={'in':0,'lo':8,'up':16}[n])
        ex.handlers+=[('^@vf_layvt$',lay),(r'^@virtual:0$',lambda e,s,a,i:IN(a[1])),(r'^@virtual:8$',lambda *a:LB),(r'^@virtual:16$',lambda *a:UB)]
        x=z3.BitVec('xi',32)
        if null: st.assume(FA([x],IN(x),IN(x)))
        else: st.assume(FA([x],z3.Implies(IN(x),z3.And(LB<=x,x<=UB)),IN(x)))
        return st
    sub=NULL if null else Ptr('IS')
    def ax(st,l): st.assume(CN(l)>=0,CN(l)<=l,CN(b32(0))==0,step_V(l),CN(l-1)>=0,CN(l-1)<=l-1)
    @contract(nm+'.getRoot',['C17'],functions=['SizeConstraint::getRoot'],roots=['vf_sroot'],assume=A,**kw)
    def _(ex):
        st=setup(ex); n=z3.BitVec('n',32); st.assume(n>=1,n<b32(1<<20)); ax(st,n)
        def post(s,r): return [('counts from 0',s.cells[('c',0)]==0),('root level or rejection',z3.Or(r==n,r==0)),('rejects only what has no member',z3.Implies(r==0,z3.Not(IN(CN(n)))))]
        finish(ex,ex.run_func(ex.mod.funcs['@vf_sroot'],[sub,n,Ptr('c')],st),post)
    @contract(nm+'.getChild',['C17'],functions=['SizeConstraint::getChild'],roots=['vf_schild'],assume=A,**kw)
    def _(ex):
        st=setup(ex); n,l,v,c0=z3.BitVecs('n l v count',32); st.assume(n>=1,n<b32(1<<20),l>=1,l<=n,z3.Or(v==0,v==1),V(l)==v,c0>=0,c0<=n-l); ax(st,l); st.cells[('c',0)]=c0; want=IN(c0+CN(l))
        def post(s,r):
            c=s.cells[('c',0)]
            return [('next level or a terminal',z3.Or(r==0,r==z3.If(l>1,l-1,b32(-1)))),('rejects only non-members',z3.Implies(r==0,z3.Not(want))),('accepts only members',z3.Implies(r==-1,want)),('state below means the same',z3.Implies(r>0,z3.And(want==IN(c+CN(r)),c>=0,c<=n-r)))]
        finish(ex,ex.run_func(ex.mod.funcs['@vf_schild'],[sub,n,Ptr('c'),l,v],st),post)
size(False); size(True)
D=z3.Function('D',B64,I32); SAT=z3.Function('SAT',B64,I32,z3.BoolSort()); OWN=z3.Function('OWN',B64,B64); LIM=1<<28
AL=['values, weights and bounds are below 2^28 in magnitude (sums within the machine range)','the items of a level refer to different constraints; addMin <= 0 <= addMax, both 0 at the last item of a constraint (as addConstraint makes them)']
def lay(ex):
    st=State(); ex.generic_frame=False; o=ex.o={}; qi.CROSS=False; ex.fams['C']=Fam('C',128,{},cell=True)
    def item(e,s,a,i):
        for n,p in zip(('i','w','mn','mx','lb','ub','fc','size'),a[1:]): o[n]=p.off-a[0].off
    def lc(e,s,a,i): o['cl']=a[1].off-a[0].off; o['as']=a[2].off-a[0].off
    def go(e,s,a,i): e.go(s); e.s0=s.copy()
    ex.handlers+=[('^@vf_layitem$',item),('^@vf_laylc$',lc),('^@vf_go$',go)]; return st
@lemma('LinearConstraints.compression',['C17'],functions=['(a value that satisfies its bounds for every contribution)'])
def _():
    lb,ub,mn,mx,v,d=z3.BitVecs('lb ub mn mx v d',32); R=[z3.And(x>-LIM,x<LIM) for x in(lb,ub,mn,mx,d)]+[v>-2*LIM,v<2*LIM,mn<=d,d<=mx,mn<=0,mx>=0]; B=R+[lb<=v+mn,v+mx<=ub]; ok=z3.And(lb<=v+d,v+d<=ub); bad=z3.Or(v+mx<lb,ub<v+mn)
    return [('value',B,ok),('rejected',R+[bad],z3.Not(ok)),('last item',R+[mn==0,mx==0,z3.Not(bad)],ok),('compressed, lower',B,lb<=(lb-mn)+d),('compressed, upper',B,(lb-mn)+d<=ub)]
def lin(tk):
    @contract('LinearConstraints.getChild.%d'%tk,['C17'],functions=['LinearConstraints<int>::getChild'],roots=['vf_lchild'],assume=AL,budget=120,**kw)
    def _(ex):
        st=lay(ex); ex.timeout=30000; o=ex.o; l=z3.ZeroExt(12,z3.BitVec('l',20)); lev=z3.ZeroExt(44,z3.BitVec('l',20)); take=z3.BoolVal(bool(tk)); m=z3.ZeroExt(33,z3.BitVec('items',31)); sz=z3.ZeroExt(33,z3.BitVec('arraySize',31))
        def go(s):
            ex.fams['IT']=Fam('IT',o['size'],{**{o[k]:FInt(32) for k in('i','w','mn','mx','lb','ub')},o['fc']:FInt(8)},nix=1,length=lambda q,ix:m)
            ex.fams['LR']=Fam('LR',24,{0:FOwn('IT',lambda ix,el:(el,)),8:FRef('IT',lambda ix,el:(el,))}); ex.fams['VA']=Fam('VA',4,{0:FInt(32)},length=lambda q,ix:sz)
            s.cells[('C',o['cl'])]=Ptr('LR'); s.assume(ex.arr(s,'LR',8)[lev]==m+1,l>=1); k,j=z3.BitVecs('pk pj',64)
            I=lambda f:ex.arr(s,'IT',o[f])[lev]; ex.I={f:I(f) for f in('i','w','mn','mx','lb','ub','fc')}; it=ex.I; idx=z3.SignExt(32,it['i'][k])
            ok=[z3.And(x>b32(-LIM),x<b32(LIM)) for x in(it['w'][k],it['mn'][k],it['mx'][k],it['lb'][k],it['ub'][k])]
            for f in it: s.assume(FA([k],z3.Implies(z3.ULT(k,m),z3.And(z3.ULT(idx,sz),OWN(idx)==k,it['mn'][k]<=0,it['mx'][k]>=0,it['mn'][k]<=D(k),D(k)<=it['mx'][k],z3.ULE(it['fc'][k],1),z3.Implies(it['fc'][k]!=0,z3.And(it['mn'][k]==0,it['mx'][k]==0)),*ok)),it[f][k]))
            va=ex.arr(s,'VA',0); s.assume(FA([j],z3.And(va[j]>b32(-LIM),va[j]<b32(LIM),z3.Implies(z3.ULT(OWN(j),m),z3.SignExt(32,it['i'][OWN(j)])==j)),va[j],OWN(j)))
            ex.s0=s; v=v1(idx)
            # SAT(k,v) stands for lb_k <= v+D(k) <= ub_k; its facts are the lemma
            lo,hi,mn,mx=[it[f][k] for f in('lb','ub','mn','mx')]
            s.assume(FA([k],z3.Implies(z3.ULT(k,m),z3.And(z3.Implies(z3.And(lo<=v+mn,v+mx<=hi),z3.And(SAT(k,v),SAT(k,lo-mn))),z3.Implies(z3.Or(v+mx<lo,hi<v+mn),z3.Not(SAT(k,v))),z3.Implies(z3.And(it['fc'][k]!=0,z3.Not(z3.Or(v+mx<lo,hi<v+mn))),SAT(k,v)))),it['i'][k]))
        ex.go=go
        sat=SAT
        def v1(j): return ex.arr(ex.s0,'VA',0)[j]+(ex.I['w'][OWN(j)] if tk else b32(0))
        def done(s,j):
            k=OWN(j); v=ex.arr(s,'VA',0)[j]; fc=ex.I['fc'][k]!=0
            return [('last item satisfied',z3.Implies(fc,sat(k,v1(j)))),('value reset after the last item',z3.Implies(fc,v==0)),('truth kept',z3.Implies(z3.And(z3.Not(fc),sat(k,v1(j))),sat(k,v))),('falsity kept',z3.Implies(z3.And(z3.Not(fc),sat(k,v)),sat(k,v1(j)))),('value in range',z3.And(v>b32(-2*LIM),v<b32(2*LIM)))]
        def cands(le):
            s=le.st; j=z3.BitVec('qj',64); va=ex.arr(s,'VA',0); out=[]
            for n,p in le.ptrs('IT'):
                out+=[(n+' in list',z3.ULE(p.el,m)),('from %s: not changed'%n,FA([j],z3.Implies(z3.UGE(OWN(j),p.el),va[j]==ex.arr(ex.s0,'VA',0)[j]),va[j]))]
                out+=[('before %s: %s'%(n,w),FA([j],z3.Implies(z3.ULT(OWN(j),p.el),g),va[j])) for w,g in done(s,j)]
            return out
        ex.cands=cands; J=z3.BitVec('j_any',64)
        def post(s,r):
            k=z3.BitVec('xk',64); idx=z3.SignExt(32,ex.I['i'][k]); allin=FA([k],z3.Implies(z3.ULT(k,m),sat(k,v1(idx))),ex.I['i'][k])
            return [('next level or a terminal',z3.Or(r==0,r==z3.If(l>1,l-1,b32(-1)))),('rejects only if an item cannot be satisfied',z3.Implies(r==0,z3.Not(allin))),
              *[('otherwise, each item: '+w,z3.Implies(z3.And(r!=0,z3.ULT(OWN(J),m)),g)) for w,g in done(s,J)],('other values are not changed',z3.Implies(z3.UGE(OWN(J),m),ex.arr(s,'VA',0)[J]==ex.arr(ex.s0,'VA',0)[J]))]
        finish(ex,ex.run_func(ex.mod.funcs['@vf_lchild'],[Ptr('C'),Ptr('VA'),l,take],st),post)
lin(0); lin(1)
