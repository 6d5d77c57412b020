"""NodeId and Node (dd/Node.hpp): C19. row = bits 63..44, attribute = bit 43, col = bits 42..0."""
from ..run import *
FNS='make2 make3 row col attr setattr without code hasempty hash eq ne lt ge gt le'.split()
NF=[n+a for a in '235' for n in('neq','nne','nhash','nmk2_','nmkp_','ninit')]
kw=dict(harness='node.cpp',roots=['vf_'+f for f in FNS+NF])
ATT=bv(1<<43); RMAX=(1<<20)-1; CMAX=(1<<43)-1
def B(x): return x if z3.is_bool(x) else x!=0
def row(x): return z3.LShR(x,44)
def col(x): return x&bv(CMAX)
def att(x): return (x&ATT)!=0
def code(x): return x&~ATT
def one(name,args,post,fn=None):
    @contract('NodeId.'+name,['C19'],functions=['NodeId::'+(fn or name)],**kw)
    def _(ex):
        st=State(); vs=[z3.Bool(n[1:]) if n[0]=='?' else z3.BitVec(n,64) for n in args]
        if name.startswith('make'): st.assume(z3.ULE(vs[0],bv(RMAX)),z3.ULE(vs[1],bv(CMAX)))
        outs=ex.run_func(ex.mod.funcs['@vf_'+name],vs,st); finish(ex,outs,lambda s,r:post(r,*vs))
one('make2',['r','c'],lambda f,r,c:[('level kept',row(f)==r),('position kept',col(f)==c),('no attribute',z3.Not(att(f)))],'NodeId(row,col)')
one('make3',['r','c','?a'],lambda f,r,c,a:[('level kept',row(f)==r),('position kept',col(f)==c),('attribute kept',att(f)==a)],'NodeId(row,col,attr)')
one('row',['x'],lambda f,x:[('level',z3.SignExt(32,f)==row(x))])
one('col',['x'],lambda f,x:[('position',f==col(x))])
one('attr',['x'],lambda f,x:[('attribute',B(f)==att(x))],'getAttr')
one('setattr',['x','?v'],lambda f,x,v:[('attribute set',att(f)==v),('level kept',row(f)==row(x)),('position kept',col(f)==col(x))],'setAttr')
one('without',['x'],lambda f,x:[('no attribute',z3.Not(att(f))),('level and position kept',z3.And(row(f)==row(x),col(f)==col(x)))],'withoutAttr')
one('code',['x'],lambda f,x:[('code',f==code(x))])
one('hasempty',['x'],lambda f,x:[('1-terminal or attribute',B(f)==z3.Or(att(x),x==1))],'hasEmpty')
EQ=lambda x,y:z3.And(row(x)==row(y),col(x)==col(y)); LT=lambda x,y:z3.Or(z3.ULT(row(x),row(y)),z3.And(row(x)==row(y),z3.ULT(col(x),col(y))))
for n,o,f in(('eq','operator==',lambda x,y:EQ(x,y)),('ne','operator!=',lambda x,y:z3.Not(EQ(x,y))),('lt','operator<',LT),('ge','operator>=',lambda x,y:z3.Not(LT(x,y))),('gt','operator>',lambda x,y:LT(y,x)),('le','operator<=',lambda x,y:z3.Not(LT(y,x)))):
    one(n,['x','y'],(lambda f:lambda r,x,y:[('by level then position, attribute ignored',B(r)==f(x,y)),('terminals are below every non-terminal',z3.Implies(z3.And(row(x)==0,row(y)!=0),LT(x,y)))])(f),o)
@contract('NodeId.hash',['C19'],functions=['NodeId::hash'],**kw)
def _(ex):
    st=State(); x,y=z3.BitVecs('x y',64); st.assume(EQ(x,y)); f=ex.mod.funcs['@vf_hash']; outs=[]
    for o in ex.run_func(f,[x],st):
        for p in ex.run_func(f,[y],o[1].copy()): outs.append(('ret',p[1],(o[2],p[2])))
    finish(ex,outs,lambda s,r:[('equal identifiers hash equally',r[0]==r[1])])
def arr(ex,n,A): ex.fams[n]=Fam(n,8,{0:FInt(64)},length=lambda s,ix:bv(A))
def node(A):
    K=range(A); k2=dict(kw)
    def get(ex,s,n): return [ex.get(s,n,(),bv(k)) for k in K]
    for nm,op in(('neq','operator=='),('nne','operator!=')):
        @contract('Node%d.%s'%(A,op),['C19'],functions=['Node<%d>::%s'%(A,op)],**kw)
        def _(ex,nm=nm):
            st=State(); arr(ex,'x',A); arr(ex,'y',A); X,Y=get(ex,st,'x'),get(ex,st,'y'); e=z3.And(*[EQ(a,b) for a,b in zip(X,Y)])
            outs=ex.run_func(ex.mod.funcs['@vf_%s%d'%(nm,A)],[Ptr('x'),Ptr('y')],st)
            finish(ex,outs,lambda s,r:[('all branches equal',B(r)==(e if nm=='neq' else z3.Not(e)))])
    @contract('Node%d.hash'%A,['C19'],functions=['Node<%d>::hash'%A],**kw)
    def _(ex):
        st=State(); arr(ex,'x',A); arr(ex,'y',A); X,Y=get(ex,st,'x'),get(ex,st,'y'); st.assume(*[EQ(a,b) for a,b in zip(X,Y)]); outs=[]; f=ex.mod.funcs['@vf_nhash%d'%A]
        st.assume(*[code(a)==code(b) for a,b in zip(X,Y)])
        for o in ex.run_func(f,[Ptr('x')],st):
            for p in ex.run_func(f,[Ptr('y')],o[1].copy()): outs.append(('ret',p[1],(o[2],p[2])))
        # codes are abstracted by variables: the hash must be a function of the codes alone
        c=[z3.BitVec('cd%d'%k,64) for k in K]
        sub=[(z3.simplify(z3.Concat(z3.Extract(63,44,v),z3.BitVecVal(0,1),z3.Extract(42,0,v))),cc) for V_ in(X,Y) for v,cc in zip(V_,c)]
        def post(s,r):
            a,b=[z3.substitute(z3.simplify(x),*sub) for x in r]
            if z3.simplify(a).eq(z3.simplify(b)): return [('equal nodes hash equally',z3.BoolVal(True))]
            return [('equal nodes hash equally',r[0]==r[1])]
        finish(ex,outs,post)
    @contract('Node%d.Node(f0,f1)'%A,['C19'],functions=['Node<%d>::Node(f0,f1)'%A],**kw)
    def _(ex):
        st=State(); arr(ex,'x',A); f,g=z3.BitVecs('f g',64)
        outs=ex.run_func(ex.mod.funcs['@vf_nmk2_%d'%A],[Ptr('x'),f,g],st)
        finish(ex,outs,lambda s,r:[('branch %d'%k,ex.get(s,'x',(),bv(k))==(f if k==0 else g)) for k in K])
    @contract('Node%d.Node(array)'%A,['C19'],functions=['Node<%d>::Node(NodeId const*)'%A],**kw)
    def _(ex):
        st=State(); arr(ex,'x',A); arr(ex,'y',A); Y=get(ex,st,'y')
        outs=ex.run_func(ex.mod.funcs['@vf_nmkp_%d'%A],[Ptr('x'),Ptr('y')],st)
        finish(ex,outs,lambda s,r:[('branch %d copied'%k,ex.get(s,'x',(),bv(k))==Y[k]) for k in K])
    @contract('InitializedNode%d'%A,['C19'],functions=['InitializedNode<%d>()'%A],**kw)
    def _(ex):
        st=State(); arr(ex,'x',A); outs=ex.run_func(ex.mod.funcs['@vf_ninit%d'%A],[Ptr('x')],st)
        finish(ex,outs,lambda s,r:[('branch %d is the impossible terminal'%k,z3.And(row(ex.get(s,'x',(),bv(k)))==0,col(ex.get(s,'x',(),bv(k)))==CMAX)) for k in K])
for A in(2,3,5): node(A)
