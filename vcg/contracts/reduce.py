"""DdReducer::reduce_ (dd/DdReducer.hpp), one level of the reduction for any number of branches.

 F_b(j): the b-th child of input node j after mapping to the already reduced rows (newIdTable of the pre-state).
 A node is deletable if (BDD) all F_b are the same, (ZDD) F_b is the 0-terminal for b>=1, (quasi) all F_b are the 0-terminal.
 Postcondition: a deletable node is replaced by F_0; any other is mapped to an output node of this level with the same children;
 the output row has no two nodes with the same children, no deletable node and no unused node; roots are mapped.
 The hash table is replaced by its contract (hash.py): add returns the equal element, or enters the given one."""
from ._table import *
NIR=NI+[r'MyHashTable<.*>::(MyHashTable|~MyHashTable|add|initialize)\(']
R1,C1,C2=z3.BitVecs('r_any c_any c_any2',64)
def mk(A,K):
    BDD,ZDD=K=='B',K=='Z'
    @contract('reduce.%s%d'%({'B':'bdd','Z':'zdd','Q':'quasi'}[K],A),['C02','C03'],functions=['DdReducer<%d,%s,%s>::reduce_'%(A,str(BDD).lower(),str(ZDD).lower())],harness='reduce.cpp',flags=FLAGS,noinline=NIR,roots=['vf_red%s%d'%(K,A)],budget=420,
       assume=['a table has at most 2^20 rows and rows have fewer than 2^43 columns (the limits of NodeId)','children of the level are mapped in newIdTable to rows below the level','lowerLevels lists rows below the level','registered root references are distinct variables','MyHashTable satisfies its contract (proved in C12 for an abstract element type) with Node::operator== and Node::hash'])
    def _(ex):
        st=start(ex); ex.fams['R']=Fam('R',400,{},cell=True); i32=z3.ZeroExt(12,z3.BitVec('i',20)); i=z3.ZeroExt(32,i32); qi.CROSS=False; ex.timeout=16000
        G={}
        def go(e,s):
            L=e.L; e.fams['EI']=Fam('EI',96,{},cell=True); e.fams['EO']=Fam('EO',96,{},cell=True)
            s.cells[('R',L.old-8)]=Ptr('EI'); s.cells[('R',L.new+8)]=Ptr('EO')
            fl={8*b:FInt(64) for b in range(A)}
            N=Table(e,'N',8*A,fl); N.place(s,'EI',L.tab); O=Table(e,'O',8*A,fl); O.place(s,'EO',L.tab,N.nrows(s)); T=Table(e,'I',8,{0:FInt(64)}); T.place(s,'R',L.ids,N.nrows(s))
            P=Table(e,'P',8,{0:FRef('RT')}); P.place(s,'R',L.roots,N.nrows(s)); e.fams['RT']=Fam('RT',8,{0:FInt(64)}); V=Table(e,'LV',4,{0:FInt(32)}); V.place(s,'EI',64,N.nrows(s))
            s.assume(z3.UGE(i,bv(1)),z3.ULT(i,N.nrows(s)),z3.ULE(N.nrows(s),ROWLIM))
            r,c=z3.BitVecs('pr pc',64); m=N.size(s,i); e.m=m; e.i=i; s.assume(z3.ULT(m,COLLIM))
            ids=T.data(s)
            for b in range(A):
                d=N.data(s,8*b)[i][c]; s.assume(FA([c],z3.Implies(z3.ULT(c,m),z3.And(z3.ULT(row(d),i),z3.ULT(col(d),T.size(s,row(d))))),N.data(s,8*b)[i][c]))
            s.assume(FA([r,c],z3.Implies(z3.And(z3.ULT(r,i),z3.ULT(c,T.size(s,r))),z3.ULT(row(ids[r][c]),i)),ids[r][c]))
            x=s64(V.data(s)[r][c]); s.assume(FA([r,c],z3.Implies(z3.And(z3.ULT(r,N.nrows(s)),z3.ULT(c,V.size(s,r))),z3.And(x>=1,x<r)),V.data(s)[r][c]))
            k=z3.BitVec('pk',64); pd=P.data(s)[i]; rt=e.arr(s,'RT')
            s.assume(z3.ForAll([k],z3.Implies(z3.ULT(k,P.size(s,i)),z3.And(pd[k]!=0,z3.ULT(col(rt[pd[k]-1]),m))),patterns=[pd[k]]))
            s.assume(z3.ForAll([k,c],z3.Implies(z3.And(z3.ULT(k,P.size(s,i)),z3.ULT(c,P.size(s,i)),k!=c),pd[k]!=pd[c]),patterns=[z3.MultiPattern(pd[k],pd[c])]))
            s.ghost['MEM']=z3.K(B64,z3.BoolVal(False)); s.ghost['REP']=z3.Const('M_REP',z3.ArraySort(B64,B64)); s.ghost['CNT']=bv(0)
            s.ghost['KC']=z3.Const('M_KC',z3.ArraySort(B64,B64))
            # F_b as functions of the pre-state
            G['F']=[z3.Function('F%d'%b,B64,B64) for b in range(A)]
            for b in range(A):
                d=N.data(s,8*b)[i][c]; s.assume(FA([c],z3.Implies(z3.ULT(c,m),G['F'][b](c)==ids[row(d)][col(d)]),N.data(s,8*b)[i][c])); s.assume(FA([c],z3.Implies(z3.ULT(c,m),G['F'][b](c)==ids[row(d)][col(d)]),G['F'][b](c)))
            # KEY(j): the tuple of children of node j; DEL(j): node j is deletable
            s.assume(FA([c],z3.And(KEY(c)==TUP(*[code(F(b,c)) for b in range(A)]),*[PJ[b](KEY(c))==code(F(b,c)) for b in range(A)]),KEY(c))); s.assume(FA([c],DEL(c)==dele_def(c),DEL(c)))
        ex.go=go
        TUP=z3.Function('TUP%d'%A,*([B64]*(A+1))); PJ=[z3.Function('PJ%d'%b,B64,B64) for b in range(A)]; KEY=z3.Function('KEY',B64,B64); DEL=z3.Function('DEL',B64,z3.BoolSort())
        dele=lambda j:DEL(j)
        F=lambda b,j:G['F'][b](j)
        def dele_def(j):
            if BDD: return z3.And([code(F(b,j))==code(F(0,j)) for b in range(1,A)])
            return z3.And([code(F(b,j))==0 for b in range(1 if ZDD else 0,A)])
        eqF=lambda j,k:KEY(j)==KEY(k)
        he=lambda f:z3.Or(f==1,att(f))
        def h_add(e,s,a,_):
            p=s.cells.get((a[1].fam,a[1].off)); N=e.tables['N']
            if p is None or p.fam!='ND' or p.off!=0: raise Unsupported('uniq.add: not a node of the input')
            e.oblige('uniq.add: a node of this level',s,z3.And(p.ix[0]==i,z3.ULT(p.el,e.m)),'pre')
            k=z3.BitVec('mk',64); M=s.ghost['MEM']; x=p.el; D=[N.data(s,8*b)[i] for b in range(A)]; key=lambda k:TUP(*[code(D[b][k]) for b in range(A)])
            e.oblige('uniq.add: elements of the table were not modified',s,z3.ForAll([k],z3.Implies(M[k],key(k)==KEY(k))),'pre'); e.oblige('uniq.add: the children are mapped',s,key(x)==KEY(x),'pre'); s.assume(key(x)==KEY(x)); e.oblige('uniq.add: not a deletable node',s,z3.Not(DEL(x)),'pre'); s.assume(z3.Not(DEL(x)))
            same=lambda k:KEY(k)==KEY(x)
            def slot(s,el):
                c=e.alloc_cell('slot',8); s.cells[(c.fam,0)]=Ptr('ND',ix=(i,),el=el); return c
            s1=s.copy(); kk=fresh('equal',B64); s1.assume(M[kk],same(kk),z3.ULT(kk,e.m))
            s2=s; s2.assume(z3.ForAll([k],z3.Implies(M[k],z3.Not(same(k))),patterns=[KEY(k)]),z3.Not(M[x]))
            for g,v in [('MEM',z3.Store(M,x,z3.BoolVal(True))),('REP',z3.Store(s.ghost['REP'],s.ghost['CNT'],x)),('CNT',s.ghost['CNT']+1),('KC',z3.Store(s.ghost['KC'],s.ghost['CNT'],KEY(x)))]: s2.ghost[g]=v; e.wrote(('ghost',g))
            return [(s1,slot(s1,kk)),(s2,slot(s2,x))]
        def lower(e,s,a,_): V=e.tables['LV']; r=s64(a[1]); inrow(e,s,V,r,'lowerLevels'); return Ptr('LVR',el=r)
        ex.handlers[:0]=[(r'MyHashTable<.*>::(MyHashTable|~MyHashTable)\(',nop),(r'MyHashTable<.*>::add\(',h_add),(r'::lowerLevels\(',lower)]
        def cands(le):
            e=le.ex; s,s0=le.st,e.s0; N,O,T,P=[e.tables[x] for x in('N','O','I','P')]; out=[]; c,k,r=z3.BitVecs('qc qk qr',64); g=s.ghost; M,REP,CNT=g['MEM'],g['REP'],g['CNT']; m=e.m
            ids=T.data(s)[i]; ks=le.ints(64); js=le.counters(64)
            ac=lambda q,v:q
            def q1(nm,body,*p): out.append((nm,FA([c],body,*p)))
            nds=[('level',lambda j:z3.And(row(ids[j])==i,z3.ULT(col(ids[j]),CNT))),('children',lambda j:KEY(j)==g['KC'][col(ids[j])])]
            q1('members are below the end',z3.Implies(M[c],z3.ULT(c,m)),M[c]); q1('members are not deletable',z3.Implies(M[c],z3.Not(dele(c))),M[c])
            for w,f in [('row',lambda c:row(ids[c])==i),('number',lambda c:z3.ULT(col(ids[c]),CNT)),('representative',lambda c:REP[col(ids[c])]==c),('key',lambda c:g['KC'][col(ids[c])]==KEY(c))]: q1('members: '+w,z3.Implies(M[c],f(c)),ids[c])
            for w,f in [('members',lambda c:M[REP[c]]),('in row',lambda c:z3.ULT(REP[c],m)),('numbers',lambda c:code(ids[REP[c]])==((i<<44)|c)),('keys',lambda c:g['KC'][c]==KEY(REP[c]))]: q1('representatives: '+w,z3.Implies(z3.ULT(c,CNT),f(c)),*([REP[c],g['KC'][c]] if w=='keys' else [REP[c]]))
            out.append(('members differ',FA([c,k],z3.Implies(z3.And(M[c],M[k],c!=k),z3.Not(eqF(c,k))),(KEY(c),KEY(k)))))
            out.append(('rows below are not changed',FA([r,c],z3.Implies(r!=i,T.data(s)[r][c]==T.data(s0)[r][c]),T.data(s)[r][c])))
            out.append(('size of the map of this row',T.size(s,i)==m)); out.append(('sizes of the maps below',FA([r],z3.Implies(r!=i,T.sizes(s)[r]==T.sizes(s0)[r]),T.sizes(s)[r])))
            out.append(('maps below not enlarged',FA([r],z3.Implies(r!=i,z3.Or(T.sizes(s)[r]==T.sizes(s0)[r],T.sizes(s)[r]==0)),T.sizes(s)[r])))
            for n,x in ks: out+=[(n+' in row',z3.ULE(x,m)),(n+' counts',x==CNT),('count below '+n,z3.ULE(CNT,x))]
            for n,x in js:
                q1('members below '+n,z3.Implies(M[c],z3.ULT(c,x)),M[c])
                for b in range(A):
                    d=N.data(s,8*b)[i]
                    q1('below %s: canonical, branch %d'%(n,b),z3.Implies(z3.ULT(c,x),d[c]==F(b,c)),d[c]); q1('from %s: original, branch %d'%(n,b),z3.Implies(z3.And(z3.UGE(c,x),z3.ULT(c,m)),d[c]==N.data(s0,8*b)[i][c]),d[c])
                q1('below %s: deleted'%n,z3.Implies(z3.And(z3.ULT(c,x),dele(c)),ids[c]==F(0,c)),ids[c])
                [q1('below %s: kept, %s'%(n,w),z3.Implies(z3.And(z3.ULT(c,x),z3.Not(dele(c))),nd(c)),ids[c]) for w,nd in nds]
                for b in range(A):
                    o=O.data(s,8*b)[i]; q1('below %s: copied, branch %d'%(n,b),z3.Implies(z3.And(z3.ULT(c,x),row(ids[c])==i),code(o[col(ids[c])])==PJ[b](g['KC'][col(ids[c])])),ids[c])
            for b in range(A):
                out.append(('output rows unchanged, branch %d'%b,FA([r,c],z3.Implies(r!=i,O.data(s,8*b)[r][c]==O.data(s0,8*b)[r][c]),O.data(s,8*b)[r][c])))
                d=N.data(s,8*b)[i]; q1('all canonical, branch %d'%b,z3.Implies(z3.ULT(c,m),d[c]==F(b,c)),d[c])
            q1('all deleted',z3.Implies(z3.And(z3.ULT(c,m),dele(c)),ids[c]==F(0,c)),ids[c]); [q1('all kept, '+w,z3.Implies(z3.And(z3.ULT(c,m),z3.Not(dele(c))),nd(c)),ids[c]) for w,nd in nds]
            out.append(('output size',O.size(s,i)==CNT)); out.append(('count',z3.ULE(CNT,m)))
            rt,rt0=e.arr(s,'RT'),e.arr(s0,'RT'); pd=P.data(s0)[i]
            for n,x in js:
                q1('roots before %s are mapped'%n,z3.Implies(z3.And(z3.ULT(c,x),z3.ULT(c,P.size(s0,i))),rt[pd[c]-1]==ids[col(rt0[pd[c]-1])]),pd[c]); q1('roots from %s are not'%n,z3.Implies(z3.And(z3.UGE(c,x),z3.ULT(c,P.size(s0,i))),rt[pd[c]-1]==rt0[pd[c]-1]),pd[c])
                out.append((n+' in roots',z3.ULE(x,P.size(s0,i))))
            for n,p in le.ptrs('LVD'): out.append((n+' in list',z3.ULE(p.el,e.tables['LV'].size(s0,p.ix[0]))))
            return out
        ex.cands=cands
        def post(s,r):
            s0=ex.s0; N,O,T,P=[ex.tables[x] for x in('N','O','I','P')]; ids=T.data(s)[i]; j,p,q=R1,C1,C2; O_=[O.data(s,8*b)[i] for b in range(A)]; n=O.size(s,i); REP=s.ghost['REP']
            inj=z3.ULT(j,ex.m); out=[('the map covers the row',T.size(s,i)==ex.m)]
            out.append(('a deletable node is replaced by its 0-child',z3.Implies(z3.And(inj,dele(j)),ids[j]==F(0,j))))
            out.append(('any other node goes to a node of this level',z3.Implies(z3.And(inj,z3.Not(dele(j))),z3.And(row(ids[j])==i,z3.ULT(col(ids[j]),n)))))
            for b in range(A): out.append(('... with the same children, branch %d'%b,z3.Implies(z3.And(inj,z3.Not(dele(j))),code(O_[b][col(ids[j])])==code(F(b,j)))))
            out.append(('every output node is used',z3.Implies(z3.ULT(p,n),z3.And(z3.ULT(REP[p],ex.m),code(ids[REP[p]])==((i<<44)|p)))))
            inp=z3.ULT(p,n); inq=z3.ULT(q,n)
            for b in range(A): out.append(('output node has the children of its representative, branch %d'%b,z3.Implies(inp,code(O_[b][p])==code(F(b,REP[p]))))); out.append(('output node of the other position, branch %d'%b,z3.Implies(inq,code(O_[b][q])==code(F(b,REP[q])))))
            out.append(('no output node is deletable',z3.Implies(inp,z3.Not(z3.And([code(O_[b][p])==(code(O_[0][p]) if BDD else bv(0)) for b in range(0 if K=='Q' else 1,A)])))))
            out.append(('distinct positions have distinct representatives',z3.Implies(z3.And(inp,inq,p!=q),REP[p]!=REP[q])))
            out.append(('no two output nodes have the same children',z3.Implies(z3.And(inp,inq,p!=q),z3.Or([code(O_[b][p])!=code(O_[b][q]) for b in range(A)]))))
            out.append(('other output rows kept',z3.Implies(R1!=i,z3.And([O.data(s,8*b)[R1][C1]==O.data(s0,8*b)[R1][C1] for b in range(A)]+[O.size(s,R1)==O.size(s0,R1)]))))
            out.append(('maps of the rows below kept',z3.Implies(z3.And(R1!=i,z3.ULT(C1,T.size(s,R1))),T.data(s)[R1][C1]==T.data(s0)[R1][C1])))
            pd=P.data(s0)[i]; out.append(('roots are mapped',z3.Implies(z3.ULT(C1,P.size(s0,i)),ex.arr(s,'RT')[pd[C1]-1]==ids[col(ex.arr(s0,'RT')[pd[C1]-1])])))
            return out
        finish(ex,ex.run_func(ex.mod.funcs['@vf_red%s%d'%(K,A)],[Ptr('R'),i32],st),post)
for A in(2,3):
    for K in 'BZQ': mk(A,K)
