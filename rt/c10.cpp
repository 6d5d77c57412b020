// C10: equality of diagrams.
#include "canon.hpp"
// reference: unfolding equality by bisimulation on pairs
template<int AR> static bool refEq(DdStructure<AR> const& a,DdStructure<AR> const& b){ std::set<std::pair<std::pair<int,size_t>,std::pair<int,size_t>>> seen; std::vector<std::pair<NodeId,NodeId>> st; st.push_back(std::make_pair(a.root(),b.root()));
    while(!st.empty()){ NodeId f=st.back().first,g=st.back().second; st.pop_back(); if(f.row()!=g.row()) return false; if(f.row()==0){ if(f.col()!=g.col()) return false; continue; } auto k=std::make_pair(std::make_pair(f.row(),(size_t)f.col()),std::make_pair(g.row(),(size_t)g.col())); if(!seen.insert(k).second) continue; for(int c=0;c<AR;++c) st.push_back(std::make_pair((*a.getDiagram())[f.row()][f.col()].branch[c],(*b.getDiagram())[g.row()][g.col()].branch[c])); } return true; }
template<int AR> static void cmp(DdStructure<AR> const& a,DdStructure<AR> const& b,const char* what){ bool w=refEq(a,b); RT_CHECK((a==b)==w,what<<": operator== gives "<<!w); RT_CHECK((b==a)==w,what<<": operator== is not symmetric"); RT_CHECK((a!=b)==!w&&(b!=a)==!w,what<<": operator!="); }
template<int AR> static Dag<AR> shuffle(Dag<AR> const& d,rt::Rng& R){ // renumber states
    Dag<AR> e=d; std::vector<std::vector<int>> pm(d.n+1); for(int i=1;i<=d.n;++i){ int m=d.t[i].size(); pm[i].resize(m); for(int j=0;j<m;++j) pm[i][j]=j; for(int j=m-1;j>0;--j) std::swap(pm[i][j],pm[i][R.below(j+1)]); }
    auto mp=[&](Tgt x){ if(x.lv>0) x.st=pm[x.lv][x.st]; return x; }; for(int i=1;i<=d.n;++i) for(size_t j=0;j<d.t[i].size();++j) for(int b=0;b<AR;++b) e.t[i][pm[i][j]][b]=mp(d.t[i][j][b]); e.root=mp(d.root); return e; }
template<int AR> static void one(rt::Rng& R,int maxN){
    int N=R.range(0,maxN); GenOpt g; g.maxStates=R.range(1,5); g.pSkip=R.below(60); g.p0=R.below(40); g.p1=R.below(25); g.pClone=R.below(80); Dag<AR> d=genDag<AR>(R,N,g); Dag<AR> s=shuffle(d,R); Dag<AR> e=d;
    if(N>0){ int i=R.range(1,N); auto& c=e.t[i][R.below((int)e.t[i].size())][R.below(AR)]; if(c.lv<=0) c.lv=c.lv?0:-1; else if(e.t[c.lv].size()>1) c.st=(c.st+1)%e.t[c.lv].size(); else c=Tgt{0,0}; } else e.root.lv=e.root.lv?0:-1;
    rt::note()=d.str()+" vs "+e.str(); rt::nontrivial(rt::hstr(rt::note()));
    DdStructure<AR> a((ScalarSpec<AR>(d))),b((ScalarSpec<AR>(s,1))),c((ScalarSpec<AR>(e))),a2(a),z; 
    cmp(a,a,"reflexive"); cmp(a,a2,"copy"); cmp(a,b,"renumbered"); cmp(a,c,"changed"); cmp(a,z,"empty");
    DdStructure<AR> ra(a),rb(b),rc(c); ra.zddReduce(); rb.zddReduce(); rc.zddReduce(); cmp(ra,rb,"reduced renumbered"); cmp(ra,rc,"reduced changed"); cmp(ra,a,"reduced vs unreduced"); RT_CHECK(ra==rb,"reduced diagrams of one function are unequal");
    RT_CHECK((ra==rc)==(ttDd(ra,N,true)==ttDd(rc,N,true)),"equality of reduced diagrams is not equality of functions");
    DdStructure<AR> ba(a),bc(c); ba.bddReduce(); bc.bddReduce(); RT_CHECK((ba==bc)==(ttDd(ba,N,false)==ttDd(bc,N,false)),"equality of reduced BDDs is not equality of functions");
    if(N>0){ DdStructure<AR> u(a); NodeId r=u.root(); if(r.row()>0){ u.root()=u.child(r,R.below(AR)); cmp(u,a,"same table, other root"); cmp(u,u,"subdiagram"); DdStructure<AR> v(b); v.root()=v.child(v.root(),R.below(AR)); cmp(u,v,"subdiagrams"); } }
}
SUITE(binary,16000,160000){ one<2>(R,IDX%10?5:9); }
SUITE(ternary,4000,40000){ one<3>(R,4); }
SUITE(big,60,600){ int N=R.range(8,30); GenOpt g; g.maxStates=R.range(20,200); g.p0=3; g.p1=3; g.pClone=R.below(40); g.rootTop=true; Dag<2> d=genDag<2>(R,N,g),s=shuffle(d,R); rt::note()="big"; rt::nontrivial(R.next()); DdStructure<2> a((ScalarSpec<2>(d))),b((ScalarSpec<2>(s))); cmp(a,b,"big renumbered"); a.zddReduce(); b.bddReduce(); cmp(a,b,"big"); DdStructure<2> c((ScalarSpec<2>(s))); c.zddReduce(); cmp(a,c,"big reduced"); RT_CHECK(a==c,"big reduced equal"); }
// parts of different diagrams of different sizes, selected by moving the roots (the tables keep nodes that the root does not reach)
template<int AR> static void subs(rt::Rng& R){
    int N=R.range(2,4); GenOpt g; g.maxStates=R.range(2,4); g.pSkip=R.below(40); g.p0=R.below(20); g.p1=R.below(20); g.pClone=R.below(30); g.rootTop=true;
    Dag<AR> d=genDag<AR>(R,N,g); Dag<AR> e=d; if(R.chance(50)) e=genDag<AR>(R,R.range(2,5),g); else for(int k=R.range(1,3);k>0;--k){ int i=R.range(1,N); e.t[i][R.below((int)e.t[i].size())][R.below(AR)]=Tgt{R.chance(50)?-1:0,0}; }
    rt::note()=d.str()+" vs "+e.str(); rt::nontrivial(rt::hstr(rt::note())); DdStructure<AR> a((ScalarSpec<AR>(d))),b((ScalarSpec<AR>(e)));
    auto nodes=[](DdStructure<AR> const& x){ std::vector<NodeId> v; for(int i=1;i<x.getDiagram()->numRows();++i) for(size_t j=0;j<(*x.getDiagram())[i].size();++j) v.push_back(NodeId(i,j)); return v; };
    auto va=nodes(a),vb=nodes(b); for(NodeId f:va) for(NodeId h:vb) if(f.row()==h.row()){ a.root()=f; b.root()=h; cmp(a,b,"parts of different diagrams"); }
}
SUITE(subroots,4000,40000){ if(IDX%4) subs<2>(R); else subs<3>(R); }
