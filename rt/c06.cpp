// C06: lookahead, unreduction, bdd2zdd, zdd2bdd.
#include "canon.hpp"
template<int AR,class S> static void build(S const& s,std::vector<char> const& want,int N,bool zdd,const char* what){
    TT_CHECK(AR,want,ttSpec<AR>(s,N,zdd),N,what<<" (followed directly)"); DdStructure<AR> dd(s); wellFormed(dd); TT_CHECK(AR,want,ttDd(dd,N,zdd),N,what<<" (constructed)");
}
// no state handed out by a lookahead specification w over s is deletable by the transitions of s
template<int AR,class W,class S> static void noRedundant(W w,S s,bool zdd,rt::Rng& R){
    std::vector<std::vector<char>> B(AR+1,std::vector<char>(s.datasize()+8)); std::vector<char> cur(s.datasize()+8);
    int lv=w.get_root(cur.data());
    while(lv>0){ int L[AR]; 
        for(int b=0;b<AR;++b){ s.get_copy(B[b].data(),cur.data()); L[b]=s.get_child(B[b].data(),lv,b); }
        bool del=true; for(int b=1;b<AR;++b){ if(zdd){ if(L[b]!=0) del=false; } else if(!(L[b]==L[0]&&(L[b]<=0||s.equal_to(B[b].data(),B[0].data(),L[b])))) del=false; }
        RT_CHECK(!del,(zdd?"ZDD":"BDD")<<" lookahead hands out a state at level "<<lv<<" that the reduction rule deletes");
        for(int b=0;b<AR;++b) s.destruct(B[b].data()); lv=w.get_child(cur.data(),lv,R.below(AR)); }
    s.destruct(cur.data());
}
template<int AR,class S> static void explicitLevels(S s,int top,rt::Rng& R){
    std::vector<char> p(s.datasize()+8); int lv=s.get_root(p.data()); RT_CHECK(lv<=0||lv==top,"expansion starts at level "<<lv<<" instead of "<<top);
    while(lv>0){ int n=s.get_child(p.data(),lv,R.below(AR)); RT_CHECK(n==lv-1||n==0||(lv==1&&n<0),"expansion skips from level "<<lv<<" to "<<n); lv=n; } s.destruct(p.data());
}
template<int AR> static void one(rt::Rng& R,int maxN){
    int N=R.range(0,maxN); GenOpt g; g.maxStates=R.range(1,4); g.pSkip=R.below(70); g.p0=R.below(40); g.p1=R.below(30); g.pAllZero=R.below(60); g.pClone=R.below(60); g.pTermRoot=10;
    int n1=R.chance(60)?N:R.range(0,N); Dag<AR> d=genDag<AR>(R,n1,g); rt::note()=d.str(); { std::ostringstream o; o<<" numVars="<<N; rt::note()+=o.str(); }
    auto b=ttDag(d,N,false),z=ttDag(d,N,true); rt::nontrivial(htt(b)); ScalarSpec<AR> s(d,R.below(4)); LifeSpec<AR> l(d); ArrSpec<AR,int> a(d,3,1);
    build<AR>(bddLookahead(s),b,N,false,"BDD lookahead"); build<AR>(zddLookahead(s),z,N,true,"ZDD lookahead"); build<AR>(bddLookahead(l),b,N,false,"BDD lookahead"); build<AR>(zddLookahead(l),z,N,true,"ZDD lookahead");
    for(int k=0;k<4;++k){ noRedundant<AR>(bddLookahead(s),s,false,R); noRedundant<AR>(zddLookahead(s),s,true,R); noRedundant<AR>(zddLookahead(l),l,true,R); noRedundant<AR>(bddLookahead(l),l,false,R); }
    build<AR>(bddUnreduction(s,N),b,N,false,"BDD unreduction"); build<AR>(zddUnreduction(s,N),z,N,true,"ZDD unreduction (zero-suppressed reading)"); build<AR>(zddUnreduction(l,N),z,N,false,"ZDD unreduction (explicit levels)"); build<AR>(bddUnreduction(a,N),b,N,false,"BDD unreduction");
    for(int k=0;k<4;++k){ explicitLevels<AR>(bddUnreduction(s,N),std::max(N,d.root.lv),R); explicitLevels<AR>(zddUnreduction(l,N),std::max(N,d.root.lv),R); }
    RT_CHECK(Life::live().empty(),"states leaked");
    // fewer variables than levels: the larger number is used
    { int small=R.range(0,N); auto u=bddUnreduction(s,small); int M=N; TT_CHECK(AR,b,ttSpec<AR>(u,M,false),M,"BDD unreduction with numVars "<<small); }
    DdStructure<AR> bd(s); if(R.chance(70)) bd.bddReduce(); DdStructure<AR> zz=bd.bdd2zdd(N); wellFormed(zz); TT_CHECK(AR,b,ttDd(zz,N,true),N,"bdd2zdd");
    DdStructure<AR> zd(s); if(R.chance(70)) zd.zddReduce(); DdStructure<AR> bb=zd.zdd2bdd(N); wellFormed(bb); TT_CHECK(AR,z,ttDd(bb,N,false),N,"zdd2bdd");
    DdStructure<AR> back=zz.zdd2bdd(N); TT_CHECK(AR,b,ttDd(back,N,false),N,"bdd2zdd then zdd2bdd"); back.bddReduce(); bd.bddReduce(); RT_CHECK(back==bd,"round trip through ZDD is not the same BDD");
    DdStructure<AR> back2=bb.bdd2zdd(N); back2.zddReduce(); zd.zddReduce(); RT_CHECK(back2==zd,"round trip through BDD is not the same ZDD");
}
SUITE(binary,4000,40000){ one<2>(R,IDX%10?5:8); }
SUITE(ternary,1000,10000){ one<3>(R,4); }
