// C04: zddSubset computes the intersection with the specification.
#include "canon.hpp"
template<int AR> static void one(rt::Rng& R,int maxN,int maxStates){
    int N=R.range(0,maxN); GenOpt g; g.maxStates=R.range(1,maxStates); g.pSkip=R.below(70); g.p0=R.below(40); g.p1=R.below(25); g.pClone=R.below(50); g.pAllZero=R.below(40); g.pTermRoot=8;
    GenOpt h=g; h.maxStates=R.range(1,maxStates); h.pSkip=R.below(70); h.p0=R.below(40); h.p1=R.below(25);
    int N1=R.chance(70)?N:R.range(0,N),N2=R.chance(70)?N:R.range(0,N);
    Dag<AR> d=genDag<AR>(R,N1,g),e=genDag<AR>(R,N2,h),f=genDag<AR>(R,N2,h); rt::note()=d.str()+" subset "+e.str();
    auto want=ttDag(d,N,true); auto b=ttDag(e,N,true),c=ttDag(f,N,true); rt::nontrivial(htt(want)^htt(b)*3);
    int prep=R.below(4);
    DdStructure<AR> x((ScalarSpec<AR>(d))); if(prep==1) x.zddReduce(); if(prep==2) x.qddReduce(); if(prep==3){ x.zddReduce(); x.zddReduce(); }
    DdStructure<AR> keep(x);
    int sp=R.below(5);
    if(sp==0){ int q=R.below(4); if(q==0) x.zddSubset(BigSpec<AR,9,unsigned char>(e)); else if(q==1) x.zddSubset(BigSpec<AR,3,unsigned char>(e)); else x.zddSubset(ScalarSpec<AR>(e,R.below(4))); } else if(sp==1) x.zddSubset(LifeSpec<AR>(e)); else if(sp==2) x.zddSubset(ArrSpec<AR,int>(e,3,1)); else if(sp==3) x.zddSubset(HybSpec<AR,int,int16_t>(e,3));
    else { DdStructure<AR> y((ScalarSpec<AR>(e))); if(R.chance(50)) y.zddReduce(); x.zddSubset(y); }
    for(size_t i=0;i<want.size();++i) want[i]=want[i]&&b[i];
    wellFormed(x); TT_CHECK(AR,want,ttDd(x,N,true),N,"subset");
    TT_CHECK(AR,ttDag(d,N,true),ttDd(keep,N,true),N,"a copy of the diagram changed by subsetting");
    if(R.chance(50)) { x.zddReduce(); TT_CHECK(AR,want,ttDd(x,N,true),N,"reduction after subset"); }
    rt::note()+=" then "+f.str();
    x.zddSubset(ScalarSpec<AR>(f)); for(size_t i=0;i<want.size();++i) want[i]=want[i]&&c[i];
    wellFormed(x); TT_CHECK(AR,want,ttDd(x,N,true),N,"second subset"); x.zddReduce(); TT_CHECK(AR,want,ttDd(x,N,true),N,"reduction after second subset");
    Canon<AR> C; C.k=ZDD_; RT_CHECK(x.size()==C.count(want,N),"reduced subset is not canonical");
}
SUITE(binary,16000,160000){ one<2>(R,IDX%10==0?8:5,IDX%3?4:9); }
SUITE(ternary,4000,40000){ one<3>(R,4,5); }
SUITE(arity4,1000,10000){ one<4>(R,3,5); }
SUITE(universal,300,3000){ int n=R.range(0,8); DdStructure<2> u(n); GenOpt g; g.pSkip=R.below(70); Dag<2> e=genDag<2>(R,R.range(0,n),g); rt::note()="universal "+e.str(); u.zddSubset(ScalarSpec<2>(e)); TT_CHECK(2,ttDag(e,n,true),ttDd(u,n,true),n,"subset of the universal diagram"); rt::nontrivial(htt(ttDag(e,n,true))); }
SUITE(large,16,160){
    int N=R.range(10,150); GenOpt g; g.maxStates=R.range(2,25); g.pSkip=R.below(20); g.p0=R.below(5); g.p1=R.below(3); g.pClone=10; g.pAllZero=R.below(4); g.rootTop=true;
    Dag<2> d=genDag<2>(R,N,g),e=genDag<2>(R,N,g); { std::ostringstream o; o<<"large N="<<N; rt::note()=o.str(); }
    DdStructure<2> x((ScalarSpec<2>(d))); if(IDX%2) x.zddReduce(); x.zddSubset(ScalarSpec<2>(e)); wellFormed(x);
    // sample members of d by walking d, then compare
    for(int k=0;k<400;++k){ std::vector<int> v(N+1,0); Tgt y=(k%2?d:e).root; Dag<2> const& dd=k%2?d:e; while(y.lv>0){ v[y.lv]=R.below(2); y=dd.t[y.lv][y.st][v[y.lv]]; }
        int w=dagFollow(d,v,N,true)&&dagFollow(e,v,N,true); rt::nontrivial(rt::hstr(vstr(v))); RT_CHECK(ddFollow(x,v,N,true)==w,"assignment "<<vstr(v)<<" expected "<<w); }
}
