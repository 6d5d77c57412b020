// C02: reduction never changes the function.
#include "canon.hpp"
template<int AR> static void one(rt::Rng& R,int maxN,int maxStates){
    int N=R.range(0,maxN); GenOpt g; g.maxStates=R.range(1,maxStates); g.pSkip=R.below(60); g.p0=R.below(50); g.p1=R.below(25); g.pClone=R.below(80); g.pAllZero=R.below(60); g.complete=R.chance(20);
    Dag<AR> d=genDag<AR>(R,N,g); rt::note()=d.str(); auto b=ttDag(d,N,false),z=ttDag(d,N,true); rt::nontrivial(htt(b));
    DdStructure<AR> o((ScalarSpec<AR>(d))), share;
    if(R.chance(50)) share=o;                       // shared table: reduction must work on a private copy
    for(int k=0;k<3;++k){ DdStructure<AR> x(o); doReduce(x,Kind(k)); wellFormed(x);
        if(k!=ZDD_) TT_CHECK(AR,b,ttDd(x,N,false),N,kname(Kind(k))<<" reduction changed the function");
        if(k!=BDD_) TT_CHECK(AR,z,ttDd(x,N,true),N,kname(Kind(k))<<" reduction changed the zero-suppressed function");
        int reps=R.below(3); for(int r=0;r<reps;++r){ doReduce(x,Kind(k)); wellFormed(x); TT_CHECK(AR,k==ZDD_?z:b,ttDd(x,N,k==ZDD_),N,"repeated "<<kname(Kind(k))<<" reduction"); }
        if(k==QDD){ DdStructure<AR> y(x); y.bddReduce(); TT_CHECK(AR,b,ttDd(y,N,false),N,"BDD reduction after quasi reduction"); y=x; y.zddReduce(); TT_CHECK(AR,z,ttDd(y,N,true),N,"ZDD reduction after quasi reduction"); }
        if(k==BDD_){ DdStructure<AR> y(x); y.qddReduce(); TT_CHECK(AR,b,ttDd(y,N,false),N,"quasi reduction after BDD reduction"); }
    }
    TT_CHECK(AR,b,ttDd(o,N,false),N,"the unreduced original changed");
    // diagrams that are themselves results
    DdStructure<AR> u(o); u.zddReduce(); GenOpt g2=g; Dag<AR> e=genDag<AR>(R,N,g2); auto ze=ttDag(e,N,true);
    u.zddSubset(ScalarSpec<AR>(e)); std::vector<char> w(z); for(size_t i=0;i<w.size();++i) w[i]=z[i]&&ze[i];
    rt::note()=d.str()+" subset "+e.str();
    TT_CHECK(AR,w,ttDd(u,N,true),N,"subset before reduction"); u.zddReduce(); wellFormed(u); TT_CHECK(AR,w,ttDd(u,N,true),N,"ZDD reduction of a subset");
}
SUITE(binary,12000,120000){ one<2>(R,IDX%10==0?8:5,IDX%3?4:10); }
SUITE(ternary,3000,30000){ one<3>(R,4,6); }
SUITE(arity4,1000,10000){ one<4>(R,3,6); }
SUITE(large,24,200){
    int N=R.range(10,200); GenOpt g; g.maxStates=R.range(2,60); g.pSkip=R.below(20); g.p0=R.below(10); g.p1=R.below(3); g.pClone=40; g.pAllZero=R.below(4); g.rootTop=true;
    Dag<2> d=genDag<2>(R,N,g); { std::ostringstream o; o<<"large N="<<N<<" states<="<<g.maxStates; rt::note()=o.str(); }
    DdStructure<2> o((ScalarSpec<2>(d))),q(o),b(o),z(o); q.qddReduce(); b.bddReduce(); z.zddReduce(); wellFormed(q); wellFormed(b); wellFormed(z);
    for(int k=0;k<500;++k){ std::vector<int> v(N+1); for(int i=1;i<=N;++i) v[i]=R.chance(k%2?50:15); int w=dagFollow(d,v,N,false),wz=dagFollow(d,v,N,true); rt::nontrivial(rt::hstr(vstr(v)));
        RT_CHECK(ddFollow(q,v,N,false)==w,"quasi reduction, assignment "<<vstr(v)); RT_CHECK(ddFollow(b,v,N,false)==w,"BDD reduction, assignment "<<vstr(v)); RT_CHECK(ddFollow(z,v,N,true)==wz,"ZDD reduction, assignment "<<vstr(v)); }
}
