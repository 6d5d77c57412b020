// C03: reduction yields the canonical minimal diagram.
#include "canon.hpp"
template<int AR> static void one(rt::Rng& R,int maxN,int maxStates){
    int N=R.range(0,maxN); GenOpt g; g.maxStates=R.range(1,maxStates); g.pSkip=R.below(60); g.p0=R.below(50); g.p1=R.below(25); g.pClone=R.below(80); g.pAllZero=R.below(60); g.complete=R.chance(30);
    Dag<AR> d=genDag<AR>(R,N,g); rt::note()=d.str(); auto b=ttDag(d,N,false),z=ttDag(d,N,true); rt::nontrivial(htt(b)); Canon<AR> C;
    DdStructure<AR> o((ScalarSpec<AR>(d)));
    for(int k=0;k<3;++k){ DdStructure<AR> x(o); doReduce(x,Kind(k)); structCanon(x,Kind(k)); C.k=Kind(k);
        if(k!=QDD||g.complete){ size_t want=C.count(k==ZDD_?z:b,N); RT_CHECK(x.size()==want,kname(Kind(k))<<" reduction has "<<x.size()<<" nodes, the canonical diagram has "<<want); }
        size_t s1=x.size(); doReduce(x,Kind(k)); structCanon(x,Kind(k)); RT_CHECK(x.size()==s1,"repeating "<<kname(Kind(k))<<" reduction changes the size");
    }
    // other ways to build the same function lead to the same diagram
    DdStructure<AR> bd(o),zd(o),qd(o); bd.bddReduce(); zd.zddReduce(); qd.qddReduce();
    { DdStructure<AR> y(qd); y.bddReduce(); RT_CHECK(y==bd,"BDD reduction via quasi reduction differs"); structCanon(y,BDD_); }
    { DdStructure<AR> y(qd); y.zddReduce(); RT_CHECK(y==zd,"ZDD reduction via quasi reduction differs"); structCanon(y,ZDD_); }
    { DdStructure<AR> y((bddUnreduction(ScalarSpec<AR>(d),N))); y.bddReduce(); RT_CHECK(y==bd,"BDD reduction of the completed diagram differs"); DdStructure<AR> w((bddUnreduction(ScalarSpec<AR>(d),N))); C.k=QDD; w.qddReduce(); structCanon(w,QDD); RT_CHECK(w.size()==C.count(b,N),"quasi reduction of the completed diagram has "<<w.size()<<" nodes"); }
    { DdStructure<AR> y((zddUnreduction(ScalarSpec<AR>(d),N))); y.zddReduce(); RT_CHECK(y==zd,"ZDD reduction of the completed diagram differs"); }
    { DdStructure<AR> y(bd); DdStructure<AR> y2((zddLookahead(ScalarSpec<AR>(d)))); y2.zddReduce(); RT_CHECK(y2==zd,"ZDD reduction after lookahead differs"); }
}
SUITE(binary,12000,120000){ one<2>(R,IDX%10==0?7:5,IDX%3?4:10); }
SUITE(ternary,3000,30000){ one<3>(R,4,6); }
SUITE(arity4,800,10000){ one<4>(R,3,6); }
SUITE(large,16,160){
    int N=R.range(10,150); GenOpt g; g.maxStates=R.range(2,60); g.pSkip=R.below(20); g.p0=R.below(10); g.p1=R.below(3); g.pClone=40; g.pAllZero=R.below(4); g.rootTop=true;
    Dag<2> d=genDag<2>(R,N,g); { std::ostringstream o; o<<"large N="<<N<<" states<="<<g.maxStates; rt::note()=o.str(); } rt::nontrivial(R.next());
    DdStructure<2> o((ScalarSpec<2>(d))),q(o),b(o),z(o); q.qddReduce(); b.bddReduce(); z.zddReduce(); structCanon(q,QDD); structCanon(b,BDD_); structCanon(z,ZDD_);
}
