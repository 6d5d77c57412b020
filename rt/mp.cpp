// The same contracts with the multi-processor algorithms switched on (three threads, whatever schedule happens: bounded).
#include "canon.hpp"
template<int AR> static Dag<AR> mk(rt::Rng& R,int N,int ms,bool complete=false){ GenOpt g; g.maxStates=R.range(1,ms); g.pSkip=R.below(60); g.p0=R.below(40); g.p1=R.below(25); g.pClone=R.below(50); g.pAllZero=R.below(40); g.complete=complete; return genDag<AR>(R,N,g); }
template<int AR> static void build(rt::Rng& R,int N){ Dag<AR> d=mk<AR>(R,N,9); rt::note()="MP "+d.str(); auto w=ttDag(d,N,false);
    { DdStructure<AR> f(ScalarSpec<AR>(d,R.below(4)),true); wellFormed(f); TT_CHECK(AR,w,ttDd(f,N,false),N,"parallel construction"); TT_CHECK(AR,ttDag(d,N,true),ttDd(f,N,true),N,"parallel construction, zero-suppressed reading"); }
    { DdStructure<AR> f(ArrSpec<AR,int>(d,3,1),true); wellFormed(f); TT_CHECK(AR,w,ttDd(f,N,false),N,"parallel construction (array states)"); } rt::nontrivial(htt(w)); }
SUITE(c01_2,2500,30000){ build<2>(R,R.range(0,7)); }
SUITE(c01_3,1000,12000){ build<3>(R,R.range(0,4)); }
template<int AR> static void red(rt::Rng& R,int N,bool canon){ Kind k=Kind(R.below(3)); Dag<AR> d=mk<AR>(R,N,9,k==QDD); rt::note()=std::string("MP ")+kname(k)+" reduction of "+d.str(); DdStructure<AR> f(ScalarSpec<AR>(d),R.chance(70)); f.useMultiProcessors(true); bool z=k==ZDD_; auto w=ttDag(d,N,z);
    DdStructure<AR> g(f); doReduce(g,k); wellFormed(g); if(!canon) TT_CHECK(AR,w,ttDd(g,N,z),N,"parallel "<<kname(k)<<" reduction");
    TT_CHECK(AR,ttDag(d,N,z),ttDd(f,N,z),N,"source of a parallel reduction");
    if(canon){ structCanon(g,k); DdStructure<AR> h(f); h.useMultiProcessors(false); doReduce(h,k); RT_CHECK(h.size()==g.size(),"parallel and serial reduction differ in size: "<<g.size()<<" / "<<h.size()); RT_CHECK(h==g,"parallel and serial reduction differ"); }
    rt::nontrivial(htt(w)); }
SUITE(c02_2,2500,30000){ red<2>(R,R.range(0,7),false); }
SUITE(c02_3,1000,12000){ red<3>(R,R.range(0,4),false); }
SUITE(c03_2,2500,30000){ red<2>(R,R.range(0,7),true); }
SUITE(c03_3,1000,12000){ red<3>(R,R.range(0,4),true); }
template<int AR> static void sub(rt::Rng& R,int N){ Dag<AR> d=mk<AR>(R,N,6),e=mk<AR>(R,N,6); rt::note()="MP "+d.str()+" subset by "+e.str(); auto a=ttDag(d,N,true),b=ttDag(e,N,true); std::vector<char> w; for(size_t i=0;i<a.size();++i) w.push_back(a[i]&&b[i]);
    DdStructure<AR> f(ScalarSpec<AR>(d),true); if(R.chance(50)) f.zddReduce(); f.zddSubset(ScalarSpec<AR>(e,R.below(4))); wellFormed(f); TT_CHECK(AR,w,ttDd(f,N,true),N,"parallel subsetting"); rt::nontrivial(htt(w)^htt(a)); }
SUITE(c04_2,2500,30000){ sub<2>(R,R.range(0,7)); }
SUITE(c04_3,1000,12000){ sub<3>(R,R.range(0,4)); }
static uint64_t mix(uint64_t a){ a*=0x9E3779B97F4A7C15ull; return a^(a>>29); }
template<int AR> struct TreeHash: DdEval<TreeHash<AR>,uint64_t> { void evalTerminal(uint64_t& v,int k){ v=k?77:33; } void evalNode(uint64_t& v,int i,DdValues<uint64_t,AR> const& x) const { v=mix(i+1000); for(int b=0;b<AR;++b) v=mix(v+x.get(b)*31+x.getLevel(b)); } bool isThreadSafe() const { return true; } };
template<int AR> static uint64_t hashRef(DdStructure<AR> const& f,NodeId n){ if(n.row()==0) return n.col()?77:33; uint64_t v=mix(n.row()+1000); for(int b=0;b<AR;++b){ NodeId c=(*f.getDiagram())[n.row()][n.col()].branch[b]; v=mix(v+hashRef(f,c)*31+c.row()); } return v; }
template<int AR> static void ev(rt::Rng& R,int N){ Dag<AR> d=mk<AR>(R,N,8); rt::note()="MP "+d.str(); DdStructure<AR> f(ScalarSpec<AR>(d),R.chance(50)); f.useMultiProcessors(true); if(R.chance(50)) f.zddReduce(); uint64_t h=hashRef(f,f.root()); RT_CHECK(f.evaluate(TreeHash<AR>())==h,"parallel evaluation differs from the recurrence"); RT_CHECK(f.evaluate(TreeHash<AR>())==h,"second parallel evaluation"); rt::nontrivial(h); }
SUITE(c08_2,3000,30000){ ev<2>(R,R.range(0,7)); }
SUITE(c08_3,1200,12000){ ev<3>(R,R.range(0,4)); }
