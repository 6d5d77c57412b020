// C09: iteration enumerates every member exactly once.
#include "canon.hpp"
static void iter(DdStructure<2> const& x,int N,const char* what){
    std::set<std::set<int>> want; auto t=ttDd(x,N,true); size_t k=0; forAssign<2>(N,[&](std::vector<int> const& v){ if(t[k++]){ std::set<int> s; for(int i=1;i<=N;++i) if(v[i]) s.insert(i); want.insert(s); } });
    std::set<std::set<int>> got; size_t n=0; DdStructure<2>::const_iterator it=x.begin(),en=x.end();
    for(;it!=en;++it){ std::set<int> s=*it; RT_CHECK(it->size()==s.size(),"operator->"); std::ostringstream o; for(int i:s) o<<i<<" "; RT_CHECK(got.insert(s).second,what<<": member {"<<o.str()<<"} visited twice"); RT_CHECK(want.count(s),what<<": {"<<o.str()<<"} is not a member"); RT_CHECK(++n<=want.size(),"too many elements"); RT_CHECK(it==it,"iterator equality"); }
    RT_CHECK(it==en&&!(it!=en),what<<": end"); RT_CHECK(n==want.size(),what<<": "<<n<<" elements visited, the family has "<<want.size()); RT_CHECK((x.begin()==x.end())==want.empty(),what<<": empty family");
    rt::nontrivial(htt(t));
}
SUITE(random,20000,200000){ int N=R.range(0,IDX%10?5:8); GenOpt g; g.maxStates=R.range(1,4); g.pSkip=R.below(70); g.p0=R.below(60); g.p1=R.below(25); g.pAllZero=R.below(60); g.pTermRoot=6; Dag<2> d=genDag<2>(R,N,g); rt::note()=d.str();
    DdStructure<2> x((ScalarSpec<2>(d))); iter(x,N,"unreduced"); x.zddReduce(); iter(x,N,"reduced"); DdStructure<2> y(x); iter(y,N,"copy"); Dag<2> e=genDag<2>(R,N,g); rt::note()+=" subset "+e.str(); y.zddSubset(ScalarSpec<2>(e)); iter(y,N,"subset"); }
SUITE(universal,11,13){ DdStructure<2> u(IDX); rt::note()="universal"; iter(u,IDX,"universal"); }
SUITE(terminals,2,2){ Dag<2> d; d.n=0; d.t.resize(1); d.root=Tgt{IDX?-1:0,0}; DdStructure<2> x((ScalarSpec<2>(d))); rt::note()=d.str(); iter(x,3,"terminal"); DdStructure<2> z; iter(z,2,"default"); }
