// C16: specification states are created and released in balance; merging of states.
#include "canon.hpp"
template<int AR> static Dag<AR> mk(rt::Rng& R,int N){ GenOpt g; g.maxStates=R.range(1,6); g.pSkip=R.below(60); g.p0=R.below(40); g.p1=R.below(30); g.pClone=R.below(40); g.pTermRoot=6; return genDag<AR>(R,N,g); }
static void balance(std::string const& what){ RT_CHECK(Life::live().empty(),what<<": "<<Life::live().size()<<" states were never released"); }
static void comb(rt::Rng& R,int N,LifeSpec<2> const& s,LifeSpec<2> const& t,std::string const& n){
    int k=R.below(7); std::ostringstream o; o<<n<<" combination "<<k; rt::note()=o.str();
    { DdStructure<2> f; switch(k){ case 0: f=DdStructure<2>(bddAnd(s,t)); break; case 1: f=DdStructure<2>(bddOr(s,t)); break; case 2: f=DdStructure<2>(zddIntersection(s,t)); break; case 3: f=DdStructure<2>(zddUnion(s,t)); break; case 4: f=DdStructure<2>(zddLookahead(zddUnion(s,t,s))); break; case 5: f=DdStructure<2>(bddAnd(bddOr(s,t),t)); break; case 6: f=DdStructure<2>(zddUnion(zddIntersection(s,t),s)); break; } balance("combination"); }
    std::ostringstream os; zddIntersection(s,t).dumpDot(os); balance("graph export of a combination"); try { bddOr(s,t).findOneInstance(); } catch(std::runtime_error&){} balance("instance search of a combination"); }
static void comb(rt::Rng&,int,LifeSpec<3> const&,LifeSpec<3> const&,std::string const&){}
template<int AR> static void lookUn(rt::Rng& R,int N,LifeSpec<AR> const& s,std::string const& n){ int k=R.below(4); std::ostringstream o; o<<n<<" adapter "<<k; rt::note()=o.str(); DdStructure<AR> f; switch(k){ case 0: f=DdStructure<AR>(bddLookahead(s)); break; case 1: f=DdStructure<AR>(zddLookahead(s)); break; case 2: f=DdStructure<AR>(zddUnreduction<LifeSpec<AR>>(s,N+R.below(2))); break; case 3: f=DdStructure<AR>(bddUnreduction<LifeSpec<AR>>(s,N+R.below(2))); break; } balance("adapter"); }
// two live sets are told apart by the address; a wrong release or use is reported by Life itself
template<int AR> static void run(rt::Rng& R,int N){
    Dag<AR> d=mk<AR>(R,N),e=mk<AR>(R,N); int hm=R.below(2); std::string n=d.str()+" / "+e.str(); rt::note()=n; LifeSpec<AR> s(d,hm),t(e,hm); int b0=Life::born();
    { DdStructure<AR> f(s); balance("construction"); rt::note()=n+" zddSubset"; f.zddSubset(t); balance("subsetting"); f.zddReduce(); f.zddSubset(s); balance("second subsetting"); if(R.chance(30)) f.zddSubset(zddLookahead(t)); balance("subsetting by lookahead"); }
    comb(R,N,s,t,n); lookUn(R,N,s,n);
    std::ostringstream os; rt::note()=n+" dot"; s.dumpDot(os); balance("graph export"); try { s.findOneInstance(); } catch(std::runtime_error&){} balance("instance search");
    RT_CHECK(Life::born()>b0,"no state created"); rt::nontrivial(rt::hstr(n)); }
SUITE(life2,3500,40000){ run<2>(R,R.range(0,6)); }
SUITE(life3,800,8000){ run<3>(R,R.range(0,4)); }
// merge function that keeps the cheaper of two equal states: exactly the cheapest accepted assignments remain
template<int AR> struct CostSpec: DdSpec<CostSpec<AR>,Life,AR> { Dag<AR> const* d; int salt,mod; CostSpec(Dag<AR> const& d,int salt,int mod):d(&d),salt(salt),mod(mod){}
    int c(int lv,int st,int b) const { return int(rt::Rng(salt*7919+lv*631+st*37+b).next()%mod); }
    int getRoot(Life& s){ s.set(d->root.st); s.heap[1]=0; return d->root.lv; }
    int getChild(Life& s,int lv,int b){ int v=s.val(); s.heap[1]+=c(lv,v,b); Tgt x=d->t.at(lv).at(v).at(b); s.set(x.st); return x.lv; }
    int mergeStates(Life& a,Life& b){ a.val(); b.val(); return a.heap[1]==b.heap[1]?0:a.heap[1]<b.heap[1]?2:1; }
    size_t hashCode(Life const& s) const { return s.val(); } };
template<int AR> static int cost(CostSpec<AR> const& s,std::vector<int> const& v,int N,bool zdd){ Dag<AR> const& d=*s.d; Tgt x=d.root; int above=N,k=0; while(true){ int lv=x.lv>0?x.lv:0; if(zdd) for(int i=above;i>lv;--i) if(v[i]) return -1; if(x.lv==0) return -1; if(x.lv<0) return k; k+=s.c(lv,x.st,v[lv]); above=lv-1; x=d.t[lv][x.st][v[lv]]; } }
template<int AR> static void merge(rt::Rng& R,int N){ Dag<AR> d=mk<AR>(R,N),e=mk<AR>(R,N); CostSpec<AR> s(d,R.below(1000),R.range(1,5)); std::ostringstream o; o<<d.str()<<" salt "<<s.salt<<" mod "<<s.mod; rt::note()=o.str();
    std::vector<char> w; std::vector<int> cs; int best=-1; forAssign<AR>(N,[&](std::vector<int> const& v){ int c=cost(s,v,N,false); cs.push_back(c); if(c>=0&&(best<0||c<best)) best=c; }); for(int c:cs) w.push_back(c>=0&&c==best);
    DdStructure<AR> f(s); balance("construction with merging"); TT_CHECK(AR,w,ttDd(f,N,false),N,"construction keeps exactly the cheapest");
    DdStructure<AR> g{ScalarSpec<AR>(e)}; if(R.chance(50)) g.zddReduce(); std::vector<char> base=ttDd(g,N,true); rt::note()=o.str()+" subset of "+e.str(); best=-1; size_t k=0; std::vector<int> c2; forAssign<AR>(N,[&](std::vector<int> const& v){ int c=base[k++]?cost(s,v,N,true):-1; c2.push_back(c); if(c>=0&&(best<0||c<best)) best=c; }); std::vector<char> w2; for(int c:c2) w2.push_back(c>=0&&c==best);
    g.zddSubset(s); balance("subsetting with merging"); TT_CHECK(AR,w2,ttDd(g,N,true),N,"subsetting keeps exactly the cheapest"); std::ostringstream os; s.dumpDot(os); balance("export with merging"); rt::nontrivial(rt::hstr(o.str())); }
SUITE(merge2,4000,40000){ merge<2>(R,R.range(0,6)); }
SUITE(merge3,800,8000){ merge<3>(R,R.range(0,4)); }
SUITE(big,16,100){ int N=R.range(20,80); GenOpt g; g.maxStates=R.range(20,60); g.pSkip=R.below(60); g.p0=R.range(10,60); g.p1=5; g.rootTop=true; g.pAllZero=30; Dag<2> d=genDag<2>(R,N,g),e=genDag<2>(R,N,g); rt::note()="big"; DdStructure<2> f{LifeSpec<2>(d)}; balance("big construction"); f.zddSubset(LifeSpec<2>(e)); balance("big subsetting"); DdStructure<2> h{CostSpec<2>(d,3,5)}; balance("big merging"); wellFormed(h); rt::nontrivial(f.size()); }
