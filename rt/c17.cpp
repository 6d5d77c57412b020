// C17: arithmetic constraints against brute force.
#include "dags.hpp"
#include <climits>
#include <tdzdd/spec/SizeConstraint.hpp>
#include <tdzdd/spec/LinearConstraints.hpp>
#include <tdzdd/spec/DegreeConstraint.hpp>
struct AnySubset: IntSubset { std::set<int> s; bool lo,hi; bool contains(int x) const { return s.count(x)>0; } int lowerBound() const { return lo&&!s.empty()?*s.begin():IntSubset::lowerBound(); } int upperBound() const { return hi&&!s.empty()?*s.rbegin():IntSubset::upperBound(); } };
static std::unique_ptr<IntSubset> mkSub(rt::Rng& R,int n,std::string& d){ std::ostringstream o; std::unique_ptr<IntSubset> r;
    if(R.chance(65)){ int a=R.range(-2,n+2),b=R.chance(15)?INT_MAX:R.range(-2,n+3),st=R.range(1,4); o<<"range("<<a<<","<<b<<","<<st<<")"; r.reset(new IntRange(a,b,st)); }
    else { AnySubset* p=new AnySubset(); p->lo=R.chance(50); p->hi=R.chance(50); for(int i=0;i<=n;++i) if(R.chance(40)) p->s.insert(i); o<<"set{"; for(int x:p->s) o<<x<<","; o<<"}"<<p->lo<<p->hi; r.reset(p); } d=o.str(); return r; }
template<class S> static void both(S const& s,std::vector<char> const& want,int N,std::string const& what){ rt::note()=what;
    TT_CHECK(2,want,ttSpec<2>(s,N,true),N,what<<" specification as ZDD"); TT_CHECK(2,want,ttSpec<2>(s,N,false),N,what<<" specification as BDD");
    DdStructure<2> f(s); TT_CHECK(2,want,ttDd(f,N,true),N,what<<" diagram"); f.zddReduce(); TT_CHECK(2,want,ttDd(f,N,true),N,what<<" reduced diagram"); rt::nontrivial(htt(want)+N); }
SUITE(range,3000,60000){ auto pick=[&]{ switch(R.below(5)){ case 0: return R.range(-20,20); case 1: return INT_MAX-R.below(5); case 2: return INT_MIN+R.below(5); case 3: return (int)(uint32_t)R.next(); default: return R.range(-3,60); } };
    int a=pick(),b=pick(),st=R.chance(15)?INT_MAX-R.below(3):R.range(1,9); IntRange r(a,b,st); std::ostringstream o; o<<"IntRange("<<a<<","<<b<<","<<st<<")"; rt::note()=o.str();
    RT_CHECK(r.lowerBound()==a&&r.upperBound()==b,"bounds");
    for(int k=0;k<30;++k){ int x=k<6?(k<3?a:b)+(k%3-1>0?((k<3?a:b)<INT_MAX):k%3-1<0?-((k<3?a:b)>INT_MIN):0):pick(); if(k>20){ __int128 y=(__int128)a+(__int128)st*R.below(1000); if(y>INT_MAX) y=INT_MAX; x=(int)y; } bool want=x>=a&&x<=b&&((__int128)x-a)%st==0; RT_CHECK(r.contains(x)==want,o.str()<<".contains("<<x<<")"); }
    IntRange def; RT_CHECK(def.contains(0)&&def.contains(INT_MAX)&&!def.contains(-1),"default range"); rt::nontrivial(rt::hstr(o.str())); }
SUITE(size,2500,30000){ int n=R.range(1,7); std::string d; auto c=mkSub(R,n,d); std::vector<char> w; forAssign<2>(n,[&](std::vector<int> const& v){ int k=0; for(int i=1;i<=n;++i) k+=v[i]; w.push_back(c->contains(k)); }); std::ostringstream o; o<<"SizeConstraint n="<<n<<" "<<d;
    if(IDX%2) both(SizeConstraint(n,*c),w,n,o.str()); else both(SizeConstraint(n,c.get()),w,n,o.str()); if(IDX%20==0) both(SizeConstraint(n,(IntSubset const*)0),std::vector<char>(w.size(),1),n,"unconstrained"); }
template<class T> static void lin(rt::Rng& R){ int n=R.range(1,6); LinearConstraints<T> s(n); std::vector<std::tuple<std::map<int,T>,T,T>> cs; std::ostringstream o; o<<"Linear n="<<n;
    for(int k=R.below(5);k>0;--k){ std::map<int,T> e; int dens=R.range(20,100); for(int i=1;i<=n;++i) if(R.chance(dens)) e[i]=T(R.chance(15)?0:R.range(-5,5)); T lb=T(R.chance(20)?-1000:R.range(-6,6)),ub=T(R.chance(20)?1000:R.chance(30)?lb:R.range(-4,9)); o<<" ["<<lb<<"<="; for(auto& p:e) o<<"+"<<p.second<<"x"<<p.first; o<<"<="<<ub<<"]"; s.addConstraint(e,lb,ub); cs.emplace_back(e,lb,ub); }
    s.update(); std::vector<char> w; forAssign<2>(n,[&](std::vector<int> const& v){ bool ok=true; for(auto& c:cs){ T x=0; for(auto& p:std::get<0>(c)) if(v[p.first]) x+=p.second; ok=ok&&std::get<1>(c)<=x&&x<=std::get<2>(c); } w.push_back(ok); }); both(s,w,n,o.str()); }
SUITE(linear,4000,40000){ switch(IDX%3){ case 0: lin<int>(R); break; case 1: lin<long>(R); break; default: lin<double>(R); } }
SUITE(degree,2500,30000){ int V=R.range(2,6); std::vector<std::pair<int,int>> all; for(int i=1;i<=V;++i) for(int j=i+1;j<=V;++j) all.push_back({i,j}); for(size_t i=all.size();i>1;--i) std::swap(all[i-1],all[R.below((int)i)]); int E=R.range(1,std::min<int>((int)all.size(),8)); all.resize(E);
    Graph g; std::ostringstream o; o<<"Degree edges"; for(auto& e:all){ bool sw=R.chance(50); std::string a="v"+std::to_string(sw?e.second:e.first),b="v"+std::to_string(sw?e.first:e.second); g.addEdge(a,b); o<<" "<<a<<"-"<<b; } g.update(); bool la=R.chance(50); o<<" lookahead="<<la;
    RT_CHECK(g.edgeSize()==E,"edge count"); int m=g.vertexSize(); std::vector<std::unique_ptr<IntSubset>> subs(m+1); std::string d; std::unique_ptr<IntSubset> def; if(R.chance(50)) { def=mkSub(R,3,d); o<<" default "<<d; }
    DegreeConstraint dc(g,def.get(),la); std::vector<IntSubset const*> cs(m+1,def.get());
    for(int v=1;v<=m;++v) if(R.chance(50)){ if(R.chance(20)) cs[v]=0; else { subs[v]=mkSub(R,3,d); cs[v]=subs[v].get(); o<<" "<<g.vertexName(v)<<":"<<d; } if(R.chance(50)) dc.setConstraint(v,cs[v]); else dc.setConstraint(g.vertexName(v),cs[v]); }
    std::vector<char> w; forAssign<2>(E,[&](std::vector<int> const& x){ std::map<std::string,int> deg; for(int a=0;a<E;++a) if(x[E-a]){ deg["v"+std::to_string(all[a].first)]++; deg["v"+std::to_string(all[a].second)]++; } bool ok=true; for(int v=1;v<=m;++v) if(cs[v]&&!cs[v]->contains(deg[g.vertexName(v)])) ok=false; w.push_back(ok); });
    rt::note()=o.str(); TT_CHECK(2,w,ttSpec<2>(dc,E,true),E,o.str()); DdStructure<2> f(dc); TT_CHECK(2,w,ttDd(f,E,true),E,o.str()<<" diagram"); f.zddReduce(); TT_CHECK(2,w,ttDd(f,E,true),E,o.str()<<" reduced"); rt::nontrivial(rt::hstr(o.str())); }
