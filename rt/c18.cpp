// C18: graph specifications against brute force over all edge sets.
#include "dags.hpp"
#include <tdzdd/spec/PathZdd.hpp>
#include <tdzdd/spec/PathZddByStdMap.hpp>
#include <tdzdd/spec/FrontierBasedSearch.hpp>
typedef std::vector<std::pair<int,int>> Edges;
struct G { int V; Edges e; Graph g; std::string txt; std::map<int,int> color; };
static void mk(rt::Rng& R,G& x,int maxV,int maxE){ x.V=R.range(2,maxV); Edges all; for(int i=1;i<=x.V;++i) for(int j=i+1;j<=x.V;++j) all.push_back({i,j}); if(R.chance(60)) for(size_t i=all.size();i>1;--i) std::swap(all[i-1],all[R.below((int)i)]); else { Edges b; for(auto& e:all) if(R.chance(70)) b.push_back(e); if(b.empty()) b.push_back(all[0]); all=b; }
    int E=std::min<int>((int)all.size(),R.range(std::min(3,maxE),maxE)); all.resize(E); x.e=all; std::ostringstream o; o<<"edges"; for(auto& e:all){ bool sw=R.chance(50); int a=sw?e.second:e.first,b=sw?e.first:e.second; x.g.addEdge(std::to_string(a),std::to_string(b)); o<<" "<<a<<"-"<<b; if(R.chance(4)){ x.g.addEdge(std::to_string(b),std::to_string(a)); } } x.txt=o.str(); }
struct An { std::map<int,int> deg; std::map<int,int> comp; int ncomp; bool loop; };  // analysis of an edge set
static An an(G const& x,std::vector<int> const& v){ An a; a.loop=false; std::map<int,int> par; for(auto& e:x.e){ par[e.first]=e.first; par[e.second]=e.second; } std::function<int(int)> f=[&](int k){ while(par[k]!=k) k=par[k]; return k; }; int E=(int)x.e.size();
    for(int i=0;i<E;++i) if(v[E-i]){ a.deg[x.e[i].first]++; a.deg[x.e[i].second]++; int p=f(x.e[i].first),q=f(x.e[i].second); if(p==q) a.loop=true; else par[p]=q; } for(auto& p:par) a.comp[p.first]=f(p.first); std::set<int> c; for(auto& p:a.deg) c.insert(a.comp[p.first]); a.ncomp=(int)c.size(); return a; }
// Known findings of the Hamilton specifications (known_findings.txt): when the closing edge is taken, (a) vertices beyond the frontier array
// and (b) for cycles the first vertex of the array are not required.  Exactly those edge sets, if accepted, are set aside.
static std::vector<char> mask(std::vector<char> g,std::vector<char> const& w,std::vector<char> const* kn){ if(kn) for(size_t i=0;i<g.size();++i) if(g[i]&&!w[i]&&(*kn)[i]) g[i]=0; return g; }
template<class S> static void both(S const& s,std::vector<char> const& w,int N,std::string const& what,std::vector<char> const* kn=0){ rt::note()=what; TT_CHECK(2,w,mask(ttSpec<2>(s,N,true),w,kn),N,what); DdStructure<2> f(s); TT_CHECK(2,w,mask(ttDd(f,N,true),w,kn),N,what<<" diagram"); f.zddReduce(); TT_CHECK(2,w,mask(ttDd(f,N,true),w,kn),N,what<<" reduced"); rt::nontrivial(rt::hstr(what)); }
template<class F> static std::vector<char> brute(G const& x,F f){ std::vector<char> w; forAssign<2>((int)x.e.size(),[&](std::vector<int> const& v){ An a=an(x,v); w.push_back(f(a)); }); return w; }
static std::vector<int> verts(G const& x){ std::set<int> s; for(auto& e:x.e){ s.insert(e.first); s.insert(e.second); } return std::vector<int>(s.begin(),s.end()); }
static int paint(rt::Rng& R,G& x,int pairs){ std::vector<int> vs=verts(x); for(size_t i=vs.size();i>1;--i) std::swap(vs[i-1],vs[R.below((int)i)]); pairs=std::min<int>(pairs,(int)vs.size()/2); std::ostringstream o; for(int k=0;k<pairs;++k) for(int j=0;j<2;++j){ int v=vs[2*k+j]; x.color[v]=k+1; if(R.chance(50)) x.g.setColor(std::to_string(v),k*3+1); else x.g.setColor(std::to_string(v),x.g.vertexSize()>=0?std::string("c")+std::to_string(k):""); o<<" "<<v<<":"<<k; } 
    for(auto& p:x.color) x.g.setColor(std::to_string(p.first),std::string("c")+std::to_string(9-p.second)); x.txt+=" colors"+o.str(); return pairs; }
// vertex disjoint paths joining exactly the pairs
static bool isPaths(G const& x,An& a,bool ham){ for(int v:verts(x)){ int d=a.deg.count(v)?a.deg[v]:0; auto c=x.color.find(v); if(c!=x.color.end()){ if(d!=1) return false; } else if(d!=0&&d!=2) return false; if(ham&&d==0) return false; }
    std::map<int,std::set<int>> byc; for(auto& p:x.color) byc[a.comp[p.first]].insert(p.second); if(a.ncomp!=(int)byc.size()) return false; std::set<int> seen; for(auto& p:byc){ if(p.second.size()!=1) return false; seen.insert(*p.second.begin()); } return byc.size()==x.color.size()/2; }
static bool isCycle(G const& x,An& a,bool ham){ if(a.ncomp!=1) return false; for(int v:verts(x)){ int d=a.deg.count(v)?a.deg[v]:0; if(d!=0&&d!=2) return false; if(ham&&d==0) return false; } return true; }
template<class F> static std::vector<char> knownHam(G const& x,bool cycle,F shape){ std::vector<char> w; int E=(int)x.e.size(); forAssign<2>(E,[&](std::vector<int> const& v){ An a=an(x,v); bool k=shape(a); int last=-1; for(int i=0;i<E;++i) if(v[E-i]) last=i; if(last<0) k=false;
    if(k) for(int u:verts(x)) if(!a.deg.count(u)){ int n=x.g.getVertex(std::to_string(u)),v0=x.g.edgeInfo(last).v0; if(!(n>=v0+x.g.maxFrontierSize()||(cycle&&n==v0))) k=false; } w.push_back(k); }); return w; }
SUITE(path,1600,20000){ G x; mk(R,x,6,9); int p=paint(R,x,R.chance(60)?1:R.range(1,3)); x.g.update(); int E=(int)x.e.size(); RT_CHECK(x.g.edgeSize()==E&&x.g.numColor()==p,"graph"); bool la=R.chance(50); x.txt+=la?" lookahead":"";
    auto w=brute(x,[&](An& a){ return isPaths(x,a,false); }); both(PathZdd(x.g,la),w,E,"PathZdd "+x.txt); if(p==1) both(PathZddByStdMap(x.g),w,E,"PathZddByStdMap "+x.txt);
    auto kp=knownHam(x,false,[&](An& a){ return isPaths(x,a,false); }); both(HamiltonPathZdd(x.g,la),brute(x,[&](An& a){ return isPaths(x,a,true); }),E,"HamiltonPathZdd "+x.txt,&kp); }
SUITE(cycle,1000,15000){ G x; mk(R,x,R.chance(25)?7:6,R.chance(25)?11:9); x.g.update(); int E=(int)x.e.size(); bool la=R.chance(50); x.txt+=la?" lookahead":""; auto w=brute(x,[&](An& a){ return isCycle(x,a,false); }); both(CycleZdd(x.g,la),w,E,"CycleZdd "+x.txt); both(PathZddByStdMap(x.g),w,E,"PathZddByStdMap "+x.txt); auto kc=knownHam(x,true,[&](An& a){ return isCycle(x,a,false); }); both(HamiltonCycleZdd(x.g,la),brute(x,[&](An& a){ return isCycle(x,a,true); }),E,"HamiltonCycleZdd "+x.txt,&kc); }
SUITE(frontier_plain,1500,20000){ G x; mk(R,x,6,9); x.g.update(); int E=(int)x.e.size(); bool la=R.chance(50),nl=R.chance(50); int uec=R.range(-1,3); std::ostringstream o; o<<"FrontierBasedSearch uec="<<uec<<" noLoop="<<nl<<" lookahead="<<la<<" "<<x.txt;
    both(FrontierBasedSearch(x.g,uec,nl,la),brute(x,[&](An& a){ return (uec<0||a.ncomp==uec)&&!(nl&&a.loop); }),E,o.str()); }
SUITE(frontier_color,2500,30000){ G x; mk(R,x,6,9); std::vector<int> vs=verts(x); int nc=R.range(1,3); std::ostringstream o; for(int v:vs) if(R.chance(45)){ int c=R.range(1,nc); x.color[v]=c; x.g.setColor(std::to_string(v),"c"+std::to_string(c)); o<<" "<<v<<":"<<c; } x.g.update(); int E=(int)x.e.size(); bool la=R.chance(50),nl=R.chance(50); int uec=R.range(-1,2); std::ostringstream q; q<<"FrontierBasedSearch uec="<<uec<<" noLoop="<<nl<<" lookahead="<<la<<" "<<x.txt<<" colors"<<o.str();
    both(FrontierBasedSearch(x.g,uec,nl,la),brute(x,[&](An& a){ if(nl&&a.loop) return false; std::map<int,int> c2k,k2c; for(auto& p:x.color){ int k=a.comp[p.first]; if(c2k.count(p.second)&&c2k[p.second]!=k) return false; c2k[p.second]=k; if(k2c.count(k)&&k2c[k]!=p.second) return false; k2c[k]=p.second; } std::set<int> u; for(auto& p:a.deg) if(!k2c.count(a.comp[p.first])) u.insert(a.comp[p.first]); return uec<0||(int)u.size()==uec; }),E,q.str()); }
SUITE(graph,1000,10000){ G x; mk(R,x,7,12); paint(R,x,R.below(3)); x.g.update(); Graph const& g=x.g; int E=(int)x.e.size(); rt::note()=x.txt; // the edge order tables the specifications rely on
    RT_CHECK(g.edgeSize()==E,"edge count"); RT_CHECK(g.vertexSize()==(int)verts(x).size(),"vertex count"); std::map<int,int> last,last2; for(int a=0;a<E;++a){ for(int v:{g.edgeInfo(a).v1,g.edgeInfo(a).v2}){ if(last.count(v)) last2[v]=last[v]; last[v]=a; } }
    for(int a=0;a<E;++a){ auto& e=g.edgeInfo(a); auto nm=g.edgeName(a); RT_CHECK(e.v1<e.v2&&e.v1>=1&&e.v2<=g.vertexSize(),"vertex numbers of edge "<<a); std::set<std::string> s{g.vertexName(e.v1),g.vertexName(e.v2)},t{std::to_string(x.e[a].first),std::to_string(x.e[a].second)}; RT_CHECK(s==t,"edge "<<a<<" has wrong ends"); RT_CHECK((std::set<std::string>{nm.first,nm.second}==t),"edge name"); RT_CHECK(g.getEdge(e.v1,e.v2)==a&&g.getEdge(nm.first,nm.second)==a&&g.getEdge(nm.second,nm.first)==a,"edge lookup");
        RT_CHECK(e.v1final==(last[e.v1]==a)&&e.v2final==(last[e.v2]==a),"final marks of edge "<<a); RT_CHECK(e.v1final2==(last2.count(e.v1)&&last2[e.v1]==a)&&e.v2final2==(last2.count(e.v2)&&last2[e.v2]==a),"second final marks of edge "<<a); RT_CHECK(e.finalEdge==(a==E-1),"final edge mark"); RT_CHECK(e.v0<=e.v1,"frontier start");
        for(int v=1;v<e.v0;++v) RT_CHECK(last[v]<a,"vertex "<<v<<" left the frontier too early"); RT_CHECK(e.v2-e.v0+1<=g.maxFrontierSize(),"frontier size"); if(a) RT_CHECK(g.edgeInfo(a-1).v0<=e.v0,"frontier order"); }
    for(int v=1;v<g.vertexSize();++v) RT_CHECK(last[v]<=last[v+1],"vertices are not in leaving order"); for(int v=1;v<=g.vertexSize();++v) RT_CHECK(g.getVertex(g.vertexName(v))==v,"vertex lookup");
    for(auto& p:x.color) for(auto& q:x.color) RT_CHECK((g.colorNumber(g.getVertex(std::to_string(p.first)))==g.colorNumber(g.getVertex(std::to_string(q.first))))==(p.second==q.second),"color numbers"); for(int v=1;v<=g.vertexSize();++v) RT_CHECK((g.colorNumber(v)>0)==(x.color.count(atoi(g.vertexName(v).c_str()))>0),"colored"); rt::nontrivial(rt::hstr(x.txt)); }
