// C15: exports denote the same function.
#include <array>
#include "canon.hpp"
struct Tbl { int n=-1; size_t cnt=0; std::map<std::string,std::pair<int,std::array<std::string,2>>> node; std::string root; };
static int evalSap(Tbl const& t,std::vector<int> const& v,int N,bool zdd){ std::string x=t.root; int above=N; while(true){ int lv=0; auto it=t.node.find(x); if(it!=t.node.end()) lv=it->second.first; if(zdd) for(int i=above;i>lv;--i) if(v[i]) return 0; if(!lv) return x=="T"; above=lv-1; x=it->second.second[v[lv]]; } }
static void sapporo(DdStructure<2> const& dd,int N,std::string const& what){
    std::ostringstream os; dd.dumpSapporo(os); std::istringstream is(os.str()); Tbl t; std::string line; size_t listed=0; int o=-1; int lastLv=0; bool done=false;
    while(std::getline(is,line)){ std::istringstream ls(line); std::string a; ls>>a; RT_CHECK(!done,"text after the root line: "<<line);
        if(a=="_i"){ ls>>t.n; continue; } if(a=="_o"){ ls>>o; continue; } if(a=="_n"){ ls>>t.cnt; continue; }
        int lv; std::string c0,c1,x; if(ls>>lv>>c0>>c1){ RT_CHECK(!(ls>>x),"extra token in "<<line); RT_CHECK(!t.node.count(a),"node "<<a<<" listed twice"); RT_CHECK(lv>=1&&lv<=t.n&&lv>=lastLv,"bad level in "<<line); lastLv=lv;
            for(auto& c:{c0,c1}) RT_CHECK(c=="F"||c=="T"||(t.node.count(c)&&t.node[c].first<lv),"child "<<c<<" of "<<a<<" is not listed before use at a lower level");
            t.node[a]={lv,{{c0,c1}}}; ++listed; }
        else { t.root=a; done=true; } }
    rt::note()=what+" export: "+os.str();
    RT_CHECK(done&&o==1&&t.n==dd.getDiagram()->numRows()-1,"header or root line wrong");
    RT_CHECK(t.cnt==listed&&listed==dd.size(),"declared "<<t.cnt<<" nodes, listed "<<listed<<", diagram has "<<dd.size());
    RT_CHECK(t.root=="F"||t.root=="T"||t.node.count(t.root),"root "<<t.root<<" is not listed");
    for(int z=0;z<2;++z){ std::vector<char> got; forAssign<2>(N,[&](std::vector<int> const& v){ got.push_back(evalSap(t,v,N,z)); }); TT_CHECK(2,ttDd(dd,N,z),got,N,what<<" exported function"); } }
// ---- graphviz
struct Dot { std::map<std::string,std::map<int,std::string>> e; std::set<std::string> nodes; std::string root; std::set<std::string> T; int edges=0; };
static int lvl(std::string const& s){ size_t p=s.find(':'); if(p==std::string::npos) return 0; for(size_t i=0;i<s.size();++i) if(i!=p&&!isdigit((unsigned char)s[i])) return 0; return atoi(s.c_str()); }
template<int AR> static Dot parseDot(std::string const& txt){ Dot d; std::istringstream is(txt); std::string line; bool open=false,closed=false;
    while(std::getline(is,line)){ if(line.compare(0,7,"digraph")==0){ open=true; continue; } if(line=="}"){ closed=true; continue; }
        size_t a=line.find('"'); if(line.find("{rank=same")!=std::string::npos||a!=2) continue; size_t b=line.find('"',a+1); std::string x=line.substr(a+1,b-a-1); std::string rest=line.substr(b+1);
        if(rest.compare(0,4," -> ")==0){ size_t c=rest.find('"'),f=rest.find('"',c+1); std::string y=rest.substr(c+1,f-c-1); std::string at=rest.substr(f+1); int br= at.find("dashed")!=std::string::npos?0 : at.find("color=red")!=std::string::npos?2 : at.find("color=green")!=std::string::npos?3:1;
            if(x=="^"){ RT_CHECK(d.root.empty(),"two roots"); d.root=y; } else { RT_CHECK(d.e[x].insert({br,y}).second,"branch "<<br<<" of "<<x<<" drawn twice"); ++d.edges; } }
        else if(rest.find("shape=square")!=std::string::npos) d.T.insert(x); else if(x!="^"&&rest.find("style=invis")==std::string::npos) RT_CHECK(d.nodes.insert(x).second,"node "<<x<<" drawn twice"); }
    RT_CHECK(open&&closed,"not a complete digraph"); return d; }
static int evalDot(Dot const& d,std::string x,std::vector<int> const& v,int N,bool zdd){ int above=N; while(true){ if(x.empty()) return 0; int lv=d.T.count(x)?0:lvl(x); if(zdd) for(int i=above;i>lv;--i) if(v[i]) return 0; if(d.T.count(x)) return 1; if(!d.nodes.count(x)) rt::fail("edge to node "+x+" that is not drawn"); above=lv-1; auto i=d.e.find(x); if(i==d.e.end()) return 0; auto j=i->second.find(v[lv]); if(j==i->second.end()) return 0; x=j->second; } }
// distinct reachable nodes and non-zero edges of an explicit table
template<int AR> static std::pair<int,int> reach(Dag<AR> const& d){ std::set<std::pair<int,int>> s; std::vector<Tgt> w; int ed=0; if(d.root.lv>0){ s.insert({d.root.lv,d.root.st}); w.push_back(d.root); } while(!w.empty()){ Tgt x=w.back(); w.pop_back(); for(auto& c:d.t[x.lv][x.st]){ if(c.lv!=0) ++ed; if(c.lv>0&&s.insert({c.lv,c.st}).second) w.push_back(c); } } return {(int)s.size(),ed}; }
template<int AR,class S> static void specDot(S const& s,Dag<AR> const& d,int N,bool cnt,std::string const& what){ std::ostringstream os; s.dumpDot(os,"t"); rt::note()=what+" "+d.str(); Dot p=parseDot<AR>(os.str());
    if(cnt){ auto r=reach(d); RT_CHECK((int)p.nodes.size()==r.first&&p.edges==r.second,what<<": "<<p.nodes.size()<<" nodes and "<<p.edges<<" edges drawn, expected "<<r.first<<" and "<<r.second); }
    for(int z=0;z<2;++z){ std::vector<char> got; forAssign<AR>(N,[&](std::vector<int> const& v){ got.push_back(evalDot(p,p.root,v,N,z)); }); TT_CHECK(AR,ttDag(d,N,z),got,N,what<<" drawn function"); } }
template<int AR> static Dag<AR> mk(rt::Rng& R,int N){ GenOpt g; g.maxStates=R.range(1,5); g.pSkip=R.below(60); g.p0=R.below(40); g.p1=R.below(30); g.pClone=R.below(40); g.pTermRoot=8; return genDag<AR>(R,N,g); }
SUITE(sapporo,6000,60000){ int N=R.range(0,5); Dag<2> d=mk<2>(R,N); DdStructure<2> f{ScalarSpec<2>(d)}; rt::note()=d.str(); std::string h="built"; sapporo(f,N,h);
    for(int k=R.below(4);k>0;--k){ int op=R.below(6); if(op==0){ f.zddReduce(); h+=" zddReduce"; } else if(op==1){ f.bddReduce(); h+=" bddReduce"; } else if(op==2){ f.qddReduce(); h+=" qddReduce"; } else if(op==3){ Dag<2> e=mk<2>(R,N); f.zddSubset(ScalarSpec<2>(e)); h+=" subset"; } else if(op==4){ NodeId r=f.root(); if(r.row()>0) f.root()=f.child(r,R.below(2)); h+=" child"; } else { h+=" eval"; f.zddCardinality(); } rt::note()=d.str()+" "+h; sapporo(f,N,d.str()+" "+h); }
    rt::nontrivial(htt(ttDd(f,N,true))+f.size()); }
SUITE(sapporo_const,12,12){ DdStructure<2> a(IDX/2); sapporo(a,IDX/2,"universal"); DdStructure<2> b; sapporo(b,1,"empty"); a.zddReduce(); sapporo(a,IDX/2,"reduced"); rt::nontrivial(IDX); }
SUITE(dot2,2500,30000){ int N=R.range(0,4); Dag<2> d=mk<2>(R,N); specDot(ScalarSpec<2>(d,R.below(4)),d,N,true,"scalar"); if(IDX%3==0) specDot(LifeSpec<2>(d),d,N,true,"object state"); if(IDX%3==1) specDot(ArrSpec<2,int16_t>(d,R.range(1,5),0),d,N,true,"array state"); if(IDX%3==2) specDot(HybSpec<2,int,char>(d,R.range(1,4)),d,N,true,"hybrid state"); RT_CHECK(Life::live().empty(),"states leaked"); rt::nontrivial(htt(ttDag(d,N,true))); }
SUITE(dot34,1200,15000){ int N=R.range(0,3); Dag<3> d=mk<3>(R,N); specDot(ScalarSpec<3>(d),d,N,true,"ternary"); Dag<4> e=mk<4>(R,std::min(N,2)); specDot(ScalarSpec<4>(e),e,std::min(N,2),true,"quaternary"); rt::nontrivial(htt(ttDag(d,N,true))); }
SUITE(dotdd,2000,20000){ int N=R.range(0,4); Dag<2> d=mk<2>(R,N); DdStructure<2> f{ScalarSpec<2>(d)}; if(R.chance(50)) f.zddReduce(); rt::note()=d.str(); std::ostringstream os; f.dumpDot(os,"t"); Dot p=parseDot<2>(os.str());
    for(int z=0;z<2;++z){ std::vector<char> got; forAssign<2>(N,[&](std::vector<int> const& v){ got.push_back(evalDot(p,p.root,v,N,z)); }); TT_CHECK(2,ttDd(f,N,z),got,N,"drawn diagram"); }
    std::ostringstream o2; f.getDiagram()->dumpDot(o2,"t"); Dot q=parseDot<2>(o2.str()); RT_CHECK(q.nodes.size()==f.size(),"node table drawing has "<<q.nodes.size()<<" nodes, diagram "<<f.size());
    if(f.root().row()>0){ std::ostringstream r; r<<f.root().withoutAttr(); for(int z=0;z<2;++z){ std::vector<char> got; forAssign<2>(N,[&](std::vector<int> const& v){ got.push_back(evalDot(q,r.str(),v,N,z)); }); TT_CHECK(2,ttDd(f,N,z),got,N,"drawn node table"); } }
    rt::nontrivial(htt(ttDd(f,N,true))); }
SUITE(instance,1500,15000){ int N=R.range(0,4); Dag<3> d=mk<3>(R,N); bool any=false; for(char c:ttDag(d,N,false)) any|=c; rt::note()=d.str(); // findOneInstance returns an accepted path
    ScalarSpec<3> s(d); try { auto p=s.findOneInstance(); std::sort(p.rbegin(),p.rend()); RT_CHECK(any,"instance of an empty specification"); Tgt x=d.root; for(auto& q:p){ RT_CHECK(q.first==x.lv,"path leaves the specification"); x=d.t[x.lv][x.st][q.second]; } RT_CHECK(x.lv==-1,"path does not end in the 1-terminal"); } catch(std::runtime_error&){ RT_CHECK(!any,"no instance found although one exists"); } rt::nontrivial(htt(ttDag(d,N,true))); }
