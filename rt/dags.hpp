// Explicit transition tables ("dags") and specifications of every state representation over them.
#pragma once
#include "common.hpp"
#include <tdzdd/DdStructure.hpp>
#include <tdzdd/DdSpecOp.hpp>
using namespace tdzdd;

struct Tgt { int lv; int st; };     // lv: 0 zero terminal, -1 one terminal, >0 level
template<int AR> struct Dag {
    int n=0;                                    // number of levels
    Tgt root{0,0};
    std::vector<std::vector<std::vector<Tgt>>> t;   // [level][state][branch]
    std::string str() const {
        std::ostringstream o; o<<"AR="<<AR<<" n="<<n<<" root="<<root.lv<<"."<<root.st;
        for(int i=n;i>0;--i){ o<<" L"<<i<<":"; for(auto& s:t[i]){ o<<"("; for(int b=0;b<AR;++b){ if(b)o<<" "; if(s[b].lv>0)o<<s[b].lv<<"."<<s[b].st; else o<<(s[b].lv?"T":"F"); } o<<")"; } }
        return o.str();
    }
};
struct GenOpt { int maxStates=4; int pSkip=25,p0=20,p1=10; int pTermRoot=4; int pClone=25; int pAllZero=10; bool complete=false; bool rootTop=false; };
template<int AR> Dag<AR> genDag(rt::Rng& R,int n,GenOpt g=GenOpt()){
    Dag<AR> d; d.n=n; d.t.resize(n+1);
    for(int i=1;i<=n;++i) d.t[i].resize(R.range(1,g.maxStates));
    auto tgt=[&](int i)->Tgt{      // target from level i
        if(g.complete){ if(i==1) return Tgt{R.chance(50)?-1:0,0}; return Tgt{i-1,R.below((int)d.t[i-1].size())}; }
        int x=R.below(100);
        if(x<g.p0) return Tgt{0,0};
        if(x<g.p0+g.p1) return Tgt{-1,0};
        int j=i-1; while(j>0 && R.chance(g.pSkip)) --j;
        if(j<=0) return Tgt{R.chance(60)?-1:0,0};
        return Tgt{j,R.below((int)d.t[j].size())};
    };
    for(int i=1;i<=n;++i) for(size_t s=0;s<d.t[i].size();++s){
        auto& v=d.t[i][s];
        if(s>0 && R.chance(g.pClone)){ v=d.t[i][R.below((int)s)]; continue; }
        v.resize(AR); for(int b=0;b<AR;++b) v[b]=tgt(i);
        if(!g.complete && R.chance(g.pAllZero)) for(int b=R.below(2);b<AR;++b) v[b]=Tgt{0,0};
        if(R.chance(12)) for(int b=1;b<AR;++b) v[b]=v[0];
    }
    if(n==0||(!g.complete&&!g.rootTop&&R.chance(g.pTermRoot))) d.root=Tgt{R.chance(50)?-1:0,0};
    else { int j=n; if(!g.complete&&!g.rootTop) while(j>1&&R.chance(15)) --j; d.root=Tgt{j,R.below((int)d.t[j].size())}; }
    return d;
}
// follow a dag with an assignment v[1..N]; zdd: skipped levels (also above the root) must have value 0
template<int AR> int dagFollow(Dag<AR> const& d,std::vector<int> const& v,int N,bool zdd){
    Tgt x=d.root; int above=N;
    while(true){ int lv=x.lv>0?x.lv:0;
        if(zdd) for(int i=above;i>lv;--i) if(v[i]!=0) return 0;
        if(x.lv<=0) return x.lv?1:0;
        above=lv-1; x=d.t[lv][x.st][v[lv]]; }
}
template<int AR,class F> void forAssign(int N,F f){
    std::vector<int> v(N+1,0);
    while(true){ f(v); int i=1; while(i<=N){ if(++v[i]<AR) break; v[i]=0; ++i; } if(i>N) break; }
}
inline std::string vstr(std::vector<int> const& v){ std::ostringstream o; for(size_t i=v.size();i-->1;) o<<v[i]; return o.str(); }
template<int AR> int ddFollow(DdStructure<AR> const& dd,std::vector<int> const& v,int N,bool zdd){
    NodeId f=dd.root(); int above=N;
    while(true){ int lv=f.row();
        if(lv>above) rt::fail("edge does not lead to a lower level");
        if(zdd) for(int i=above;i>lv;--i) if(v[i]!=0) return 0;
        if(lv==0){ if(f.col()>1) rt::fail("terminal other than 0 and 1"); return (int)f.col(); }
        if(lv>=dd.getDiagram()->numRows()||f.col()>=(*dd.getDiagram())[lv].size()) rt::fail("edge to a node that does not exist");
        above=lv-1; f=(*dd.getDiagram())[lv][f.col()].branch[v[lv]]; }
}
template<class SPEC> int specFollow(SPEC s,std::vector<int> const& v,int N,bool zdd){
    std::vector<size_t> buf(s.datasize()/sizeof(size_t)+2); void* p=buf.data();
    int lv=s.get_root(p),above=N,res;
    while(true){ int l=lv>0?lv:0; bool rej=false;
        if(l>above){ rt::fail("specification goes to a level that is not lower"); }
        if(zdd) for(int i=above;i>l;--i) if(v[i]!=0) rej=true;
        if(rej){ res=0; break; }
        if(lv<=0){ res=lv?1:0; break; }
        above=l-1; lv=s.get_child(p,l,v[l]); }
    s.destruct(p); return res;
}
// all nodes of a diagram are structurally valid; returns number of nodes
template<int AR> size_t wellFormed(DdStructure<AR> const& dd){
    size_t n=0; auto& T=*dd.getDiagram();
    for(int i=1;i<T.numRows();++i) for(size_t j=0;j<T[i].size();++j){ ++n;
        for(int b=0;b<AR;++b){ NodeId f=T[i][j].branch[b];
            RT_CHECK(f.row()<i,"child level not below parent at "<<i<<":"<<j);
            RT_CHECK(f.row()==0?f.col()<2:f.col()<T[f.row()].size(),"dangling child at "<<i<<":"<<j<<" branch "<<b<<" -> "<<f); } }
    NodeId r=dd.root(); RT_CHECK(r.row()==0?r.col()<2:(r.row()<T.numRows()&&r.col()<T[r.row()].size()),"dangling root");
    return n;
}
// ---- specifications
template<int AR> struct ScalarSpec: DdSpec<ScalarSpec<AR>,int,AR> {
    Dag<AR> const* d; int hmode;
    ScalarSpec(Dag<AR> const& d,int h=0):d(&d),hmode(h){}
    int getRoot(int& s){ s=d->root.st; return d->root.lv; }
    int getChild(int& s,int lv,int b){ Tgt x=d->t.at(lv).at(s).at(b); s=x.st; return x.lv; }
    size_t hashCode(int const& s) const { return hmode==1?0:hmode==2?size_t(s&1):hmode==3?~size_t(0)-s:size_t(s)*314159257; }
};
struct JunkState { int v; int junk; bool operator==(JunkState const& o)const{ return v==o.v; } };
inline std::ostream& operator<<(std::ostream& o,JunkState const& s){ return o<<s.v; }
template<int AR> struct JunkSpec: DdSpec<JunkSpec<AR>,JunkState,AR> {   // state with a part that equality ignores
    Dag<AR> const* d;
    JunkSpec(Dag<AR> const& d):d(&d){}
    int getRoot(JunkState& s){ s.v=d->root.st; s.junk=0; return d->root.lv; }
    int getChild(JunkState& s,int lv,int b){ Tgt x=d->t.at(lv).at(s.v).at(b); s.junk=s.junk*5+b+1; s.v=x.st; return x.lv; }
    size_t hashCode(JunkState const& s) const { return s.v; }
};
template<int AR,int K,class E=int> struct BigState { E a[K]; bool operator==(BigState const& o)const{ return !memcmp(a,o.a,sizeof a); } };
template<int AR,int K,class E> std::ostream& operator<<(std::ostream& o,BigState<AR,K,E> const& s){ return o<<int(s.a[0]); }
template<int AR,int K,class E=int> struct BigSpec: DdSpec<BigSpec<AR,K,E>,BigState<AR,K,E>,AR> {
    typedef BigState<AR,K,E> S; Dag<AR> const* d;
    BigSpec(Dag<AR> const& d):d(&d){}
    static void put(S& s,int v){ for(int i=0;i<K;++i) s.a[i]=E(v*(i+1)+i); }
    static int get(S const& s){ int v=s.a[0]; for(int i=0;i<K;++i) if(s.a[i]!=E(v*(i+1)+i)) rt::fail("state contents corrupted"); return v; }
    int getRoot(S& s){ put(s,d->root.st); return d->root.lv; }
    int getChild(S& s,int lv,int b){ Tgt x=d->t.at(lv).at(get(s)).at(b); put(s,x.st); return x.lv; }
};
template<int AR,class E> struct ArrSpec: PodArrayDdSpec<ArrSpec<AR,E>,E,AR> {
    Dag<AR> const* d; int m,pos;
    ArrSpec(Dag<AR> const& d,int m,int pos):d(&d),m(m),pos(pos){ this->setArraySize(m); }
    void put(E* a,int v){ for(int i=0;i<m;++i) a[i]=E(i*3+1); a[pos]=E(v); }
    int get(E const* a){ for(int i=0;i<m;++i) if(i!=pos&&a[i]!=E(i*3+1)) rt::fail("array state corrupted"); return int(a[pos]); }
    void pad(E* a){ char* c=(char*)(a+m); char* z=(char*)a+this->datasize(); while(c<z) *c++=0; }
    int getRoot(E* a){ pad(a); put(a,d->root.st); return d->root.lv; }
    int getChild(E* a,int lv,int b){ Tgt x=d->t.at(lv).at(get(a)).at(b); put(a,x.st); return x.lv; }
};
template<int AR,class SS,class E> struct HybSpec: HybridDdSpec<HybSpec<AR,SS,E>,SS,E,AR> {
    Dag<AR> const* d; int m;      // state = scalar*3 + a[m-1] digit (base 3)
    HybSpec(Dag<AR> const& d,int m):d(&d),m(m){ this->setArraySize(m); }
    void put(SS& s,E* a,int v){ for(int i=0;i<m;++i) a[i]=E(i+7); s=SS(v/3); a[m-1]=E(v%3); }
    int get(SS const& s,E const* a){ for(int i=0;i<m-1;++i) if(a[i]!=E(i+7)) rt::fail("hybrid array state corrupted"); return int(s)*3+int(a[m-1]); }
    int getRoot(SS& s,E* a){ char* z=(char*)a; size_t w=((m*sizeof(E)+7)/8)*8; memset(z,0,w); put(s,a,d->root.st); return d->root.lv; }
    int getChild(SS& s,E* a,int lv,int b){ Tgt x=d->t.at(lv).at(get(s,a)).at(b); put(s,a,x.st); return x.lv; }
};
template<int AR> struct NoStateSpec: StatelessDdSpec<NoStateSpec<AR>,AR> {   // needs one state per level
    Dag<AR> const* d;
    NoStateSpec(Dag<AR> const& d):d(&d){}
    int getRoot(){ return d->root.lv; }
    int getChild(int lv,int b){ return d->t.at(lv).at(0).at(b).lv; }
};
// non-trivial state whose life cycle is monitored
struct Life {
    static std::set<Life const*>& live(){ static std::set<Life const*> s; return s; }
    static int& born(){ static int n=0; return n; }
    int v; std::vector<int> heap;
    Life():v(0),heap(2,0){ enter(); }
    Life(Life const& o):v(o.val()),heap(o.heap){ enter(); }
    Life& operator=(Life const& o){ int x=o.val(); val(); v=x; heap=o.heap; return *this; }
    ~Life(){ if(!live().erase(this)) rt::fail("state released twice or never created"); }
    void enter(){ ++born(); if(!live().insert(this).second) rt::fail("state created over a live one"); }
    int val() const { if(!live().count(this)) rt::fail("state used while not alive"); if(heap.size()!=2||heap[0]!=v) rt::fail("state corrupted"); return v; }
    void set(int x){ val(); v=x; heap[0]=x; }
    bool operator==(Life const& o) const { return val()==o.val(); }
};
inline std::ostream& operator<<(std::ostream& o,Life const& s){ return o<<s.val(); }
template<int AR> struct LifeSpec: DdSpec<LifeSpec<AR>,Life,AR> {
    Dag<AR> const* d; int hmode;
    LifeSpec(Dag<AR> const& d,int h=0):d(&d),hmode(h){}
    int getRoot(Life& s){ s.set(d->root.st); return d->root.lv; }
    int getChild(Life& s,int lv,int b){ Tgt x=d->t.at(lv).at(s.val()).at(b); s.set(x.st); return x.lv; }
    size_t hashCode(Life const& s) const { return hmode?0:s.val(); }
};
// ---- truth tables and canonical sizes
template<int AR> std::vector<char> ttDag(Dag<AR> const& d,int N,bool zdd){ std::vector<char> t; forAssign<AR>(N,[&](std::vector<int> const& v){ t.push_back(dagFollow(d,v,N,zdd)); }); return t; }
template<int AR> std::vector<char> ttDd(DdStructure<AR> const& d,int N,bool zdd){ std::vector<char> t; forAssign<AR>(N,[&](std::vector<int> const& v){ t.push_back(ddFollow(d,v,N,zdd)); }); return t; }
template<int AR,class S> std::vector<char> ttSpec(S const& s,int N,bool zdd){ std::vector<char> t; forAssign<AR>(N,[&](std::vector<int> const& v){ t.push_back(specFollow(s,v,N,zdd)); }); return t; }
inline uint64_t htt(std::vector<char> const& t){ return rt::hstr(std::string(t.begin(),t.end())); }
template<int AR> std::string ttdiff(std::vector<char> const& want,std::vector<char> const& got,int N){
    size_t k=0; std::string r="(same)"; forAssign<AR>(N,[&](std::vector<int> const& v){ if(r=="(same)"&&want[k]!=got[k]){ std::ostringstream o; o<<"assignment (top level first) "<<vstr(v)<<" expected "<<int(want[k])<<" got "<<int(got[k]); r=o.str(); } ++k; }); return r;
}
#define TT_CHECK(AR,want,got,N,what) do{ auto const& w_=(want); auto const& g_=(got); ++rt::evals(); if(w_!=g_) { std::ostringstream o_; o_<<what<<": "<<ttdiff<AR>(w_,g_,N); rt::fail(o_.str()); } }while(0)
