// C13: vectors, lists, data tables and memory pools.
#include "common.hpp"
#include <list>
#include <tdzdd/util/MyVector.hpp>
#include <tdzdd/util/MyList.hpp>
#include <tdzdd/util/MemoryPool.hpp>
#include <tdzdd/dd/DataTable.hpp>
using namespace tdzdd;
struct El { static std::set<El const*>& live(){ static std::set<El const*> s; return s; }
    int v; std::string s;
    El():v(0),s("0"){ in(); } El(int x):v(x),s(std::to_string(x)){ in(); } El(El const& o):v(o.get()),s(o.s){ in(); }
    El& operator=(El const& o){ int x=o.get(); get(); v=x; s=o.s; return *this; }
    ~El(){ if(!live().erase(this)) rt::fail("element destroyed that is not alive"); }
    void in(){ if(!live().insert(this).second) rt::fail("element constructed over a live one"); }
    int get() const { if(!live().count(this)) rt::fail("element used while not alive"); if(s!=std::to_string(v)) rt::fail("element corrupted"); return v; }
    bool operator==(El const& o) const { return get()==o.get(); } size_t hash() const { return get(); } };
inline std::ostream& operator<<(std::ostream& o,El const& e){ return o<<e.get(); }
struct Pod { int v; Pod(int x=0):v(x){} int get() const { return v; } bool operator==(Pod const& o) const { return v==o.v; } size_t hash() const { return v; } };
inline std::ostream& operator<<(std::ostream& o,Pod const& e){ return o<<e.v; }
template<class V,class M> static void same(V const& v,M const& m,std::string const& h){
    RT_CHECK((size_t)v.size()==m.size()&&v.empty()==m.empty(),"size "<<v.size()<<" instead of "<<m.size()<<" after"<<h);
    RT_CHECK((size_t)v.capacity()>=m.size(),"capacity below size after"<<h);
    for(size_t i=0;i<m.size();++i) RT_CHECK(v[i].get()==m[i],"element "<<i<<" is "<<v[i].get()<<" instead of "<<m[i]<<" after"<<h);
    size_t k=0; for(typename V::const_iterator p=v.begin();p!=v.end();++p,++k) RT_CHECK(p->get()==m[k],"iteration order after"<<h); RT_CHECK(k==m.size(),"iteration length");
    if(k){ for(typename V::const_reverse_iterator p=v.rbegin();p!=v.rend();++p) { --k; RT_CHECK(p->get()==m[k],"reverse iteration after"<<h); } RT_CHECK(k==0,"reverse length"); RT_CHECK(v.back().get()==m.back(),"back after"<<h); } }
template<class E,class Size> static void vec(rt::Rng& R){
    typedef MyVector<E,Size> V; std::vector<std::unique_ptr<V>> v; std::vector<std::vector<int>> m; std::ostringstream h; size_t live0=El::live().size();
    v.emplace_back(new V()); m.push_back({});
    for(int k=R.range(1,60);k>0;--k){ int i=R.below((int)v.size()),j=R.below((int)v.size()),op=R.below(22); std::ostringstream o;
        auto& a=*v[i]; auto& b=m[i];
        if(op<6){ int x=R.below(1000); h<<" "<<i<<"+"<<x; rt::note()=h.str(); a.push_back(E(x)); b.push_back(x); }
        else if(op<7){ h<<" pop"<<i; rt::note()=h.str(); a.pop_back(); if(!b.empty()) b.pop_back(); }
        else if(op<10){ int n=R.chance(40)?std::max(0,(int)b.size()+R.range(-2,2)):R.below(30); h<<" resize"<<i<<","<<n; rt::note()=h.str(); a.resize(n); b.resize(n,0); }
        else if(op<11){ int n=R.below(12); h<<" init"<<i<<","<<n; rt::note()=h.str(); a.init(n); b.assign(n,0); }
        else if(op<12){ int n=R.below(40); h<<" reserve"<<i<<","<<n; rt::note()=h.str(); a.reserve(n); RT_CHECK((int)a.capacity()>=n,"reserve"); }
        else if(op<13){ h<<" clear"<<i; rt::note()=h.str(); a.clear(); b.clear(); }
        else if(op<15){ h<<" "<<i<<"="<<j; rt::note()=h.str(); a=*v[j]; b=std::vector<int>(m[j]); }
        else if(op<16&&v.size()<4){ h<<" copy"<<i; rt::note()=h.str(); V* c=new V(a); v.emplace_back(c); auto t=m[i]; m.push_back(t); }
        else if(op<17&&!b.empty()){ int f=R.below((int)b.size()+1),l=R.range(f,(int)b.size()); h<<" erase"<<i<<"["<<f<<","<<l<<")"; rt::note()=h.str(); auto* p=a.erase(a.begin()+f,a.begin()+l); b.erase(b.begin()+f,b.begin()+l); RT_CHECK(p==a.begin()+f,"erase result"); }
        else if(op<18&&!b.empty()){ int f=R.below((int)b.size()); h<<" erase"<<i<<"@"<<f; rt::note()=h.str(); auto* p=a.erase(a.begin()+f); b.erase(b.begin()+f); RT_CHECK(p==a.begin()+f,"erase result"); }
        else if(op<19){ h<<" swap"<<i<<","<<j; a.swap(*v[j]); if(i!=j) b.swap(m[j]); }
        else if(op<20){ std::vector<int> x(R.below(6)); for(auto& y:x) y=R.below(99); h<<" "<<i<<"=std"<<x.size(); rt::note()=h.str(); if(R.chance(50)) a=x; else { V c(x); a.swap(c); } b=x; }
        else if(op<21){ int n=R.below(6),x=R.below(50); h<<" fill"<<i<<","<<n; rt::note()=h.str(); E ex(x); V c((Size(n)),ex); a.swap(c); b.assign(n,x); }
        else if(!b.empty()){ int f=R.below((int)b.size()),x=R.below(1000); h<<" "<<i<<"["<<f<<"]="<<x; a[f]=E(x); b[f]=x; }
        for(size_t q=0;q<v.size();++q) same(*v[q],m[q],h.str());
        for(size_t q=0;q<v.size();++q) RT_CHECK((*v[q]==*v[0])==(m[q]==m[0])&&(m[q]!=m[0]||v[q]->hash()==v[0]->hash()),"equality or hash after"<<h.str());
        if(sizeof(E)==sizeof(El)){ size_t n=0; for(auto& x:m) n+=x.size(); RT_CHECK(El::live().size()==live0+n,"live elements "<<El::live().size()-live0<<" instead of "<<n<<" after"<<h.str()); }
    }
    v.clear(); RT_CHECK(El::live().size()==live0,"elements leaked after"<<h.str()); rt::nontrivial(rt::hstr(h.str())); }
SUITE(vector_el,1500,30000){ vec<El,size_t>(R); }
SUITE(vector_pod,1000,15000){ vec<Pod,size_t>(R); }
SUITE(vector_int,600,10000){ vec<El,int>(R); }
struct Blk { size_t n; unsigned char tag; };
template<class L> static void listCheck(L& l,std::vector<Blk> const& m,std::string const& h){ // front first
    RT_CHECK(l.size()==m.size()&&l.empty()==m.empty(),"list size "<<l.size()<<" instead of "<<m.size()<<" after"<<h);
    size_t k=0; for(typename L::iterator t=l.begin();t!=l.end();++t,++k){ RT_CHECK(k<m.size(),"list too long after"<<h); char const* p=(char const*)*t; for(size_t i=0;i<m[k].n;++i) RT_CHECK((unsigned char)p[i]==(unsigned char)(m[k].tag+i),"byte "<<i<<" of element "<<k<<" changed after"<<h); RT_CHECK(((size_t)p&7)==0,"misaligned element"); }
    RT_CHECK(k==m.size(),"list too short after"<<h); if(!m.empty()) RT_CHECK((char*)l.front()==(char*)*l.begin(),"front"); }
template<size_t BE,class E> static void lst(rt::Rng& R){
    MyList<E,BE> l; std::vector<Blk> m; std::ostringstream h; h<<" BE="<<BE; bool fixed=R.chance(50); int fs=R.range(0,9);
    for(int k=R.range(1,BE>100?40:120);k>0;--k){ int op=R.below(20);
        if(op<12){ int n=fixed?fs:R.chance(10)?R.range(20,200):R.below(9); h<<" +"<<n; rt::note()=h.str(); char* p=(char*)(n==1&&R.chance(50)?l.alloc_front():l.alloc_front(n)); unsigned char t=R.below(250); for(size_t i=0;i<n*sizeof(E);++i) p[i]=t+i; m.insert(m.begin(),Blk{n*sizeof(E),t}); }
        else if(op<19&&!m.empty()){ int c=R.chance(20)?R.range(1,(int)m.size()):1; while(c--){ h<<" -"; rt::note()=h.str(); l.pop_front(); m.erase(m.begin()); } }
        else if(op==19&&R.chance(30)){ h<<" clear"; l.clear(); m.clear(); }
        listCheck(l,m,h.str()); }
    if(R.chance(50)){ l.clear(); m.clear(); listCheck(l,m,h.str()); MyList<E,BE> c(l); c=l; }
    rt::nontrivial(rt::hstr(h.str())); }
SUITE(list,1500,20000){ switch(IDX%6){ case 0: lst<1,char>(R); break; case 1: lst<2,char>(R); break; case 2: lst<3,int>(R); break; case 3: lst<7,size_t>(R); break; case 4: lst<3,char[5]>(R); break; default: lst<1000,size_t>(R); } }
// pools: every block handed out keeps its bytes and overlaps no other (asan watches the bounds)
struct P { char* p; size_t n; unsigned char t; };
static void fill(P& x){ size_t st=x.n>4096?97:1; for(size_t i=0;i<x.n;i+=st) x.p[i]=x.t+i; if(x.n) x.p[x.n-1]=x.t; }
static void poolCheck(std::vector<P> const& m,std::string const& h){ std::vector<std::pair<char*,size_t>> s; for(auto& x:m){ size_t st=x.n>4096?97:1; for(size_t i=0;i+1<x.n;i+=st) RT_CHECK((unsigned char)x.p[i]==(unsigned char)(x.t+i),"bytes of a block changed after"<<h); if(x.n) { RT_CHECK((unsigned char)x.p[x.n-1]==x.t,"last byte of a block changed after"<<h); s.push_back({x.p,x.n}); } RT_CHECK(((size_t)x.p&7)==0,"misaligned block after"<<h); }
    std::sort(s.begin(),s.end()); for(size_t i=1;i<s.size();++i) RT_CHECK(s[i-1].first+s[i-1].second<=s[i].first,"overlapping blocks after"<<h); }
SUITE(pool,700,8000){ std::vector<std::unique_ptr<MemoryPool>> v; std::vector<std::vector<P>> m; std::ostringstream h; int np=R.range(1,3); for(int i=0;i<np;++i){ v.emplace_back(new MemoryPool()); m.push_back({}); }
    int bigp=R.below(30);
    for(int k=R.range(1,50);k>0;--k){ int i=R.below(np),j=R.below(np),op=R.below(30);
        if(op<24){ P x; int z=R.below(100); x.n= z<bigp?R.range(39900,42000) : z<bigp+10?R.range(60000,500000) : z<bigp+30?R.range(5000,39990):R.below(400); if(x.n==0&&v[i]->empty()) x.n=1; h<<" "<<i<<"+"<<x.n; rt::note()=h.str(); x.p=(char*)v[i]->alloc(x.n); x.t=R.below(250); fill(x); m[i].push_back(x); }
        else if(op<25){ h<<" clear"<<i; rt::note()=h.str(); v[i]->clear(); m[i].clear(); RT_CHECK(v[i]->empty(),"not empty"); }
        else if(op<27){ h<<" reuse"<<i; rt::note()=h.str(); v[i]->reuse(); m[i].clear(); }
        else if(op<29&&i!=j){ h<<" splice"<<i<<","<<j; rt::note()=h.str(); v[i]->splice(*v[j]); m[i].insert(m[i].end(),m[j].begin(),m[j].end()); m[j].clear(); RT_CHECK(v[j]->empty(),"not empty after splice"); }
        else if(op==29){ h<<" move"<<i; rt::note()=h.str(); MemoryPool* q=new MemoryPool(); q->moveFrom(*v[i]); if(R.chance(50)) v[i].reset(q); else { v[i]->alloc(8); v[i].reset(q); } }
        for(auto& x:m) poolCheck(x,h.str()); }
    rt::nontrivial(rt::hstr(h.str())); }
// block edges: fill a block so that exactly r units are left and ask for about that much
SUITE(pooledge,300,3000){ MemoryPool v; std::vector<P> m; std::ostringstream h; auto al=[&](size_t n){ P x; x.n=n; h<<" +"<<n; rt::note()=h.str(); x.p=(char*)v.alloc(n); x.t=R.below(250); fill(x); m.push_back(x); };
    size_t U=sizeof(void*),B=400000/U; 
    for(int rep=R.range(1,3);rep>0;--rep){ if(R.chance(40)) al(R.chance(50)?R.range(1,100):R.range(41000,90000)); if(R.chance(30)) { v.reuse(); m.clear(); h<<" reuse"; } else if(R.chance(30)){ v.clear(); m.clear(); h<<" clear"; }
        size_t left=B-1-(R.chance(70)?0:R.below(6)); size_t r=R.below(6); if(v.empty()) {} 
        while(left>B/10+r){ al((B/10)*U); left-=B/10; } if(left>r){ al((left-r)*U-R.below(U)); left=r; }
        for(int k=R.range(1,4);k>0;--k) al((r+R.below(3))*U-(r?R.below(U):0)); poolCheck(m,h.str()); }
    rt::nontrivial(rt::hstr(h.str())); }
SUITE(pools,200,3000){ MemoryPools ps; std::vector<std::vector<P>> m; std::ostringstream h; ps.resize(3); m.resize(3);
    for(int k=R.range(1,25);k>0;--k){ int op=R.below(12); int n=(int)m.size();
        if(op<7&&n){ int i=R.below(n); P x; x.n=R.chance(10)?R.range(39000,60000):R.range(1,3000); h<<" "<<i<<"+"<<x.n; x.p=ps[i].allocate<char>(x.n); x.t=R.below(250); fill(x); m[i].push_back(x); }
        else if(op<10){ int s=R.below(12); h<<" resize"<<s; rt::note()=h.str(); ps.resize(s); m.resize(s); }
        else { h<<" push"; rt::note()=h.str(); ps.push_back(MemoryPool()); m.push_back({}); }
        RT_CHECK(ps.size()==m.size(),"size"); for(auto& x:m) poolCheck(x,h.str()); }
    rt::nontrivial(rt::hstr(h.str())); }
SUITE(listpool,500,8000){ MemoryPool pool; std::vector<MyListOnPool<char>> ls(3); std::vector<std::vector<Blk>> m(3); std::ostringstream h; int big=R.below(3);
    for(int k=R.range(1,80);k>0;--k){ int i=R.below(3),op=R.below(20);
        if(op<13){ int n=R.chance(8)&&big?R.range(30000,60000):R.below(60); h<<" "<<i<<"+"<<n; rt::note()=h.str(); char* p=ls[i].alloc_front(pool,n); unsigned char t=R.below(250); for(int q=0;q<n;++q) p[q]=t+q; m[i].insert(m[i].begin(),Blk{(size_t)n,t}); }
        else if(op<19&&!m[i].empty()){ h<<" "<<i<<"-"; ls[i].pop_front(); m[i].erase(m[i].begin()); }
        else { ls[i].clear(); m[i].clear(); h<<" clear"<<i; }
        for(int q=0;q<3;++q) listCheck(ls[q],m[q],h.str()); }
    rt::nontrivial(rt::hstr(h.str())); }
SUITE(datatable,800,10000){ size_t live0=El::live().size(); { DataTable<El> t(R.below(4)); std::vector<std::vector<int>> m(t.numRows()); std::ostringstream h;
    for(int k=R.range(1,40);k>0;--k){ int n=(int)m.size(),op=R.below(14),i=n?R.below(n):0;
        if(op<6&&n){ h<<" addcol"<<i; rt::note()=h.str(); size_t c=t.addColumn(i); RT_CHECK(c==m[i].size(),"column index"); int x=R.below(999); t[i][c]=El(x); m[i].push_back(x); }
        else if(op<8&&n){ int s=R.below(8); h<<" initRow"<<i<<","<<s; rt::note()=h.str(); t.initRow(i,s); m[i].assign(s,0); }
        else if(op<10){ int s=R.below(7); h<<" rows"<<s; rt::note()=h.str(); t.setNumRows(s); m.resize(s); }
        else if(op==10){ int s=R.below(5); h<<" init"<<s; rt::note()=h.str(); t.init(s); m.assign(s,{}); }
        else if(op==11){ h<<" copy"; DataTable<El> c(t); if(n&&!m[i].empty()) c[i][0]=El(77777); c.init(1); }
        else if(op==12){ h<<" assign"; DataTable<El> c(2); c=t; t.init(3); t=c; }
        else if(n&&!m[i].empty()){ int c=R.below((int)m[i].size()),x=R.below(999); t[i][c]=El(x); m[i][c]=x; }
        RT_CHECK(t.numRows()==(int)m.size(),"rows after"<<h.str()); size_t tot=0; for(size_t q=0;q<m.size();++q){ tot+=m[q].size(); same(t[q],m[q],h.str()); } RT_CHECK(t.totalSize()==tot,"totalSize"); RT_CHECK(El::live().size()==live0+tot,"live elements after"<<h.str()); }
    rt::nontrivial(rt::hstr(h.str())); }
    RT_CHECK(El::live().size()==live0,"elements leaked"); }
