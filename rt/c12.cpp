// C12: hash tables and maps against std::set / std::map.
#include "common.hpp"
#include <tdzdd/util/MyHashTable.hpp>
#include <tdzdd/util/MyVector.hpp>
using namespace tdzdd;
struct H { int mode; explicit H(int m=0):mode(m){}
    size_t operator()(int k) const { return h(k); } size_t operator()(uint64_t k) const { return h(k); }
    size_t h(uint64_t k) const { k%=1000; switch(mode){ case 0: return k*314159257ull; case 1: return 0; case 2: return k&1?~size_t(0):10; case 3: return ~size_t(0)-k; case 4: return k%3; case 5: return k*11; default: return 10+k%2; } } };
struct EqMod { bool operator()(int a,int b) const { return a%1000==b%1000; } };   // equality coarser than ==
typedef MyHashTable<int,H,EqMod> T;
static void same(T const& t,std::map<int,int> const& m,std::string const& h){   // residue -> representative first inserted
    RT_CHECK(t.size()==m.size(),"size "<<t.size()<<" instead of "<<m.size()<<" after"<<h);
    RT_CHECK(t.empty()==m.empty(),"empty() wrong after"<<h);
    std::map<int,int> got; size_t n=0; for(T::const_iterator i=t.begin();i!=t.end();++i){ ++n; RT_CHECK(got.insert({*i%1000,*i}).second,"element "<<*i<<" visited twice after"<<h); if(n>m.size()+5) break; }
    RT_CHECK(got==m,"iteration does not visit exactly the inserted elements after"<<h);
    for(auto& p:m){ int const* q=t.get(p.first+3000); RT_CHECK(q&&*q==p.second,"lookup of contained element "<<p.second<<" failed after"<<h); }
    for(int k=1;k<60;k+=7) if(!m.count(k)) RT_CHECK(t.get(k)==0,"lookup of absent element "<<k<<" succeeded after"<<h);
}
SUITE(table,2500,40000){
    int mode=IDX%7; std::vector<std::unique_ptr<T>> v; std::vector<std::map<int,int>> m; std::ostringstream h; h<<" mode"<<mode;
    auto add=[&](T* t,std::map<int,int> x){ v.emplace_back(t); m.push_back(x); };
    add(R.chance(50)?new T(H(mode)):new T(size_t(R.below(30)),H(mode)),{});
    int span=R.chance(30)?8:R.chance(50)?40:900, len=R.range(1,R.chance(20)?300:60); size_t before=0;
    for(int k=0;k<len;++k){ int i=R.below((int)v.size()),j=R.below((int)v.size()); int op=R.below(100); rt::note()=h.str();
        if(op<76){ int x=R.range(1,span)+1000*R.below(3); h<<" "<<i<<"+"<<x; rt::note()=h.str(); auto r=m[i].insert({x%1000,x}); int& e=v[i]->add(x); RT_CHECK(e==r.first->second,"add("<<x<<") returned "<<e<<" instead of "<<r.first->second<<" after"<<h.str()); RT_CHECK(&e==v[i]->get(x),"add returned a reference that is not the stored element after"<<h.str()); }
        else if(op<80&&v.size()<4){ size_t n=R.below(40); h<<" copy("<<i<<","<<n<<")"; add(R.chance(50)?new T(*v[i]):new T(*v[i],n),m[i]); }
        else if(op<84){ h<<" "<<i<<"="<<j; rt::note()=h.str(); *v[i]=*v[j]; m[i]=m[j]; }
        else if(op<87){ size_t n=R.below(50); h<<" init("<<i<<","<<n<<")"; v[i]->initialize(n); m[i].clear(); }
        else if(op<89){ h<<" clear("<<i<<")"; v[i]->clear(); m[i].clear(); }
        else if(op<94){ size_t n=R.below(200); h<<" rehash("<<i<<","<<n<<")"; v[i]->rehash(n); }
        else if(op<97&&i!=j){ h<<" "<<i<<"<-move "<<j; v[i]->moveAssign(*v[j]); m[i]=m[j]; m[j].clear(); }
        else { for(T::iterator t=v[i]->begin();t!=v[i]->end();++t) RT_CHECK(m[i].count(*t%1000),"iterator yields foreign element"); }
        if(k%4==0||k+1==len) for(size_t q=0;q<v.size();++q) same(*v[q],m[q],h.str());
    }
    rt::nontrivial(rt::hstr(h.str())); }
SUITE(map,1200,20000){
    typedef MyHashMap<uint64_t,std::string,H,MyHashDefault<uint64_t>> M; int mode=IDX%7; M t{H(mode)}; std::map<uint64_t,std::string> m; std::ostringstream h; h<<" mode"<<mode;
    for(int k=R.range(1,120);k>0;--k){ uint64_t x=R.range(1,R.chance(50)?10:500); int op=R.below(20); h<<" "<<op<<":"<<x; rt::note()=h.str();
        if(op<9){ std::ostringstream o; o<<"v"<<k; t[x]=o.str(); m[x]=o.str(); }
        else if(op<13){ std::string* p=t.getValue(x); RT_CHECK((p!=0)==(m.count(x)>0)&&(!p||*p==m[x]),"getValue("<<x<<") wrong after"<<h.str()); }
        else if(op<15){ std::string& p=t[x]; RT_CHECK(p==m[x],"operator[]("<<x<<") wrong after"<<h.str()); }
        else if(op==15&&k%5==0){ size_t n=R.below(20); t.initialize(n); m.clear(); }
        else if(op==16){ M c(t,R.below(40)); RT_CHECK(c.size()==m.size(),"copy has wrong size"); for(auto& q:m){ std::string* p=c.getValue(q.first); RT_CHECK(p&&*p==q.second,"copy lost key "<<q.first); } c[x]="other"; }
        else if(op==17){ t.rehash(R.below(100)); }
        RT_CHECK(t.size()==m.size(),"size "<<t.size()<<" instead of "<<m.size()<<" after"<<h.str()); }
    std::map<uint64_t,std::string> got; for(M::iterator i=t.begin();i!=t.end();++i) RT_CHECK(got.insert({i->key,i->value}).second,"key visited twice"); RT_CHECK(got==m,"map contents differ after"<<h.str());
    rt::nontrivial(rt::hstr(h.str())); }
SUITE(defaults,60,600){ // every integer key type with its default hash, and pointers to objects
    MyHashTable<int8_t> a; MyHashTable<int16_t> b; MyHashTable<int32_t> c; MyHashTable<int64_t> d; MyHashTable<uint8_t> e; MyHashTable<uint16_t> f; MyHashTable<uint32_t> g; MyHashTable<uint64_t> h; std::set<int> s;
    for(int k=R.range(1,400);k>0;--k){ int x=R.range(1,127); s.insert(x); a.add(x);b.add(x);c.add(-x);d.add(-int64_t(x)*(1LL<<40));e.add(x);f.add(x);g.add(x<<20);h.add(uint64_t(x)<<50); }
    RT_CHECK(a.size()==s.size()&&b.size()==s.size()&&c.size()==s.size()&&d.size()==s.size()&&e.size()==s.size()&&f.size()==s.size()&&g.size()==s.size()&&h.size()==s.size(),"wrong number of distinct keys");
    for(int x=1;x<128;++x) RT_CHECK((a.get(x)!=0)==s.count(x)&&(d.get(-int64_t(x)*(1LL<<40))!=0)==s.count(x)&&(h.get(uint64_t(x)<<50)!=0)==s.count(x),"wrong membership of "<<x);
    rt::nontrivial(s.size()*1000+*s.begin()); }
SUITE(large,3,12){ MyHashTable<int> t; int n=R.range(20000,200000); for(int i=1;i<=n;++i){ t.add(i*7); if(i%3==0) t.add(i*7-7*R.below(i)); } RT_CHECK((int)t.size()==n,"size "<<t.size()<<" instead of "<<n); int c=0; for(auto i=t.begin();i!=t.end();++i) ++c; RT_CHECK(c==n,"iteration count"); for(int i=1;i<=n;++i) RT_CHECK(t.get(i*7)&&!t.get(i*7+1),"membership"); rt::nontrivial(n); }
SUITE(primes,200,2000){ size_t n=IDX<80?IDX:size_t(R.next()>>R.range(20,60)); size_t p=MyHashConstant::primeSize(n); RT_CHECK(p>=n&&p>=11,"primeSize("<<n<<")="<<p); if(n>11&&n<(1ull<<40)) RT_CHECK(p<=2*n+64,"primeSize("<<n<<")="<<p<<" too large"); rt::nontrivial(n); }
