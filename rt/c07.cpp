// C07: counts are exact arbitrary-precision numbers.
#include "canon.hpp"
struct Big { std::vector<uint32_t> d; Big(uint64_t x=0){ while(x){ d.push_back(x%1000000000u); x/=1000000000u; } }
    Big& operator+=(Big const& o){ uint64_t c=0; for(size_t i=0;i<std::max(d.size(),o.d.size())||c;++i){ if(i==d.size()) d.push_back(0); c+=d[i]; if(i<o.d.size()) c+=o.d[i]; d[i]=c%1000000000u; c/=1000000000u; } return *this; }
    Big& operator*=(uint32_t k){ uint64_t c=0; for(size_t i=0;i<d.size()||c;++i){ if(i==d.size()) d.push_back(0); c+=uint64_t(d[i])*k; d[i]=c%1000000000u; c/=1000000000u; } while(!d.empty()&&!d.back()) d.pop_back(); return *this; }
    std::string str() const { if(d.empty()) return "0"; char b[16]; std::string s; snprintf(b,16,"%u",d.back()); s=b; for(size_t i=d.size()-1;i-->0;){ snprintf(b,16,"%09u",d[i]); s+=b; } return s; }
    bool fits(int bits) const { Big t(1); for(int i=0;i<bits;++i) t*=2; if(d.size()!=t.d.size()) return d.size()<t.d.size(); for(size_t i=d.size();i-->0;) if(d[i]!=t.d[i]) return d[i]<t.d[i]; return false; }
};
template<int AR> static Big count(DdStructure<AR> const& dd,int numVars,bool bdd){
    auto& T=*dd.getDiagram(); int n=dd.root().row(); std::vector<std::vector<Big>> V(n+1); V[0]={Big(0),Big(1)};
    for(int i=1;i<=n;++i){ V[i].resize(T[i].size()); for(size_t j=0;j<T[i].size();++j){ Big s; for(int b=0;b<AR;++b){ NodeId f=T[i][j].branch[b]; Big t=V[f.row()][f.col()]; if(bdd) for(int k=f.row()+1;k<i;++k) t*=AR; s+=t; } V[i][j]=s; } }
    Big r=V[n][dd.root().col()]; if(bdd) for(int k=n;k<numVars;++k) r*=AR; return r;
}
template<int AR> static void checkAll(DdStructure<AR> const& dd,int numVars,const char* what){
    Big z=count(dd,0,false),b=count(dd,numVars,true);
    std::string zs=dd.zddCardinality(),bs=dd.bddCardinality(numVars);
    RT_CHECK(zs==z.str(),what<<": zddCardinality is "<<zs<<", exact count "<<z.str());
    RT_CHECK(bs==b.str(),what<<": bddCardinality("<<numVars<<") is "<<bs<<", exact count "<<b.str());
    RT_CHECK(dd.zddCardinality()==zs&&dd.bddCardinality(numVars)==bs,what<<": counting twice gives different results");
    if(z.fits(62)) RT_CHECK(Big((uint64_t)dd.evaluate(ZddCardinality<int64_t,AR>())).str()==zs,what<<": 64-bit zdd count differs from "<<zs);
    if(b.fits(62)) RT_CHECK(Big((uint64_t)dd.evaluate(BddCardinality<int64_t,AR>(numVars))).str()==bs,what<<": 64-bit bdd count differs from "<<bs);
    if(z.fits(30)) RT_CHECK(Big((uint64_t)dd.evaluate(ZddCardinality<int,AR>())).str()==zs,what<<": int zdd count");
    if(b.fits(52)) RT_CHECK(Big((uint64_t)dd.evaluate(BddCardinality<double,AR>(numVars))).str()==bs,what<<": double bdd count differs from "<<bs);
    rt::nontrivial(rt::hstr(zs+":"+bs));
}
template<int AR> static void small(rt::Rng& R,int maxN){
    int N=R.range(0,maxN); GenOpt g; g.maxStates=R.range(1,4); g.pSkip=R.below(70); g.p0=R.below(40); g.p1=R.below(30); g.pTermRoot=10; Dag<AR> d=genDag<AR>(R,N,g); rt::note()=d.str();
    DdStructure<AR> x((ScalarSpec<AR>(d))); if(R.chance(30)) x.zddReduce(); else if(R.chance(30)) x.bddReduce();
    auto z=ttDd(x,N,true),b=ttDd(x,N,false); uint64_t cz=0,cb=0; for(char c:z) cz+=c; for(char c:b) cb+=c;
    RT_CHECK(x.zddCardinality()==Big(cz).str(),"zddCardinality "<<x.zddCardinality()<<" but the family has "<<cz<<" members"); RT_CHECK(x.bddCardinality(N)==Big(cb).str(),"bddCardinality("<<N<<") "<<x.bddCardinality(N)<<" but the function has "<<cb<<" solutions");
    checkAll(x,N+R.below(70),"small diagram");
}
SUITE(binary,3000,30000){ small<2>(R,7); }
SUITE(ternary,800,8000){ small<3>(R,4); }
SUITE(arity4,300,3000){ small<4>(R,3); }
template<int AR> static void large(rt::Rng& R,int N){
    GenOpt g; g.maxStates=R.range(1,6); g.pSkip=R.below(95); g.p0=R.below(6); g.p1=R.below(3); g.pAllZero=0; g.rootTop=true; Dag<AR> d=genDag<AR>(R,N,g); { std::ostringstream o; o<<"large AR="<<AR<<" N="<<N<<" skip="<<g.pSkip; rt::note()=o.str(); }
    DdStructure<AR> x((ScalarSpec<AR>(d))); if(R.chance(50)) x.bddReduce(); checkAll(x,x.topLevel()+R.below(200),"large diagram");
}
SUITE(large2,240,2400){ large<2>(R,R.range(55,IDX%8?270:700)); }
SUITE(large3,80,800){ large<3>(R,R.range(35,200)); }
SUITE(large5,40,400){ large<5>(R,R.range(25,80)); }
SUITE(universal,400,2000){ int n=IDX<320?IDX:R.range(0,3000); std::ostringstream o; o<<"universal "<<n; rt::note()=o.str(); DdStructure<2> u(n); checkAll(u,n,"universal"); if(IDX%4==0){ DdStructure<3> w(n/2); checkAll(w,n/2,"universal"); } if(IDX%8==0){ u.bddReduce(); checkAll(u,n,"constant true"); } }
// values around limb boundaries: sums of chosen powers of two (a comb diagram: member counts 2^a+2^b+...)
SUITE(carry,400,4000){
    int N=R.range(62,260); std::vector<int> at; for(int i=1;i<=N;++i) if(R.chance(IDX%2?50:90)) at.push_back(i);
    // level i: branch 0 -> level i-1 of the comb, branch 1 -> full set below (2^(i-1)) if i in at, else 0
    Dag<2> d; d.n=N; d.t.resize(N+1); for(int i=1;i<=N;++i){ d.t[i].resize(2,std::vector<Tgt>(2)); bool in=std::find(at.begin(),at.end(),i)!=at.end();
        d.t[i][0][0]=i>1?Tgt{i-1,0}:Tgt{-1,0}; d.t[i][0][1]=in?(i>1?Tgt{i-1,1}:Tgt{-1,0}):Tgt{0,0}; d.t[i][1][0]=d.t[i][1][1]=i>1?Tgt{i-1,1}:Tgt{-1,0}; }
    d.root=Tgt{N,0}; rt::note()="comb"; DdStructure<2> x((ScalarSpec<2>(d))); Big w(1); for(int a:at){ Big t(1); for(int k=1;k<a;++k) t*=2; w+=t; }
    RT_CHECK(x.zddCardinality()==w.str(),"comb count "<<x.zddCardinality()<<" expected "<<w.str()); checkAll(x,N,"comb");
}
// the number class itself
static Big toBig(BigNumber& n,uint64_t const* a){ Big r; int k=0; while(a[k]>>63) ++k; for(int i=k;i>=0;--i){ for(int s=0;s<63;++s) r*=2; r+=Big(a[i]&~(1ull<<63)); } return r; }
SUITE(bignumber,3000,30000){
    std::vector<uint64_t> A(40,0xdead),B(40,0xbeef),C(40,0); BigNumber a(A.data()),b(B.data()),c(C.data());
    auto rnd=[&]()->uint64_t{ int k=R.below(5); return k==0?0:k==1?R.below(3):k==2?~0ull:k==3?(1ull<<63)-R.below(2):R.next(); };
    uint64_t x=rnd(),y=rnd(); a.store(x); b.store(y); Big wa(x),wb(y);
    RT_CHECK(toBig(a,A.data()).str()==wa.str(),"store("<<x<<")"); 
    for(int step=R.range(1,14);step>0;--step){ int op=R.below(4);
        if(op==0){ size_t w=a.add(b); wa+=wb; RT_CHECK(toBig(a,A.data()).str()==wa.str(),"add"); RT_CHECK((int)w==a.size(),"add returns "<<w<<" words but the number has "<<a.size()); }
        else if(op==1){ int k=R.below(80); size_t w=a.shiftLeft(k); for(int i=0;i<k;++i) wa*=2; RT_CHECK(toBig(a,A.data()).str()==wa.str(),"shiftLeft("<<k<<")"); RT_CHECK((int)w==a.size(),"shiftLeft returns "<<w<<" words but the number has "<<a.size()); }
        else if(op==2){ size_t w=c.store(a); RT_CHECK((int)w==c.size()&&c==a&&a==c&&!(c!=a),"store(copy)"); std::swap(wa,wb); a.store(b); b.store(c); }
        else { std::string s=a; RT_CHECK(s==wa.str(),"decimal "<<s<<" expected "<<wa.str()); c.store(a); uint32_t r=c.divide(10); std::string w=wa.str(); RT_CHECK(r==uint32_t(w.back()-'0'),"remainder of division by 10"); w.pop_back(); if(w.empty()) w="0"; std::string cs=c; RT_CHECK(cs==w,"quotient "<<cs<<" expected "<<w); }
        RT_CHECK((a==b)==(wa.str()==wb.str()),"comparison of "<<wa.str()<<" and "<<wb.str()); RT_CHECK((a==5)==(wa.str()=="5"),"comparison with a machine number");
        if(a.size()>30||b.size()>30) break;
    }
    rt::nontrivial(rt::hstr(wa.str()+"/"+wb.str()));
}
