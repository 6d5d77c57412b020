// C01: DdStructure(spec) represents exactly the function the specification defines.
#include "dags.hpp"
template<int AR,class SPEC> static void checkBuild(Dag<AR> const& d,SPEC const& s,int N,std::vector<char> const& want,const char* what){
    DdStructure<AR> dd(s);
    wellFormed(dd);
    TT_CHECK(AR,want,ttDd(dd,N,false),N,what<<" construction, don't-care reading");
    TT_CHECK(AR,ttDag(d,N,true),ttDd(dd,N,true),N,what<<" construction, zero-suppressed reading");
    RT_CHECK(dd.topLevel()==dd.root().row(),"topLevel");
    size_t sz=0; for(int i=1;i<dd.getDiagram()->numRows();++i) sz+=(*dd.getDiagram())[i].size();
    RT_CHECK(dd.size()==sz,"size() "<<dd.size()<<" is not the number of nodes "<<sz);
    RT_CHECK(dd.empty()==(dd.root()==NodeId(0)),"empty()");
}
template<int AR> static void family(rt::Rng& R,int maxN,int maxStates){
    int N=R.range(0,maxN); GenOpt g; g.maxStates=R.range(1,maxStates); g.pSkip=R.below(60); g.p0=R.below(60); g.p1=R.below(25); g.pClone=R.below(60); g.pAllZero=R.below(50);
    Dag<AR> d=genDag<AR>(R,N,g); rt::note()=d.str(); auto want=ttDag(d,N,false); rt::nontrivial(htt(want));
    int h=R.below(4);
    checkBuild<AR>(d,ScalarSpec<AR>(d,h),N,want,"scalar-state");
    checkBuild<AR>(d,JunkSpec<AR>(d),N,want,"scalar-state (partial equality)");
    checkBuild<AR>(d,BigSpec<AR,7>(d),N,want,"large-state");
    checkBuild<AR>(d,BigSpec<AR,1>(d),N,want,"4-byte state");
    switch(R.below(9)){      // sizes that are no multiple of a word
    case 0: checkBuild<AR>(d,BigSpec<AR,1,unsigned char>(d),N,want,"1-byte state"); break;
    case 1: checkBuild<AR>(d,BigSpec<AR,2,unsigned char>(d),N,want,"2-byte state"); break;
    case 2: checkBuild<AR>(d,BigSpec<AR,3,unsigned char>(d),N,want,"3-byte state"); break;
    case 3: checkBuild<AR>(d,BigSpec<AR,5,unsigned char>(d),N,want,"5-byte state"); break;
    case 4: checkBuild<AR>(d,BigSpec<AR,7,unsigned char>(d),N,want,"7-byte state"); break;
    case 5: checkBuild<AR>(d,BigSpec<AR,9,unsigned char>(d),N,want,"9-byte state"); break;
    case 6: checkBuild<AR>(d,BigSpec<AR,11,unsigned char>(d),N,want,"11-byte state"); break;
    case 7: checkBuild<AR>(d,BigSpec<AR,13,unsigned char>(d),N,want,"13-byte state"); break;
    default: checkBuild<AR>(d,BigSpec<AR,15,unsigned char>(d),N,want,"15-byte state");
    }
    checkBuild<AR>(d,LifeSpec<AR>(d,R.below(2)),N,want,"non-trivial state");
    { int m=R.range(1,9); checkBuild<AR>(d,ArrSpec<AR,uint8_t>(d,m,R.below(m)),N,want,"array-state(1 byte)"); }
    { int m=R.range(1,9); checkBuild<AR>(d,ArrSpec<AR,int>(d,m,R.below(m)),N,want,"array-state(4 bytes)"); }
    { int m=R.range(1,5); checkBuild<AR>(d,ArrSpec<AR,size_t>(d,m,R.below(m)),N,want,"array-state(8 bytes)"); }
    { int m=R.range(1,9); checkBuild<AR>(d,HybSpec<AR,int,int16_t>(d,m),N,want,"hybrid-state"); }
    { int m=R.range(1,5); checkBuild<AR>(d,HybSpec<AR,uint8_t,size_t>(d,m),N,want,"hybrid-state(1 byte + words)"); }
    { GenOpt g2=g; g2.maxStates=1; Dag<AR> e=genDag<AR>(R,N,g2); rt::note()=e.str(); checkBuild<AR>(e,NoStateSpec<AR>(e),N,ttDag(e,N,false),"stateless"); }
    // a diagram is itself a specification
    DdStructure<AR> dd((ScalarSpec<AR>(d))); DdStructure<AR> d2(dd); DdStructure<AR> d3((DdSpecBase<DdStructure<AR>,AR> const&)dd);
    rt::note()=d.str();
    TT_CHECK(AR,want,ttDd(d3,N,false),N,"construction from a diagram");
}
SUITE(binary,6000,60000){ family<2>(R,IDX%10==0?8:5,IDX%3?4:9); }
SUITE(ternary,2000,20000){ family<3>(R,4,5); }
SUITE(arity4,1000,10000){ family<4>(R,3,5); }
// every specification over two levels with two states per level
SUITE(exhaustive2,256,1296){
    // 6 targets per edge of level 2 (F,T,1.0,1.1), 2 per edge of level 1
    int T2[4][2]={{0,0},{-1,0},{1,0},{1,1}}; Dag<2> d; d.n=2; d.t.resize(3); d.t[1].resize(2); d.t[2].resize(1); d.root=Tgt{2,0};
    int x=IDX; d.t[2][0].resize(2); for(int b=0;b<2;++b){ d.t[2][0][b]=Tgt{T2[x%4][0],T2[x%4][1]}; x/=4; }
    for(int s=0;s<2;++s){ d.t[1][s].resize(2); for(int b=0;b<2;++b){ d.t[1][s][b]=Tgt{x%2?-1:0,0}; x/=2; } }
    rt::note()=d.str(); checkBuild<2>(d,ScalarSpec<2>(d,IDX%4),2,ttDag(d,2,false),"scalar-state");
}
// large diagrams, sampled
template<int AR> static void large(rt::Rng& R,int N,int st,int samplesN){
    GenOpt g; g.maxStates=st; g.pSkip=R.below(20); g.p0=R.below(8); g.p1=R.below(3); g.pAllZero=R.below(3); g.rootTop=true; g.pClone=5;
    Dag<AR> d=genDag<AR>(R,N,g); for(auto& l:d.t) {(void)l;}
    std::ostringstream o; o<<"large N="<<N<<" states<="<<st; rt::note()=o.str();
    DdStructure<AR> a((ScalarSpec<AR>(d,R.below(2)*3))), b((BigSpec<AR,3>(d))), c((ArrSpec<AR,int>(d,5,2))), e((LifeSpec<AR>(d))); wellFormed(a); wellFormed(c);
    for(int k=0;k<samplesN;++k){ std::vector<int> v(N+1); for(int i=1;i<=N;++i) v[i]=R.below(AR); int w=dagFollow(d,v,N,false); rt::nontrivial(rt::hstr(vstr(v)));
        RT_CHECK(ddFollow(a,v,N,false)==w,"assignment "<<vstr(v)<<" expected "<<w); RT_CHECK(ddFollow(b,v,N,false)==w,"assignment "<<vstr(v)<<" expected "<<w);
        RT_CHECK(ddFollow(c,v,N,false)==w,"assignment "<<vstr(v)<<" expected "<<w); RT_CHECK(ddFollow(e,v,N,false)==w,"assignment "<<vstr(v)<<" expected "<<w); }
}
SUITE(large,24,200){ if(IDX%3==0) large<2>(R,R.range(10,30),800,400); else if(IDX%3==1) large<2>(R,R.range(60,300),30,400); else large<3>(R,R.range(10,30),300,300); }
