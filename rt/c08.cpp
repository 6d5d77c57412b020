// C08: bottom-up evaluation computes the evaluator's recurrence.
#include "canon.hpp"
// value = owned heap data, so that a released or stale value is noticed
struct Val { std::vector<uint64_t> h; static int& live(){ static int n=0; return n; } Val(){ ++live(); } Val(Val const& o):h(o.h){ ++live(); } ~Val(){ --live(); h.clear(); } };
inline uint64_t mix(uint64_t a,uint64_t b){ a^=b+0x9E3779B97F4A7C15ull+(a<<6)+(a>>2); a*=0xff51afd7ed558ccdull; return a^(a>>33); }
struct Log { std::vector<int> destroyed; std::vector<int> evaluatedLevels; int init=-1; int terms=0; };
template<int AR> struct TreeEval: DdEval<TreeEval<AR>,Val,uint64_t> {
    Log* log; TreeEval(Log* l):log(l){}
    void initialize(int level){ log->init=level; }
    void evalTerminal(Val& v,int id){ ++log->terms; v.h.assign(1,id?111:7); }
    void evalNode(Val& v,int level,DdValues<Val,AR> const& x){ uint64_t r=level*1000003ull;
        for(int b=0;b<AR;++b){ RT_CHECK(x.getLevel(b)>=0&&x.getLevel(b)<level,"child level "<<x.getLevel(b)<<" passed at level "<<level); RT_CHECK(x.get(b).h.size()==1,"value of a child (level "<<x.getLevel(b)<<") is not available at level "<<level);
            for(int q:log->destroyed) RT_CHECK(q!=x.getLevel(b),"level "<<q<<" is used after destructLevel"); r=mix(r,mix(x.get(b).h[0],x.getLevel(b))); }
        v.h.assign(1,r); log->evaluatedLevels.push_back(level); }
    uint64_t getValue(Val const& v){ RT_CHECK(v.h.size()==1,"root value not available"); return v.h[0]; }
    void destructLevel(int i){ log->destroyed.push_back(i); }
};
template<int AR> static uint64_t refEval(DdStructure<AR> const& d){ auto& T=*d.getDiagram(); int n=d.root().row(); std::vector<std::vector<uint64_t>> V(T.numRows()); V[0]={7,111};
    for(int i=1;i<=n;++i){ V[i].resize(T[i].size()); for(size_t j=0;j<T[i].size();++j){ uint64_t r=i*1000003ull; for(int b=0;b<AR;++b){ NodeId f=T[i][j].branch[b]; r=mix(r,mix(V[f.row()][f.col()],f.row())); } V[i][j]=r; } } return V[n][d.root().col()]; }
template<int AR> static void ev(DdStructure<AR> const& d,const char* what){
    Log l; uint64_t w=refEval(d); uint64_t g=d.evaluate(TreeEval<AR>(&l)); RT_CHECK(g==w,what<<": evaluation differs from the recurrence"); RT_CHECK(l.init==d.root().row(),what<<": initialize got level "<<l.init);
    size_t nodes=0; for(int i=1;i<=d.root().row();++i) nodes+=(*d.getDiagram())[i].size(); RT_CHECK(l.evaluatedLevels.size()==nodes,what<<": evaluated "<<l.evaluatedLevels.size()<<" nodes of "<<nodes); RT_CHECK(l.terms==2,what<<": "<<l.terms<<" terminals evaluated");
    for(size_t i=1;i<l.evaluatedLevels.size();++i) RT_CHECK(l.evaluatedLevels[i-1]<=l.evaluatedLevels[i],what<<": levels not bottom-up");
    std::set<int> once(l.destroyed.begin(),l.destroyed.end()); RT_CHECK(once.size()==l.destroyed.size(),what<<": level released twice"); for(int q:l.destroyed) RT_CHECK(q>0&&q<d.root().row(),what<<": level "<<q<<" released");
    rt::nontrivial(w);
}
template<int AR> static void seq(rt::Rng& R,int maxN,int maxS){
    int N=R.range(0,maxN); GenOpt g; g.maxStates=R.range(1,maxS); g.pSkip=R.below(80); g.p0=R.below(30); g.p1=R.below(20); g.pClone=R.below(50); g.pAllZero=R.below(30); Dag<AR> d=genDag<AR>(R,N,g),e=genDag<AR>(R,N,g); rt::note()=d.str();
    DdStructure<AR> x((ScalarSpec<AR>(d))); if(R.chance(70)) ev(x,"constructed"); DdStructure<AR> keep(x); uint64_t wk=refEval(keep); int steps=R.below(5);
    for(int k=0;k<steps;++k){ int op=R.below(6);
        if(op==0){ x.zddReduce(); rt::note()+=" ; zddReduce"; } else if(op==1){ x.bddReduce(); rt::note()+=" ; bddReduce"; } else if(op==2){ x.qddReduce(); rt::note()+=" ; qddReduce"; } else if(op==3){ x.zddSubset(ScalarSpec<AR>(e)); rt::note()+=" ; zddSubset "+e.str(); }
        else if(op==4){ int m=R.range(1,3); NodeTableEntity<AR>& t=x.getDiagram().privateEntity(); t.stretchBottom(t.numVars()+m); if(x.root().row()>0) x.root()=NodeId(x.root().row()+m,x.root().col()); rt::note()+=" ; stretchBottom"; }
        else { x=x.zdd2bdd(x.topLevel()+R.below(3)); rt::note()+=" ; zdd2bdd"; }
        if(R.chance(80)) ev(x,"after operations"); if(R.chance(20)) x.zddCardinality(); if(R.chance(20)){ x.getDiagram()->lowerLevels(x.topLevel()); } }
    ev(x,"after operations"); ev(x,"evaluated again"); RT_CHECK(refEval(keep)==wk,"copy changed"); ev(keep,"kept copy"); RT_CHECK(Val::live()==0,"values leaked");
}
SUITE(binary,8000,80000){ seq<2>(R,IDX%10?6:14,IDX%3?4:12); }
SUITE(ternary,2000,20000){ seq<3>(R,6,5); }
SUITE(large,24,200){ int N=R.range(10,200); GenOpt g; g.maxStates=R.range(2,100); g.pSkip=R.below(70); g.p0=5; g.p1=3; g.pAllZero=2; g.rootTop=true; Dag<2> d=genDag<2>(R,N,g); DdStructure<2> x((ScalarSpec<2>(d))); rt::note()="large"; ev(x,"large"); x.zddReduce(); ev(x,"large reduced"); ev(x,"large again"); }
