// C05: specification combinators.
#include "canon.hpp"
static std::vector<char> comb(std::vector<char> a,std::vector<char> const& b,bool conj){ for(size_t i=0;i<a.size();++i) a[i]=conj?(a[i]&&b[i]):(a[i]||b[i]); return a; }
template<class S> static void both(S const& s,std::vector<char> const& want,int N,bool zdd,const char* what){
    TT_CHECK(2,want,ttSpec<2>(s,N,zdd),N,what<<" (followed directly)");
    DdStructure<2> dd(s); wellFormed(dd); TT_CHECK(2,want,ttDd(dd,N,zdd),N,what<<" (constructed)");
}
SUITE(pairs,8000,80000){
    int N=R.range(0,IDX%10?5:7); GenOpt g; g.maxStates=R.range(1,4); g.pSkip=R.below(70); g.p0=R.below(40); g.p1=R.below(30); g.pAllZero=R.below(30); g.pTermRoot=12; GenOpt h=g; h.pSkip=R.below(70); h.p0=R.below(40); h.p1=R.below(30);
    Dag<2> d=genDag<2>(R,R.chance(60)?N:R.range(0,N),g),e=genDag<2>(R,R.chance(60)?N:R.range(0,N),h); rt::note()=d.str()+" with "+e.str();
    auto db=ttDag(d,N,false),dz=ttDag(d,N,true),eb=ttDag(e,N,false),ez=ttDag(e,N,true); rt::nontrivial(htt(db)*3^htt(eb));
    ScalarSpec<2> a(d,R.below(4)); ArrSpec<2,int> b(e,3,2); 
    switch(IDX%4){
    case 0: both(bddAnd(a,b),comb(db,eb,true),N,false,"and"); both(bddOr(b,a),comb(db,eb,false),N,false,"or"); break;
    case 1: both(zddIntersection(a,b),comb(dz,ez,true),N,true,"intersection"); both(zddUnion(a,b),comb(dz,ez,false),N,true,"union"); break;
    case 2: { LifeSpec<2> l(e); both(zddUnion(l,a),comb(dz,ez,false),N,true,"union"); both(bddOr(a,l),comb(db,eb,false),N,false,"or"); RT_CHECK(Life::live().empty(),"states leaked"); break; }
    case 3: { DdStructure<2> x(a),y(b); if(R.chance(50)) x.zddReduce(); if(R.chance(50)) y.zddReduce(); both(zddIntersection(x,y),comb(dz,ez,true),N,true,"intersection of diagrams"); both(zddUnion(x,y),comb(dz,ez,false),N,true,"union of diagrams");
              DdStructure<2> p(a),q(b); p.bddReduce(); q.bddReduce(); both(bddAnd(p,q),comb(db,eb,true),N,false,"and of diagrams"); both(bddOr(p,q),comb(db,eb,false),N,false,"or of diagrams"); break; }
    }
}
SUITE(many,2500,25000){
    int N=R.range(0,5); GenOpt g; g.maxStates=R.range(1,3); g.pSkip=R.below(70); g.p0=R.below(30); g.p1=R.below(30); g.pTermRoot=12;
    Dag<2> d[4]; std::vector<char> B[4],Z[4]; std::string nt; for(int k=0;k<4;++k){ d[k]=genDag<2>(R,R.chance(60)?N:R.range(0,N),g); B[k]=ttDag(d[k],N,false); Z[k]=ttDag(d[k],N,true); nt+=d[k].str()+" ; "; } rt::note()=nt; rt::nontrivial(rt::hstr(nt));
    ScalarSpec<2> s0(d[0]),s1(d[1],1),s2(d[2]); ArrSpec<2,uint8_t> s3(d[3],2,0);
    auto A3=comb(comb(B[0],B[1],true),B[2],true),O3=comb(comb(B[0],B[1],false),B[2],false),I3=comb(comb(Z[0],Z[1],true),Z[2],true),U3=comb(comb(Z[0],Z[1],false),Z[2],false);
    switch(IDX%3){
    case 0: both(bddAnd(s0,s1,s2),A3,N,false,"3-way and"); both(zddUnion(s0,s1,s2),U3,N,true,"3-way union"); break;
    case 1: both(bddOr(s0,s1,s2),O3,N,false,"3-way or"); both(zddIntersection(s0,s1,s2),I3,N,true,"3-way intersection"); break;
    case 2: both(bddAnd(bddOr(s0,s1),bddOr(s2,s3)),comb(comb(B[0],B[1],false),comb(B[2],B[3],false),true),N,false,"and of ors"); both(zddUnion(zddIntersection(s0,s1),zddIntersection(s2,s3)),comb(comb(Z[0],Z[1],true),comb(Z[2],Z[3],true),false),N,true,"union of intersections");
            both(zddIntersection(s0,s1,s2,s3),comb(I3,Z[3],true),N,true,"4-way intersection"); both(bddOr(s0,s1,s2,s3),comb(O3,B[3],false),N,false,"4-way or"); break;
    }
}
// states of a combination that compare equal have equal futures: checked by constructing with colliding hashes
SUITE(collide,2000,20000){
    int N=R.range(1,5); GenOpt g; g.maxStates=R.range(2,5); g.pSkip=R.below(70); g.p0=R.below(30); g.p1=R.below(30); Dag<2> d=genDag<2>(R,N,g),e=genDag<2>(R,N,g); rt::note()=d.str()+" with "+e.str();
    auto db=ttDag(d,N,false),dz=ttDag(d,N,true),eb=ttDag(e,N,false),ez=ttDag(e,N,true); rt::nontrivial(htt(db)*3^htt(eb)); ScalarSpec<2> a(d,1),b(e,1);
    both(bddAnd(a,b),comb(db,eb,true),N,false,"and"); both(bddOr(a,b),comb(db,eb,false),N,false,"or"); both(zddIntersection(a,b),comb(dz,ez,true),N,true,"intersection"); both(zddUnion(a,b),comb(dz,ez,false),N,true,"union");
}
