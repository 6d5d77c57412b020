// C19: node identifiers, the universal diagram and stretching.
#include "canon.hpp"
static uint64_t pickRow(rt::Rng& R){ switch(R.below(4)){ case 0: return R.below(4); case 1: return NODE_ROW_MAX-R.below(4); default: return R.next()&NODE_ROW_MAX; } }
static uint64_t pickCol(rt::Rng& R){ switch(R.below(4)){ case 0: return R.below(4); case 1: return NODE_COL_MAX-R.below(4); case 2: return R.next()%1000000; default: return R.next()&NODE_COL_MAX; } }
SUITE(nodeid,20000,200000){ uint64_t r=pickRow(R),c=pickCol(R),r2=R.chance(40)?r:pickRow(R),c2=R.chance(40)?c:pickCol(R); bool a=R.chance(50),b=R.chance(50); std::ostringstream o; o<<"row "<<r<<" col "<<c<<" attr "<<a<<" / row "<<r2<<" col "<<c2<<" attr "<<b; rt::note()=o.str();
    NodeId f(r,c,a),g(r2,c2,b),p(r,c); RT_CHECK((uint64_t)f.row()==r&&f.col()==c&&f.getAttr()==a,"parts of "<<o.str()); RT_CHECK((uint64_t)p.row()==r&&p.col()==c&&!p.getAttr(),"two-part constructor"); RT_CHECK(f==p&&!(f!=p)&&f.hash()==p.hash()&&f.code()==p.code(),"attribute changes identity"); RT_CHECK((NodeId(f.code()))==f&&!f.withoutAttr().getAttr()&&f.withoutAttr()==f,"code round trip");
    bool eq=r==r2&&c==c2,lt=r<r2||(r==r2&&c<c2); RT_CHECK((f==g)==eq&&(f!=g)==!eq&&(f<g)==lt&&(f>=g)==!lt&&(f>g)==(!lt&&!eq)&&(f<=g)==(lt||eq),"comparison of "<<o.str()); if(eq) RT_CHECK(f.hash()==g.hash(),"hash"); NodeId h=f; h.setAttr(b); RT_CHECK(h.getAttr()==b&&(uint64_t)h.row()==r&&h.col()==c,"setAttr");
    RT_CHECK(f.hasEmpty()==(a||(r==0&&c==1)),"hasEmpty"); if(r>0) RT_CHECK(NodeId(0)<f&&NodeId(1)<f,"terminals not below"); RT_CHECK(NodeId(0).row()==0&&NodeId(0).col()==0&&NodeId(1).row()==0&&NodeId(1).col()==1&&NodeId(0)<NodeId(1),"terminals");
    std::ostringstream t; t<<f; std::ostringstream w; w<<r<<":"<<c<<(a?"+":""); RT_CHECK(t.str()==w.str(),"printed as "<<t.str()); rt::nontrivial(r*1000003+c); }
SUITE(node,3000,30000){ Node<4> x,y; for(int i=0;i<4;++i){ x.branch[i]=NodeId(pickRow(R),pickCol(R),R.chance(50)); y.branch[i]=R.chance(85)?NodeId(x.branch[i].code()):NodeId(pickRow(R),pickCol(R)); } bool eq=true; for(int i=0;i<4;++i) eq=eq&&x.branch[i].code()==y.branch[i].code(); RT_CHECK((x==y)==eq&&(x!=y)==!eq,"node equality"); if(eq) RT_CHECK(x.hash()==y.hash(),"equal nodes with different hash"); Node<4> z(x.branch); RT_CHECK(z==x,"copy of branches"); NodeId a(pickRow(R),pickCol(R)),b(pickRow(R),pickCol(R)); Node<4> w(a,b); RT_CHECK(w.branch[0]==a&&w.branch[1]==b&&w.branch[2]==b&&w.branch[3]==b,"two-way node"); rt::nontrivial(x.hash()); }
template<int AR> static void universal(int n){ DdStructure<AR> f(n); std::ostringstream o; o<<"universal AR="<<AR<<" n="<<n; rt::note()=o.str(); wellFormed(f); TT_CHECK(AR,std::vector<char>(ttDd(f,n,false).size(),1),ttDd(f,n,true),n,o.str()); RT_CHECK(f.size()==(size_t)n,"one node per level"); if(n) RT_CHECK(f.root().row()==n,"root level"); rt::nontrivial(AR*100+n); }
SUITE(universal,12,12){ universal<2>(IDX); if(IDX<=6) universal<3>(IDX); if(IDX<=4) universal<5>(IDX); }
template<int AR> static void stretch(rt::Rng& R){ GenOpt g; g.maxStates=R.range(1,4); g.pSkip=R.below(50); g.pTermRoot=0; g.p0=R.below(30); g.p1=R.below(30); int N=R.range(1,4); Dag<AR> d=genDag<AR>(R,N,g); DdStructure<AR> f{ScalarSpec<AR>(d)}; if(R.chance(50)) f.zddReduce(); if(R.chance(40)) f.zddCardinality(); std::ostringstream o; o<<d.str(); rt::note()=o.str();
    NodeTableHandler<AR> h(f.getDiagram()); NodeTableEntity<AR> before(*h); NodeTableEntity<AR>& t=h.privateEntity(); int m=R.range(0,5); if(R.chance(30)) t.makeIndex(); t.stretchBottom(t.numVars()+m); o<<" stretched by "<<m; rt::note()=o.str();
    RT_CHECK(t.numRows()==before.numRows()+m,"number of rows"); RT_CHECK(t[0].size()==2,"terminal row"); for(int i=1;i<=m&&i<t.numRows();++i) RT_CHECK(t[i].size()==0,"inserted level "<<i<<" is not empty");
    for(int i=1;i<before.numRows();++i){ RT_CHECK(t[i+m].size()==before[i].size(),"level "<<i<<" lost nodes"); for(size_t j=0;j<before[i].size();++j) for(int b=0;b<AR;++b){ NodeId x=before[i][j].branch[b],y=t[i+m][j].branch[b]; RT_CHECK(y.col()==x.col()&&y.row()==(x.row()?x.row()+m:0),"branch "<<b<<" of "<<i<<":"<<j<<" is "<<y<<", was "<<x); } }
    DdStructure<AR> s(f); (void)s; TT_CHECK(AR,ttDag(d,N,true),ttDd(f,N,true),N,"the shared diagram changed");
    for(int i=1;i<t.numRows();++i){ std::set<int> want,got; for(size_t j=0;j<t[i].size();++j) for(int b=0;b<AR;++b) if(t[i][j].branch[b].row()>0) want.insert(t[i][j].branch[b].row()); auto& l=t.lowerLevels(i); for(size_t k=0;k<l.size();++k) got.insert(l[k]); for(int x:got) RT_CHECK(x<i,"lower level index"); }
    rt::nontrivial(rt::hstr(o.str())); }
SUITE(stretch2,2500,20000){ stretch<2>(R); }
SUITE(stretch3,800,8000){ stretch<3>(R); }
