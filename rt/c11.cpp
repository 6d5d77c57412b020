// C11: value semantics of diagrams.
#include "canon.hpp"
template<int AR> struct Slot { DdStructure<AR> dd; std::vector<char> b; };
template<int AR> static void hist(rt::Rng& R,int N,int len){
    std::vector<std::unique_ptr<Slot<AR>>> S; std::string h; GenOpt g; g.maxStates=R.range(1,4); g.pSkip=R.below(60); g.p0=R.below(30); g.p1=R.below(25); g.pClone=40;
    auto fresh=[&]{ Dag<AR> d=genDag<AR>(R,N,g); S.emplace_back(new Slot<AR>{DdStructure<AR>(ScalarSpec<AR>(d)),{}}); S.back()->b=ttDd(S.back()->dd,N,true); h+=" new "; };
    fresh(); fresh();
    for(int k=0;k<len;++k){ int i=R.below((int)S.size()),j=R.below((int)S.size()); std::ostringstream o; int op=R.below(13);
        if(op==0&&S.size()<6) fresh();
        else if(op==1&&S.size()<6){ S.emplace_back(new Slot<AR>{DdStructure<AR>(S[i]->dd),S[i]->b}); o<<" copy("<<i<<")"; }
        else if(op==2||op==3){ o<<" "<<j<<"="<<i; h+=o.str(); rt::note()=h; S[j]->dd=S[i]->dd; S[j]->b=S[i]->b; o.str(""); }
        else if(op==4&&S.size()>2){ o<<" destroy("<<i<<")"; S.erase(S.begin()+i); }
        else if(op==5){ o<<" zddReduce("<<i<<")"; S[i]->dd.zddReduce(); }
        else if(op==6){ o<<" qddReduce("<<i<<")"; S[i]->dd.qddReduce(); }
        else if(op==7){ o<<" bddReduce("<<i<<")"; auto w=ttDd(S[i]->dd,N,false); S[i]->dd.bddReduce(); h+=o.str(); rt::note()=h; o.str(""); TT_CHECK(AR,w,ttDd(S[i]->dd,N,false),N,"bddReduce"); S[i]->b=ttDd(S[i]->dd,N,true); }
        else if(op==8){ o<<" subset("<<i<<" by "<<j<<")"; h+=o.str(); o.str(""); rt::note()=h; std::vector<char> w=S[i]->b; for(size_t q=0;q<w.size();++q) w[q]=w[q]&&S[j]->b[q]; S[i]->dd.zddSubset(S[j]->dd); S[i]->b=w; }
        else if(op==9){ o<<" child-root("<<i<<")"; NodeId r=S[i]->dd.root(); if(r.row()>0) S[i]->dd.root()=S[i]->dd.child(r,R.below(AR)); S[i]->b=ttDd(S[i]->dd,N,true); }
        else if(op==10){ o<<" private("<<i<<")"; S[i]->dd.getDiagram().privateEntity(); }
        else if(op==11){ o<<" evaluate("<<i<<")"; S[i]->dd.zddCardinality(); }
        else if(op==12){ o<<" convert("<<i<<"<-"<<j<<")"; auto w=ttDd(S[j]->dd,N,false); S[i]->dd=S[j]->dd.bdd2zdd(N); S[i]->b=w; }
        h+=o.str(); rt::note()=h;
        for(size_t q=0;q<S.size();++q) TT_CHECK(AR,S[q]->b,ttDd(S[q]->dd,N,true),N,"diagram "<<q<<" after"<<h);
    }
    rt::nontrivial(rt::hstr(h));
}
SUITE(binary,4000,40000){ hist<2>(R,R.range(0,4),R.range(3,25)); }
SUITE(ternary,800,8000){ hist<3>(R,R.range(0,3),R.range(3,20)); }
SUITE(handler,2000,20000){ // node tables are shared and released exactly once
    std::vector<NodeTableHandler<2>> v; std::vector<int> rows; v.emplace_back(3); rows.push_back(3); std::string h;
    for(int k=R.range(1,30);k>0;--k){ int i=R.below((int)v.size()),j=R.below((int)v.size()),op=R.below(7); std::ostringstream o; o<<" op"<<op<<"("<<i<<","<<j<<")"; h+=o.str(); rt::note()=h;
        if(op==0){ v.push_back(v[i]); rows.push_back(rows[i]); } else if(op==1){ v[i]=v[j]; rows[i]=rows[j]; } else if(op==2){ int m=R.range(1,5); v[i].init(m); rows[i]=m; } else if(op==3){ v[i].privateEntity().setNumRows(rows[i]+1); ++rows[i]; } else if(op==4&&v.size()>1){ v.erase(v.begin()+i); rows.erase(rows.begin()+i); } else if(op==5){ v[i]=v[i]; } else { v[i].privateEntity(); }
        for(size_t q=0;q<v.size();++q) RT_CHECK(v[q]->numRows()==rows[q]&&(*v[q])[0].size()==2,"handle "<<q<<" sees "<<v[q]->numRows()<<" rows instead of "<<rows[q]); }
    rt::nontrivial(rt::hstr(h)); }
