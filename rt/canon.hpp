// independent canonical node counts computed from truth tables
#pragma once
#include "dags.hpp"
enum Kind { QDD, BDD_, ZDD_ };
inline const char* kname(Kind k){ return k==QDD?"quasi":k==BDD_?"BDD":"ZDD"; }
// truth table index: level 1 is the fastest digit
template<int AR> struct Canon {
    Kind k; std::set<std::pair<int,std::vector<char>>> nodes;   // (level, table over levels 1..level) of the nodes of the canonical diagram
    void add(std::vector<char> const& t,int lv){
        while(lv>0){
            size_t w=t.size()/AR; std::vector<std::vector<char>> c; for(int b=0;b<AR;++b) c.push_back(std::vector<char>(t.begin()+b*w,t.begin()+(b+1)*w));
            bool zero=true; for(char x:t) if(x) zero=false;
            if(zero) return;
            bool skip=false;
            if(k==BDD_){ skip=true; for(int b=1;b<AR;++b) if(c[b]!=c[0]) skip=false; }
            if(k==ZDD_){ skip=true; for(int b=1;b<AR;++b) for(char x:c[b]) if(x) skip=false; }
            if(skip){ add(c[0],lv-1); return; }
            if(!nodes.insert(std::make_pair(lv,t)).second) return;
            for(int b=0;b<AR;++b) add(c[b],lv-1);
            return;
        }
    }
    size_t count(std::vector<char> const& t,int N){ nodes.clear(); add(t,N); return nodes.size(); }
};
template<int AR> void doReduce(DdStructure<AR>& d,Kind k){ if(k==QDD) d.qddReduce(); else if(k==BDD_) d.bddReduce(); else d.zddReduce(); }
// structural canonicity; returns reachable nodes
template<int AR> void structCanon(DdStructure<AR> const& d,Kind k){
    auto& T=*d.getDiagram(); std::set<std::pair<int,size_t>> reach; std::vector<NodeId> st; 
    if(d.root().row()) st.push_back(d.root());
    while(!st.empty()){ NodeId f=st.back(); st.pop_back(); if(!f.row()) continue; if(!reach.insert(std::make_pair(f.row(),f.col())).second) continue; for(int b=0;b<AR;++b) st.push_back(T[f.row()][f.col()].branch[b]); }
    size_t tot=0;
    for(int i=1;i<T.numRows();++i){ std::set<std::vector<std::pair<int,size_t>>> u; tot+=T[i].size();
        for(size_t j=0;j<T[i].size();++j){ std::vector<std::pair<int,size_t>> c; for(int b=0;b<AR;++b) c.push_back(std::make_pair(T[i][j].branch[b].row(),(size_t)T[i][j].branch[b].col()));
            RT_CHECK(u.insert(c).second,kname(k)<<" reduction: two equal nodes at level "<<i);
            bool del=true; std::pair<int,size_t> z(0,0);
            if(k==QDD){ for(auto& x:c) if(x!=z) del=false; } else if(k==BDD_){ for(auto& x:c) if(x!=c[0]) del=false; } else { for(int b=1;b<AR;++b) if(c[b]!=z) del=false; }
            RT_CHECK(!del,kname(k)<<" reduction: deletable node remains at level "<<i<<" column "<<j);
            RT_CHECK(reach.count(std::make_pair(i,j)),kname(k)<<" reduction: unreachable node at level "<<i<<" column "<<j);
        } }
    RT_CHECK(d.size()==tot,"size() is "<<d.size()<<" but the tables hold "<<tot<<" nodes");
}
