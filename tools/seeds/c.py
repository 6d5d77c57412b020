seed('c01-nodesize','C01',[('dd/DdBuilder.hpp','''    static NodeId& nodeId(SpecNode* p) {
        return *reinterpret_cast<NodeId*>(&p[0].code);
    }

    static void* state(SpecNode* p) {
        return p + headerSize;
    }

    static void const* state(SpecNode const* p) {
        return p + headerSize;
    }

    static int getSpecNodeSize(int n) {
        if (n < 0)
            throw std::runtime_error("storage size is not initialized!!!");
        return headerSize + (n + sizeof(SpecNode) - 1) / sizeof(SpecNode);''','''    static NodeId& nodeId(SpecNode* p) {
        return *reinterpret_cast<NodeId*>(&p[0].code);
    }

    static void* state(SpecNode* p) {
        return p + headerSize;
    }

    static void const* state(SpecNode const* p) {
        return p + headerSize;
    }

    static int getSpecNodeSize(int n) {
        if (n < 0)
            throw std::runtime_error("storage size is not initialized!!!");
        return headerSize + (n + sizeof(SpecNode) / 2) / sizeof(SpecNode);''')],
H+TAB+'''template<int W> struct St{ char v[W]; bool operator==(St const& o) const { return memcmp(v,o.v,W)==0; } size_t hash() const { size_t h=0; for(int i=0;i<W;++i) h=h*31+v[i]; return h; } };
template<int W> struct Sp: DdSpec<Sp<W>,St<W>,2>{ int n; Sp(int n):n(n){} int getRoot(St<W>& s){ memset(s.v,0,W); return n; } int getChild(St<W>& s,int l,int b){ s.v[(l*7)%W]^=b; s.v[W-1]^=b; if(l==1){ int c=0; for(int i=0;i<W;++i) c+=s.v[i]; return c%3?-1:0; } return l-1; } };
template<int W> bool run(){ int N=10; Sp<W> sp(N); DdStructure<2> d(sp); return all<2>(N,[&](std::vector<int> const& v){ St<W> s; int l=sp.getRoot(s); while(l>0) l=sp.getChild(s,l,v[l]); return fold<2>(d,v,N,false)==(l?1:0); }); }
int main(){ return run<1>()&&run<2>()&&run<3>()&&run<9>()&&run<10>()&&run<11>()&&run<17>()?0:1; }
''','a state whose size is 1 to 3 bytes more than a multiple of eight','the last bytes of each stored state overlap the next record')
seed('c02-qdd3','C02',[('dd/DdReducer.hpp','''                bool del = BDD || ZDD || (f0 == 0);
                for (int b = 1; b < ARITY; ++b) {
                    NodeId& ff = f.branch[b];
                    ff = newIdTable[ff.row()][ff.col()];
                    if (ff != deletable) del = false;
                }

                if (del) { // f is redundant
                    newIdTable[i][j] = f0;
                }
                else {
                    Node''','''                bool del = BDD || ZDD || f0.row() == 0;
                for (int b = 1; b < ARITY; ++b) {
                    NodeId& ff = f.branch[b];
                    ff = newIdTable[ff.row()][ff.col()];
                    if (ff != deletable) del = false;
                }

                if (del) { // f is redundant
                    newIdTable[i][j] = f0;
                }
                else {
                    Node''')],
H+TAB+'''int main(){ for(int k=0;k<200;++k){ int N=4; Tb a=gen<3>(N,2,10); Tg r={N,0}; DdStructure<3> d(Tab<3>(a,r)); DdStructure<3> e(d); e.qddReduce(); if(!all<3>(N,[&](std::vector<int> const& v){ return fold<3>(d,v,N,false)==fold<3>(e,v,N,false); })) return 1; } return 0; }
''','quasi-reduction of a diagram with three or more branches that has a node going to the 1-terminal by its 0-branch only','a node that is not all-zero is deleted by quasi-reduction')
seed('c03-order','C03',[('dd/DdReducer.hpp','''                NodeId& f0 = f.branch[0];
                f0 = newIdTable[f0.row()][f0.col()];
                NodeId deletable = BDD ? f0 : 0;
                bool del = BDD || ZDD || (f0 == 0);
                for (int b = 1; b < ARITY; ++b) {
                    NodeId& ff = f.branch[b];
                    ff = newIdTable[ff.row()][ff.col()];
                    if (ff != deletable) del = false;
                }

                if (del) { // f is redundant
                    newIdTable[i][j] = f0;
                }
                else {
                    Node''','''                NodeId& f0 = f.branch[0];
                NodeId deletable = BDD ? f0 : 0;
                f0 = newIdTable[f0.row()][f0.col()];
                bool del = BDD || ZDD || (f0 == 0);
                for (int b = 1; b < ARITY; ++b) {
                    NodeId& ff = f.branch[b];
                    ff = newIdTable[ff.row()][ff.col()];
                    if (ff != deletable) del = false;
                }

                if (del) { // f is redundant
                    newIdTable[i][j] = f0;
                }
                else {
                    Node''')],
H+TAB+'''int main(){ for(int k=0;k<200;++k){ int N=4; Tb a=gen<3>(N,3,30); Tg r={N,0}; DdStructure<3> d(Tab<3>(a,r)); d.bddReduce(); NodeTableEntity<3> const& t=*d.getDiagram(); for(int i=1;i<t.numRows();++i) for(size_t j=0;j<t[i].size();++j) if(t[i][j].branch[0]==t[i][j].branch[1]&&t[i][j].branch[1]==t[i][j].branch[2]) return 1; } return 0; }
''','BDD reduction of a diagram with three or more branches whose first child is renumbered or deleted','redundant nodes are compared with the old number of their first child and survive')
seed('c06-arity','C06',[('op/Unreduction.hpp','''        else if (ZDD && value) {''','''        else if (ZDD && value == 1) {''')],
H+TAB+'''int main(){ for(int k=0;k<200;++k){ int N=4; Tb a=gen<3>(N,2,50); Tg r={N,0}; DdStructure<3> d(Tab<3>(a,r)); DdStructure<3> e(zddUnreduction(d,N)); if(!all<3>(N,[&](std::vector<int> const& v){ return fold<3>(d,v,N,true)==fold<3>(e,v,N,false); })) return 1; } return 0; }
''','a diagram with three or more branches that skips a level','values above 1 at a skipped level are accepted')
seed('c08-index','C08',[('dd/NodeTable.hpp','''                    int const ii = node[j].branch[b].row();
                    if (ii == 0) continue;
                    if (ii < lowest) lowest = ii;
                    if (!lowerMark[ii]) {
                        myLower[ii] = true;
                        lowerMark[ii] = true;
                    }
                }
            }

            higherLevelTable''','''                    int const ii = node[j].branch[b].row();
                    if (ii == 0) continue;
                    if (ii < lowest) lowest = ii;
                    if (!lowerMark[ii]) {
                        myLower[ii] = true;
                        lowerMark[ii] = b <= 1;
                    }
                }
            }

            higherLevelTable''')],
H+TAB+'''struct Ev: DdEval<Ev,long>{ int cleared[64]; Ev(){ memset(cleared,0,sizeof cleared); } void evalTerminal(long& v,int id) const { v=id; } void evalNode(long& v,int l,DdValues<long,3> const& a){ v=0; for(int b=0;b<3;++b){ if(a.getLevel(b)>0&&cleared[a.getLevel(b)]){ v=-1000000; return; } v+=a.get(b); } } void destructLevel(int l){ cleared[l]=1; } };
int main(){ for(int k=0;k<300;++k){ int N=5; Tb a=gen<3>(N,2,50); Tg r={N,0}; DdStructure<3> d(Tab<3>(a,r)); long w=0; all<3>(N,[&](std::vector<int> const& v){ w+=fold<3>(d,v,N,true); return true; }); if(d.evaluate(Ev())!=w) return 1; } return 0; }
''','a diagram with three or more branches in which a level is first reached by a 2-branch and also from a lower level','values of a level are released while a higher level still needs them')
seed('c10-equiv','C10',[('DdStructure.hpp','''                equiv[i][j] = NodeId(i, (p != 0) ? *p : m);''','''                equiv[i][j] = NodeId(i, (p != 0) ? *p : om);''')],
H+TAB+'''static std::string ser(DdStructure<2> const& d,NodeId f){ if(f.row()==0) return f.col()?"1":"0"; std::ostringstream s; s<<'('<<f.row()<<ser(d,d.child(f,0))<<ser(d,d.child(f,1))<<')'; return s.str(); }
int main(){ for(int k=0;k<20000;++k){ int N=4; Tb a=gen<2>(N,3,30),b=gen<2>(N,3,30); if(rnd(2)){ b=a; b[1+rnd(N)][rnd(3)][rnd(2)]=Tg{rnd(2)?-1:0,0}; } DdStructure<2> d(Tab<2>(a,Tg{N,0})),e(Tab<2>(b,Tg{N,0})); for(int q=rnd(3);q>0;--q) if(d.root().row()>1) d.root()=d.child(d.root(),rnd(2)); for(int q=rnd(3);q>0;--q) if(e.root().row()>1) e.root()=e.child(e.root(),rnd(2)); if((d==e)!=(ser(d,d.root())==ser(e,e.root()))) return 1; } return 0; }
''','sub-diagrams selected by moving the root, differing in a level where the second diagram has fewer nodes than the first','an unmatched node is identified with an unrelated node of the other diagram')
seed('c11-deref','C11',[('dd/NodeTable.hpp','''        if (pointer->refCount == 1) pointer->entity[i].clear();''','''        if (pointer->refCount <= 2) pointer->entity[i].clear();''')],
H+TAB+'''int main(){ int N=4; Tb a=gen<2>(N,2,0),b=gen<2>(N,2,0); DdStructure<2> d(Tab<2>(a,Tg{N,0})); size_t n=d.size(); DdStructure<2> e(d); e.zddSubset(Tab<2>(b,Tg{N,0})); if(d.size()!=n) return 1; return all<2>(N,[&](std::vector<int> const& v){ return fold<2>(d,v,N,true)==fol<2>(a,Tg{N,0},v,N,true); })?0:1; }
''','exactly two live copies of a diagram, one of which is subsetted','the rows of the other copy are cleared')
seed('c15-rootid','C15',[('DdStructure.hpp','''                if (root_ == NodeId(i, j)) rootId = k;''','''                if (root_.row() == i && root_.col() <= j) rootId = k;''')],
H+TAB+'''int main(){ for(int k=0;k<50;++k){ int N=4; Tb a=gen<2>(N,3,0); DdStructure<2> d(Tab<2>(a,Tg{N,0})); for(int b=0;b<2;++b){ DdStructure<2> e(d); e.root()=d.child(d.root(),b); if(e.root().row()==0) continue; std::ostringstream os; e.dumpSapporo(os); std::istringstream is(os.str()); std::string t; int n,o,c; is>>t>>n>>t>>o>>t>>c; std::vector<std::vector<std::string> > row; std::map<std::string,int> at; for(int q=0;q<c;++q){ std::string id,l,x,y; is>>id>>l>>x>>y; at[id]=row.size(); std::vector<std::string> r; r.push_back(l); r.push_back(x); r.push_back(y); row.push_back(r); } std::string root; is>>root; if(!all<2>(N,[&](std::vector<int> const& v){ std::string f=root; int up=N; bool z=false; while(f!="F"&&f!="T"){ std::vector<std::string>& r=row[at[f]]; int l=atoi(r[0].c_str()); for(int i=up;i>l;--i) if(v[i]) z=true; up=l-1; f=r[1+v[l]]; } for(int i=up;i>0;--i) if(v[i]) z=true; return fold<2>(e,v,N,true)==(f=="T"&&!z); })) return 1; } } return 0; }
'''.replace('int main','#include <map>\n#include <cstdlib>\nint main',1),'a diagram whose root is not the last node of its level','the exported root line names another node')
seed('c17-upper','C17',[('util/IntSubset.hpp','''    int upperBound() const {
        return max;
    }''','''    int upperBound() const {
        return max - max % step; // the largest member
    }''')],
H+'''#include <tdzdd/spec/SizeConstraint.hpp>
#include <tdzdd/util/IntSubset.hpp>
int main(){ for(int lo=0;lo<4;++lo) for(int hi=lo;hi<8;++hi) for(int st=1;st<4;++st){ IntRange r(lo,hi,st); DdStructure<2> d((SizeConstraint(7,r))); long w=0; for(int m=0;m<128;++m){ int c=__builtin_popcount(m); w+=(c>=lo&&c<=hi&&(c-lo)%st==0); } char t[32]; snprintf(t,32,"%ld",w); d.zddReduce(); if(d.zddCardinality()!=t) return 1; } return 0; }
''','a range with a step above 1 whose minimum is not a multiple of the step','sets of the largest permitted sizes are pruned')
seed('c18-colors','C18',[('util/Graph.hpp','''                    touched[n1] = true;
                }
                if (!touched[n2]) {''','''                }
                if (!touched[n2]) {'''),('util/Graph.hpp','''                    touched[n2] = true;
                }
            }

            VertexNumber v0 = 1;''','''                }
                touched[n1] = touched[n2] = true;
            }

            VertexNumber v0 = 1;''')],
H+'''#include <tdzdd/util/Graph.hpp>
#include <tdzdd/spec/PathZdd.hpp>
int main(){ Graph g; g.addEdge("a","b"); g.addEdge("b","c"); g.addEdge("c","d"); g.setColor("a","1"); g.setColor("b","1"); g.setColor("c","2"); g.setColor("d","2"); g.update(); DdStructure<2> d((PathZdd(g))); d.zddReduce(); int n=0; bool ok=true; for(DdStructure<2>::const_iterator t=d.begin();t!=d.end();++t){ ++n; std::set<int> s=*t; if(!(s.size()==2&&s.count(3)&&s.count(1))) ok=false; } return ok&&n==1?0:1; }
''','two or more colour pairs and an edge that joins both vertices of a colour before that colour was seen','the second colour pair is not required to be connected')
