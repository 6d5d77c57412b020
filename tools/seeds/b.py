seed('c12-reinit','C12',[('util/MyHashTable.hpp','''            for (size_t i = 0; i < tableSize_; ++i) {
                table[i] = Entry();''','''            for (size_t i = 0; i + 1 < tableSize_; ++i) {
                table[i] = Entry();''')],
'#include <tdzdd/util/MyHashTable.hpp>\nusing namespace tdzdd;\nstruct H{ size_t operator()(int k) const { return k; } bool operator()(int a,int b) const { return a==b; } };\nint main(){ for(int q=1;q<40;++q){ MyHashTable<int,H,H> t(q); int k=t.tableSize()-1; t.add(k); t.initialize(q); if(t.get(k)!=0) return 1; int n=0; for(MyHashTable<int,H,H>::iterator i=t.begin();i!=t.end();++i) ++n; if(n) return 1; } return 0; }\n',
'a table that is re-initialised while its last slot is occupied','the element in the last slot survives re-initialisation')
seed('c09-resize','C09',[('DdStructure.hpp','''                        path.resize(cursor + 1);
                        f = dd''','''                        if (ss.branch[1] != 1) path.resize(cursor + 1);
                        f = dd''')],
H+TAB+'''int main(){ for(int k=0;k<300;++k){ int N=5; Tb a=gen<2>(N,2,20); Tg r={N,0}; DdStructure<2> d(Tab<2>(a,r)); d.zddReduce(); std::set<std::set<int> > s,w; int n=0; for(DdStructure<2>::const_iterator t=d.begin();t!=d.end();++t){ s.insert(*t); ++n; } all<2>(N,[&](std::vector<int> const& v){ if(fold<2>(d,v,N,true)){ std::set<int> x; for(int i=1;i<=N;++i) if(v[i]) x.insert(i); w.insert(x); } return true; }); if(s!=w||n!=(int)w.size()) return 1; } return 0; }
''','a member found by backtracking straight into the 1-terminal','items of the previously visited path stay in the reported set')
seed('c19-stretch','C19',[('dd/NodeTable.hpp','''                        child(i + d, j, b) =
                                (ii == 0) ? ff : NodeId(ii + d, ff.col());
                    }
                }

                this->initRow(i, 0);''','''                        child(i + d, j, b) =
                                (ii == 0) ? ff : NodeId(ii + d, ff.col());
                    }
                }

                if (i > d) this->initRow(i, 0);''')],
H+TAB+'''int main(){ Tb a=gen<2>(4,2,0); DdStructure<2> d(Tab<2>(a,Tg{4,0})); NodeTableHandler<2> h=d.getDiagram(); size_t n=h->size(); h.privateEntity().stretchBottom(6); return h->size()==n&&(*h)[1].size()==0&&(*h)[2].size()==0?0:1; }
''','stretching by at least as many levels as the number of a lower row','nodes of the lowest levels are left behind in the table')
seed('c16-merge','C16',[('dd/DdBuilder.hpp','''            if (nodeId(p) == 1) {
                spec.destruct(state(p));
                continue;
            }

            bool allZero = true;

            for (int b = 0; b < AR; ++b) {
                if (nodeId(p) == 0) {
                    q.branch[b] = 0;
                    continue;
                }

                spec.get_copy(state(pp), state(p));
                int ii = spec.get_child(state(pp), i, b);''','''            if (nodeId(p) == 1) {
                if (i > 1 || m < 2) spec.destruct(state(p));
                continue;
            }

            bool allZero = true;

            for (int b = 0; b < AR; ++b) {
                if (nodeId(p) == 0) {
                    q.branch[b] = 0;
                    continue;
                }

                spec.get_copy(state(pp), state(p));
                int ii = spec.get_child(state(pp), i, b);''')],
H+'''static int live=0; struct St{ int v; };
struct Sp: DdSpecBase<Sp,2>{ int n; Sp(int n):n(n){} int datasize() const { return sizeof(St); } int get_root(void* p){ new(p) St(); ++live; ((St*)p)->v=0; return n; } int get_child(void* p,int l,int b){ ((St*)p)->v=(((St*)p)->v+b)%3; return l>1?l-1:(((St*)p)->v?-1:0); } void get_copy(void* to,void const* from){ ((St*)to)->v=((St const*)from)->v; ++live; } int merge_states(void*,void*){ return 0; } void destruct(void*){ --live; } void destructLevel(int){} size_t hash_code(void const* p,int) const { return ((St const*)p)->v; } bool equal_to(void const* p,void const* q,int) const { return ((St const*)p)->v==((St const*)q)->v; } void print_state(std::ostream&,void const*,int) const {} };
int main(){ { DdStructure<2> d(Sp(5)); } return live?1:0; }
''','equal states merged at the lowest level of a diagram with at least two nodes there','merged states are not released')
