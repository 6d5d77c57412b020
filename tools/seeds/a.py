H='#include <tdzdd/DdStructure.hpp>\n#include <tdzdd/DdSpecOp.hpp>\n#include <tdzdd/DdSpec.hpp>\n#include <cstdio>\n#include <vector>\n#include <set>\n#include <string>\n#include <cstring>\n#include <sstream>\nusing namespace tdzdd;\n'
# table-driven specification used by several demonstrations: T[level][state][branch] = {level,state}; level 0/-1 are the terminals
TAB='''struct Tg{int l,s;}; typedef std::vector<std::vector<std::vector<Tg> > > Tb;
template<int AR> struct Tab: DdSpec<Tab<AR>,int,AR>{ Tb const* t; Tg r; Tab(Tb const& t,Tg r):t(&t),r(r){} int getRoot(int& s){ s=r.s; return r.l; } int getChild(int& s,int l,int b){ Tg x=(*t)[l][s][b]; s=x.s; return x.l; } };
static unsigned rs=12345; static int rnd(int n){ rs=rs*1103515245u+12345u; return int((rs>>12)%unsigned(n)); }
template<int AR> Tb gen(int n,int m,int skip){ Tb t(n+1); for(int i=1;i<=n;++i){ t[i].resize(m); for(int s=0;s<m;++s){ t[i][s].resize(AR); for(int b=0;b<AR;++b){ int j=i-1; while(j>0&&rnd(100)<skip) --j; int x=rnd(10); Tg g; if(x==0) g=Tg{0,0}; else if(j<=0) g=Tg{rnd(2)?-1:0,0}; else g=Tg{j,rnd(m)}; t[i][s][b]=g; } } } return t; }
template<int AR> int fol(Tb const& t,Tg x,std::vector<int> const& v,int N,bool z){ int up=N; while(true){ int l=x.l>0?x.l:0; if(z) for(int i=up;i>l;--i) if(v[i]) return 0; if(x.l<=0) return x.l?1:0; up=l-1; x=t[l][x.s][v[l]]; } }
template<int AR> int fold(DdStructure<AR> const& d,std::vector<int> const& v,int N,bool z){ NodeId f=d.root(); int up=N; while(true){ int l=f.row(); if(z) for(int i=up;i>l;--i) if(v[i]) return 0; if(!l) return f.col(); up=l-1; f=(*d.getDiagram())[l][f.col()].branch[v[l]]; } }
template<int AR,class F> bool all(int N,F f){ std::vector<int> v(N+1,0); while(true){ if(!f(v)) return false; int i=1; while(i<=N){ if(++v[i]<AR) break; v[i++]=0; } if(i>N) return true; } }
'''
seed('c07-add-carry','C07',[('util/BigNumber.hpp','''                while ((*p & MSB) != 0) {
                    *p++ = x | MSB;
                    x >>= 63;
                    x += *p & ~MSB;''','''                while ((*p & MSB) != 0) {
                    bool carry = x & MSB;
                    *p++ = x | MSB;
                    x = *p & ~MSB;
                    if (carry && x + 1 < MSB) ++x;''')],
'#include <tdzdd/util/BigNumber.hpp>\n#include <cstdio>\nusing namespace tdzdd;\nint main(){ uint64_t M=uint64_t(1)<<63,a[8]={~uint64_t(0),~uint64_t(0),5},b[8]={1}; BigNumber x(a),y(b); x.add(y); return (a[0]==M&&a[1]==M&&a[2]==6)?0:1; }\n',
'a number of at least three 63-bit limbs whose middle limb is all ones, plus a shorter number that carries','the carry out of an all-ones limb is lost when the longer operand is the accumulated one')
seed('c04-downtable','C04',[('dd/DdBuilder.hpp','''        f = input.child(f, b);
        while (f.row() > zerosupLevel) {
            f = input.child(f, 0);
        }
        return (f == 1) ? -1 : f.row();
    }

    int downSpec(void* p, int level, int b, int zerosupLevel) {
        if (zerosupLevel < 0) zerosupLevel = 0;
        assert(level > zerosupLevel);

        int i = spec.get_child(p, level, b);
        while (i > zerosupLevel) {
            i = spec.get_child(p, i, 0);
        }
        return i;
    }
};

/**
 * Multi-threaded breadth-first ZDD subset builder.''','''        f = input.child(f, b);
        if (f.row() > zerosupLevel) f = input.child(f, 0);
        if (f.row() > zerosupLevel) f = input.child(f, 0);
        while (f.row() > zerosupLevel) {
            f = input.child(f, f.row() == zerosupLevel + 1);
        }
        return (f == 1) ? -1 : f.row();
    }

    int downSpec(void* p, int level, int b, int zerosupLevel) {
        if (zerosupLevel < 0) zerosupLevel = 0;
        assert(level > zerosupLevel);

        int i = spec.get_child(p, level, b);
        while (i > zerosupLevel) {
            i = spec.get_child(p, i, 0);
        }
        return i;
    }
};

/**
 * Multi-threaded breadth-first ZDD subset builder.''')],
H+TAB+'''int main(){ for(int k=0;k<600;++k){ int N=8; Tb a=gen<2>(N,3,5),b=gen<2>(N,2,75); Tg ra={N,0},rb={N,0}; DdStructure<2> d(Tab<2>(a,ra)); d.zddSubset(Tab<2>(b,rb)); if(!all<2>(N,[&](std::vector<int> const& v){ return fold<2>(d,v,N,true)==(fol<2>(a,ra,v,N,true)&&fol<2>(b,rb,v,N,true)); })) return 1; } return 0; }
''','a specification that skips at least four levels at which the diagram has nodes','the diagram side follows a 1-branch while skipping zero-suppressed levels')
seed('c05-union-level','C05',[('op/BinaryOperation.hpp','''        else if (take) {
            base::setLevel2(p, 0);
        }

        if (base::level1(p) == 0 && base::level2(p) == 0) return 0;''','''        else if (take && base::level1(p) != 0) {
            base::setLevel2(p, 0);
        }

        if (base::level1(p) == 0 && base::level2(p) == 0) return 0;''')],
H+TAB+'''int main(){ for(int k=0;k<600;++k){ int N=5; Tb a=gen<2>(N,2,20),b=gen<2>(N,2,60); Tg ra={N,0},rb={N,0}; DdStructure<2> d(zddUnion(Tab<2>(a,ra),Tab<2>(b,rb))); if(!all<2>(N,[&](std::vector<int> const& v){ return fold<2>(d,v,N,true)==(fol<2>(a,ra,v,N,true)||fol<2>(b,rb,v,N,true)); })) return 1; } return 0; }
''','one operand rejects exactly at a level that the other operand skips','the skipped item is treated as a don\'t care for the second operand')
seed('c13-reserve','C13',[('util/MemoryPool.hpp','''        if (nextUnit + elementUnits > BLOCK_UNITS) {''','''        if (nextUnit + elementUnits > BLOCK_UNITS + (nextUnit == BLOCK_UNITS - 1)) {''')],
'#include <tdzdd/util/MemoryPool.hpp>\n#include <cstring>\nusing namespace tdzdd;\nint main(){ MemoryPool p; size_t n=1; const size_t B=400000/8; char* last=0; char* first=(char*)p.alloc(8); n=2; while(n<B-1){ p.alloc(8); ++n; } char* a=(char*)p.alloc(16); return (a>=first-8+B*8-15||false)&&a<first-8+B*8?1:0; }\n',
'an allocation of two units when exactly one unit is left in the block','the pool hands out memory past the end of its block')
