// built-in arithmetic constraints; the integer subset of SizeConstraint is abstract: its virtual members are called through the table vf_layvt describes
#include <cstddef>
#include <climits>
#include <cassert>
#include <map>
#include <vector>
#include <tdzdd/spec/SizeConstraint.hpp>
#include <tdzdd/spec/LinearConstraints.hpp>
#include <tdzdd/util/IntSubset.hpp>
using namespace tdzdd;
typedef LinearConstraints<int> LC;
extern "C" { void vf_layvt(long,long,long) noexcept; void vf_layitem(void*,void*,void*,void*,void*,void*,void*,void*,void*) noexcept; void vf_laylc(void*,void*,void*) noexcept; void vf_go() noexcept; }
union MC { bool (IntSubset::*f)(int) const; long l[2]; }; union MB { int (IntSubset::*f)() const; long l[2]; };
static void lay(){ MC c; c.f=&IntSubset::contains; MB a,b; a.f=&IntSubset::lowerBound; b.f=&IntSubset::upperBound; vf_layvt(c.l[0]-1,a.l[0]-1,b.l[0]-1); }
struct S1: IntSubset { bool contains(int) const noexcept; int lowerBound() const noexcept; int upperBound() const noexcept; };
extern "C" {
bool vf_range(int mn,int mx,int st,int x){ IntRange r(mn,mx,st); return r.IntRange::contains(x); }
int vf_rlow(int mn,int mx,int st){ IntRange r(mn,mx,st); return r.IntRange::lowerBound(); }
int vf_rupp(int mn,int mx,int st){ IntRange r(mn,mx,st); return r.IntRange::upperBound(); }
int vf_deflow(IntSubset const* s){ return s->IntSubset::lowerBound(); }
int vf_defupp(IntSubset const* s){ return s->IntSubset::upperBound(); }
int vf_sroot(IntSubset const* s,int n,int* c){ lay(); SizeConstraint z(n,s); return z.getRoot(*c); }
int vf_schild(IntSubset const* s,int n,int* c,int l,int v){ lay(); SizeConstraint z(n,s); return z.getChild(*c,l,v); }
int vf_lchild(LC* c,int* v,int l,bool t){ LC::CheckItem* p=reinterpret_cast<LC::CheckItem*>(c); vf_layitem(p,&p->index,&p->weight,&p->addMin,&p->addMax,&p->lowerBound,&p->upperBound,&p->finalChoice,p+1);
  vf_laylc(c,&c->checklists,&c->arraySize); vf_go(); return c->getChild(v,l,t); }
int vf_lroot(LC* c,int* v){ vf_laylc(c,&c->checklists,&c->arraySize); vf_go(); return c->getRoot(v); }
}
