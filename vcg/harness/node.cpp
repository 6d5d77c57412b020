// NodeId / Node / NodeBranchId (dd/Node.hpp)
#include <tdzdd/dd/Node.hpp>
using namespace tdzdd;
static NodeId raw(uint64_t x){ return NodeId(x); }
extern "C" {
uint64_t vf_make2(uint64_t r,uint64_t c){ NodeId f(r,c); return *reinterpret_cast<uint64_t*>(&f); }
uint64_t vf_make3(uint64_t r,uint64_t c,bool a){ NodeId f(r,c,a); return *reinterpret_cast<uint64_t*>(&f); }
int vf_row(uint64_t x){ return raw(x).row(); }
size_t vf_col(uint64_t x){ return raw(x).col(); }
bool vf_attr(uint64_t x){ return raw(x).getAttr(); }
uint64_t vf_setattr(uint64_t x,bool v){ NodeId f(x); f.setAttr(v); return *reinterpret_cast<uint64_t*>(&f); }
uint64_t vf_without(uint64_t x){ NodeId f=raw(x).withoutAttr(); return *reinterpret_cast<uint64_t*>(&f); }
uint64_t vf_code(uint64_t x){ return raw(x).code(); }
bool vf_hasempty(uint64_t x){ return raw(x).hasEmpty(); }
size_t vf_hash(uint64_t x){ return raw(x).hash(); }
bool vf_eq(uint64_t x,uint64_t y){ return raw(x)==raw(y); }
bool vf_ne(uint64_t x,uint64_t y){ return raw(x)!=raw(y); }
bool vf_lt(uint64_t x,uint64_t y){ return raw(x)<raw(y); }
bool vf_ge(uint64_t x,uint64_t y){ return raw(x)>=raw(y); }
bool vf_gt(uint64_t x,uint64_t y){ return raw(x)>raw(y); }
bool vf_le(uint64_t x,uint64_t y){ return raw(x)<=raw(y); }
#define NODE(A) \
bool vf_neq##A(Node<A> const* x,Node<A> const* y){ return *x==*y; } \
bool vf_nne##A(Node<A> const* x,Node<A> const* y){ return *x!=*y; } \
size_t vf_nhash##A(Node<A> const* x){ return x->hash(); } \
void vf_nmk2_##A(Node<A>* x,uint64_t f,uint64_t g){ new(x) Node<A>(raw(f),raw(g)); } \
void vf_nmkp_##A(Node<A>* x,NodeId const* f){ new(x) Node<A>(f); } \
void vf_ninit##A(Node<A>* x){ new(x) InitializedNode<A>(); }
NODE(2)
NODE(3)
NODE(5)
}
