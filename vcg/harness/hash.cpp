// MyHashTable with an abstract hash function and an abstract equivalence on 64-bit entries (0 is the default entry)
#include <cstddef>
#include <stdint.h>
#include <ostream>
#include <algorithm>
#include <cassert>
#include <tdzdd/util/MyHashTable.hpp>
using namespace tdzdd;
extern "C" { size_t vf_hashfn(uint64_t) noexcept; bool vf_eqv(uint64_t,uint64_t) noexcept; void vf_layout(void*,void*,void*,void*,void*,void*) noexcept; }
struct Key { uint64_t v; Key():v(0){} bool operator==(Key const& o) const { return v==o.v; } };
struct HF { size_t operator()(Key const& k) const { return vf_hashfn(k.v); } };
struct EF { bool operator()(Key const& a,Key const& b) const { return vf_eqv(a.v,b.v); } };
typedef MyHashTable<Key,HF,EF> H;
struct X: H { static void lay(H* h){ X* x=static_cast<X*>(h); vf_layout(&x->tableCapacity_,&x->tableSize_,&x->maxSize_,&x->size_,&x->table,&x->collisions_); } };
extern "C" {
size_t vf_prime(size_t n){ return MyHashConstant::primeSize(n); }
void vf_ctor(H* h){ X::lay(h); new(h) H(); }
void vf_ctorn(H* h,size_t n){ X::lay(h); new(h) H(n); }
void vf_copy(H* h,H const* o){ X::lay(h); new(h) H(*o); }
void vf_assign(H* h,H const* o){ X::lay(h); *h=*o; }
void vf_move(H* h,H* o){ X::lay(h); h->moveAssign(*o); }
void vf_dtor(H* h){ X::lay(h); h->H::~H(); }
void vf_clear(H* h){ X::lay(h); h->clear(); }
void vf_init(H* h,size_t n){ X::lay(h); h->initialize(n); }
void vf_rehash(H* h,size_t n){ X::lay(h); h->rehash(n); }
Key* vf_add(H* h,Key const* k){ X::lay(h); return &h->add(*k); }
Key* vf_get(H* h,Key const* k){ X::lay(h); return h->get(*k); }
size_t vf_size(H* h){ X::lay(h); return h->size(); }
bool vf_empty(H* h){ X::lay(h); return h->empty(); }
Key* vf_begin(H* h){ X::lay(h); return &*h->begin(); }
void vf_itctor(H::iterator* it,Key* a,Key const* b){ new(it) H::iterator(a,b); }
void vf_citctor(H::const_iterator* it,Key const* a,Key const* b){ new(it) H::const_iterator(a,b); }
H::iterator* vf_itnext(H::iterator* it){ return &++*it; }
H::const_iterator* vf_citnext(H::const_iterator* it){ return &++*it; }
}
