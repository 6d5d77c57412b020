// MyVector of an abstract element type: every member of Elem is external, so the verifier uses its contract
#include <cstddef>
#include <ostream>
#include <cassert>
#include <tdzdd/util/MyVector.hpp>
using namespace tdzdd;
struct Elem { unsigned long v; Elem() noexcept; Elem(Elem const&) noexcept; Elem& operator=(Elem const&) noexcept; ~Elem() noexcept; bool operator==(Elem const&) const noexcept; size_t hash() const noexcept; };
typedef MyVector<Elem> V;
struct VX: V { using V::V; };
extern "C" {
void vf_ctor(V* v){ new(v) V(); }
void vf_ctorn(V* v,size_t n){ new(v) V(n); }
void vf_ctornv(V* v,size_t n,Elem const* x){ new(v) V(n,*x); }
void vf_copy(V* v,V const* o){ new(v) V(*o); }
void vf_assign(V* v,V const* o){ *v=*o; }
void vf_swap(V* v,V* o){ v->swap(*o); }
void vf_dtor(V* v){ v->~V(); }
size_t vf_cap(V* v){ return v->capacity(); }
size_t vf_size(V* v){ return v->size(); }
bool vf_empty(V* v){ return v->empty(); }
void vf_reserve(V* v,size_t n){ v->reserve(n); }
void vf_init(V* v,size_t n){ v->init(n); }
void vf_resize(V* v,size_t n){ v->resize(n); }
Elem* vf_erase(V* v,Elem* a,Elem* b){ return v->erase(a,b); }
Elem* vf_erase1(V* v,Elem* a){ return v->erase(a); }
void vf_clear(V* v){ v->clear(); }
void vf_push(V* v,Elem const* x){ v->push_back(*x); }
void vf_pop(V* v){ v->pop_back(); }
Elem* vf_back(V* v){ return &v->back(); }
Elem* vf_at(V* v,size_t i){ return &(*v)[i]; }
Elem const* vf_cat(V const* v,size_t i){ return &(*v)[i]; }
Elem* vf_begin(V* v){ return v->begin(); }
Elem* vf_end(V* v){ return v->end(); }
Elem* vf_data(V* v){ return v->data(); }
bool vf_eq(V const* v,V const* o){ return *v==*o; }
size_t vf_hash(V const* v){ return v->hash(); }
}
