#include "absspec.hpp"
#include <tdzdd/op/BinaryOperation.hpp>
using namespace tdzdd;
ABS_SPEC(Spec1,2)
ABS_SPEC(Spec2,2)
extern "C" {
// abstraction of a block: levels and operand states as the code itself locates them; datasize in bytes
void vf_pre(int size,int l1,int l2,void* s1,void* s2,void* p);
void vf_mid(int size,int l1,int l2,void* s1,void* s2,void* p);
void vf_post(int l1,int l2,void* s1,void* s2,void* p);
}
#define WITH_LEVELS(T) \
struct X##T: T##_<X##T,Spec1,Spec2>{ typedef T##_<X##T,Spec1,Spec2> B; X##T(Spec1 const& a,Spec2 const& b):B(a,b){} \
  void pre(void* p){ vf_pre(datasize(*this),this->level1(p),this->level2(p),this->state1(p),this->state2(p),p); } \
  void mid(void* p){ vf_mid(datasize(*this),this->level1(p),this->level2(p),this->state1(p),this->state2(p),p); } \
  void post(void* p){ vf_post(this->level1(p),this->level2(p),this->state1(p),this->state2(p),p); } \
  static int datasize(B const& b){ return b.datasize(); } };
#define NO_LEVELS(T) \
struct X##T: T##_<X##T,Spec1,Spec2>{ typedef T##_<X##T,Spec1,Spec2> B; X##T(Spec1 const& a,Spec2 const& b):B(a,b){} \
  void pre(void* p){ vf_pre(datasize(*this),0,0,this->state1(p),this->state2(p),p); } \
  void mid(void* p){ vf_mid(datasize(*this),0,0,this->state1(p),this->state2(p),p); } \
  void post(void* p){ vf_post(0,0,this->state1(p),this->state2(p),p); } \
  static int datasize(B const& b){ return b.datasize(); } };
WITH_LEVELS(BddAnd)
WITH_LEVELS(BddOr)
WITH_LEVELS(ZddUnion)
NO_LEVELS(ZddIntersection)
#define FUN(T,N) \
extern "C" int N##_root(Spec1 const& a,Spec2 const& b,void* p){ X##T s(a,b); s.pre(p); int r=s.get_root(p); s.post(p); return r; } \
extern "C" int N##_child(Spec1 const& a,Spec2 const& b,void* p,int l,int t){ X##T s(a,b); s.pre(p); int r=s.get_child(p,l,t); s.post(p); return r; } \
extern "C" void N##_copy(Spec1 const& a,Spec2 const& b,void* p,void const* q){ X##T s(a,b); s.pre((void*)q); s.mid(p); s.get_copy(p,q); s.post(p); s.post((void*)q); } \
extern "C" void N##_destruct(Spec1 const& a,Spec2 const& b,void* p){ X##T s(a,b); s.pre(p); s.destruct(p); s.post(p); } \
extern "C" bool N##_equal(Spec1 const& a,Spec2 const& b,void* p,void* q,int l){ X##T s(a,b); s.pre(p); s.mid(q); return s.equal_to(p,q,l); } \
extern "C" size_t N##_hash(Spec1 const& a,Spec2 const& b,void* p,int l){ X##T s(a,b); s.pre(p); return s.hash_code(p,l); } \
extern "C" int N##_merge(Spec1 const& a,Spec2 const& b,void* p,void* q){ X##T s(a,b); s.pre(p); s.mid(q); return s.merge_states(p,q); }
FUN(BddAnd,vf_and)
FUN(BddOr,vf_or)
FUN(ZddUnion,vf_uni)
FUN(ZddIntersection,vf_int)
