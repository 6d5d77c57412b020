#include "absspec.hpp"
#include <tdzdd/op/Lookahead.hpp>
#include <tdzdd/op/Unreduction.hpp>
using namespace tdzdd;
ABS_SPEC(Spec1,2)
ABS_SPEC(Spec3,3)
extern "C" {
void vf_pre(int size,int l,void* s,void* p) noexcept;
void vf_mid(int size,int l,void* s,void* p) noexcept;
void vf_post(int l,void* s,void* p) noexcept;
}
#define LOOK(T,S,N) \
extern "C" int N##_root(S const& a,void* p){ T<S> s(a); vf_pre(s.datasize(),0,p,p); int r=s.get_root(p); vf_post(0,p,p); return r; } \
extern "C" int N##_child(S const& a,void* p,int l,int t){ T<S> s(a); vf_pre(s.datasize(),0,p,p); int r=s.get_child(p,l,t); vf_post(0,p,p); return r; } \
extern "C" void N##_copy(S const& a,void* p,void const* q){ T<S> s(a); vf_pre(s.datasize(),0,(void*)q,(void*)q); vf_mid(s.datasize(),0,p,p); s.get_copy(p,q); vf_post(0,p,p); vf_post(0,(void*)q,(void*)q); } \
extern "C" void N##_destruct(S const& a,void* p){ T<S> s(a); vf_pre(s.datasize(),0,p,p); s.destruct(p); vf_post(0,p,p); } \
extern "C" bool N##_equal(S const& a,void* p,void* q,int l){ T<S> s(a); vf_pre(s.datasize(),0,p,p); vf_mid(s.datasize(),0,q,q); return s.equal_to(p,q,l); } \
extern "C" size_t N##_hash(S const& a,void* p,int l){ T<S> s(a); vf_pre(s.datasize(),0,p,p); return s.hash_code(p,l); } \
extern "C" int N##_merge(S const& a,void* p,void* q){ T<S> s(a); vf_pre(s.datasize(),0,p,p); vf_mid(s.datasize(),0,q,q); return s.merge_states(p,q); }
LOOK(BddLookahead,Spec1,vf_bl2)
LOOK(BddLookahead,Spec3,vf_bl3)
LOOK(ZddLookahead,Spec1,vf_zl2)
LOOK(ZddLookahead,Spec3,vf_zl3)
template<typename S,bool Z> struct XU: Unreduction_<XU<S,Z>,S,Z> { typedef Unreduction_<XU<S,Z>,S,Z> B; XU(S const& s,int n):B(s,n){}
  void pre(void* p){ vf_pre(((B const*)this)->datasize(),this->level(p),this->state(p),p); }
  void mid(void* p){ vf_mid(((B const*)this)->datasize(),this->level(p),this->state(p),p); }
  void post(void* p){ vf_post(this->level(p),this->state(p),p); } };
#define UNR(Z,S,N) \
extern "C" int N##_root(S const& a,int n,void* p){ XU<S,Z> s(a,n); s.pre(p); int r=s.get_root(p); s.post(p); return r; } \
extern "C" int N##_child(S const& a,int n,void* p,int l,int t){ XU<S,Z> s(a,n); s.pre(p); int r=s.get_child(p,l,t); s.post(p); return r; } \
extern "C" void N##_copy(S const& a,int n,void* p,void const* q){ XU<S,Z> s(a,n); s.pre((void*)q); s.mid(p); s.get_copy(p,q); s.post(p); s.post((void*)q); } \
extern "C" void N##_destruct(S const& a,int n,void* p){ XU<S,Z> s(a,n); s.pre(p); s.destruct(p); s.post(p); } \
extern "C" bool N##_equal(S const& a,int n,void* p,void* q,int l){ XU<S,Z> s(a,n); s.pre(p); s.mid(q); return s.equal_to(p,q,l); } \
extern "C" size_t N##_hash(S const& a,int n,void* p,int l){ XU<S,Z> s(a,n); s.pre(p); return s.hash_code(p,l); } \
extern "C" int N##_merge(S const& a,int n,void* p,void* q){ XU<S,Z> s(a,n); s.pre(p); s.mid(q); return s.merge_states(p,q); }
UNR(false,Spec1,vf_bu2)
UNR(false,Spec3,vf_bu3)
UNR(true,Spec1,vf_zu2)
UNR(true,Spec3,vf_zu3)
