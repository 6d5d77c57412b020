#include "table.hpp"
#include "absspec.hpp"
#include <tdzdd/dd/DdBuilder.hpp>
ABS_SPEC(Spec1,2)
ABS_SPEC(Spec3,3)
#define SUB(S,A) \
extern "C" int vf_dtab##A(ZddSubsetter<S>* z,NodeId* f,int b,int l){ NodeTableEntity<A> const* t=reinterpret_cast<NodeTableEntity<A> const*>(z); Lay<A>::ent(t); return z->downTable(*f,b,l); } \
extern "C" int vf_dspec##A(ZddSubsetter<S>* z,void* p,int level,int b,int l){ return z->downSpec(p,level,b,l); }
SUB(Spec1,2)
SUB(Spec3,3)
