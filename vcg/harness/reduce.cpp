#include "table.hpp"
extern "C" void vf_layred(void*,void*,void*,void*,void*) noexcept;
template<int A,bool B,bool Z> static void red(DdReducer<A,B,Z>* r,int i){
  Lay<A>::vec(reinterpret_cast<NodeTableEntity<A> const*>(r)); NodeTableEntity<A> const* t=reinterpret_cast<NodeTableEntity<A> const*>(r); vf_laytab((void*)t,(void*)&t->table);
  vf_layred((void*)r,(void*)&r->oldDiagram,(void*)&r->newDiagram,(void*)&r->newIdTable,(void*)&r->rootPtr); vf_go(); r->reduce_(i); }
extern "C" {
void vf_redB2(DdReducer<2,true,false>* r,int i){ red(r,i); }
void vf_redZ2(DdReducer<2,false,true>* r,int i){ red(r,i); }
void vf_redQ2(DdReducer<2,false,false>* r,int i){ red(r,i); }
void vf_redB3(DdReducer<3,true,false>* r,int i){ red(r,i); }
void vf_redZ3(DdReducer<3,false,true>* r,int i){ red(r,i); }
void vf_redQ3(DdReducer<3,false,false>* r,int i){ red(r,i); }
}
