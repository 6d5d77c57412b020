#include "table.hpp"
struct Val { uint64_t v; };
struct Ev: DdEval<Ev,Val,uint64_t> {
  bool isThreadSafe() const noexcept; bool showMessages() const noexcept; void initialize(int) noexcept;
  void evalTerminal(Val&,int) noexcept; void evalNode(Val&,int,DdValues<Val,2> const&) noexcept; void evalNode(Val&,int,DdValues<Val,3> const&) noexcept;
  uint64_t getValue(Val const&) noexcept; void destructLevel(int) noexcept; };
extern "C" {
void vf_term2(NodeTableEntity<2>* t){ Lay<2>::ent(t); t->initTerminals(); }
void vf_term3(NodeTableEntity<3>* t){ Lay<3>::ent(t); t->initTerminals(); }
uint64_t vf_zdesc2(NodeTableEntity<2>* t,uint64_t f,int l){ Lay<2>::ent(t); NodeId r=t->getZeroDescendant(NodeId(f),l); return *reinterpret_cast<uint64_t*>(&r); }
uint64_t vf_zdesc3(NodeTableEntity<3>* t,uint64_t f,int l){ Lay<3>::ent(t); NodeId r=t->getZeroDescendant(NodeId(f),l); return *reinterpret_cast<uint64_t*>(&r); }
uint64_t vf_evaluate2(DdStructure<2> const* d,Ev const* e){ DdValues<Val,2> const* v=reinterpret_cast<DdValues<Val,2> const*>(d); vf_layval((void*)v,(void*)&v->value,(void*)&v->level); Lay<2>::dd(d); return d->evaluate(*e); }
uint64_t vf_evaluate3(DdStructure<3> const* d,Ev const* e){ DdValues<Val,3> const* v=reinterpret_cast<DdValues<Val,3> const*>(d); vf_layval((void*)v,(void*)&v->value,(void*)&v->level); Lay<3>::dd(d); return d->evaluate(*e); }
}
