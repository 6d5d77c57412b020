// compiled with -fno-access-control: the layout call-backs tell the verifier where the members are
#include <cstddef>
#include <cassert>
#include <climits>
#include <cmath>
#include <cstring>
#include <stdint.h>
#include <stdlib.h>
#include <iostream>
#include <iomanip>
#include <sstream>
#include <fstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <algorithm>
#include <utility>
#include <typeinfo>
#include <new>
#include <bitset>
#include <ext/hash_map>
#include <tdzdd/DdStructure.hpp>
#include <tdzdd/DdEval.hpp>
#include <tdzdd/dd/NodeTable.hpp>
#include <tdzdd/dd/DdReducer.hpp>
using namespace tdzdd;
extern "C" { void vf_layvec(void*,void*,void*) noexcept; void vf_laytab(void*,void*) noexcept; void vf_laydd(void*,void*,void*) noexcept; void vf_layobj(void*,void*,void*) noexcept; void vf_laylev(void*,void*,void*) noexcept; void vf_layval(void*,void*,void*) noexcept; void vf_go() noexcept; }
template<int A> struct Lay {
  static void vec(NodeTableEntity<A> const* t){ MyVector<Node<A> > const* v=reinterpret_cast<MyVector<Node<A> > const*>(t); vf_layvec((void*)&v->capacity_,(void*)&v->size_,(void*)&v->array_); }
  static void ent(NodeTableEntity<A> const* t){ vec(t); vf_laytab((void*)t,(void*)&t->table); vf_go(); }
  static void dd(DdStructure<A> const* d){ NodeTableEntity<A> const* t=reinterpret_cast<NodeTableEntity<A> const*>(d); vec(t); vf_laytab((void*)t,(void*)&t->table);
    typename NodeTableHandler<A>::Object const* o=reinterpret_cast<typename NodeTableHandler<A>::Object const*>(d); vf_layobj((void*)o,(void*)&o->refCount,(void*)&o->entity);
    vf_laydd((void*)d,(void*)&d->diagram.pointer,(void*)&d->root_); vf_go(); }
};
