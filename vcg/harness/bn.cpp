#include <tdzdd/util/BigNumber.hpp>
using namespace tdzdd;
extern "C" {
size_t vf_add(BigNumber* a, BigNumber const* b){ return a->add(*b); }
size_t vf_shl(BigNumber* a, int k){ return a->shiftLeft(k); }
uint32_t vf_div(BigNumber* a){ return a->divide(10); }
int vf_size(BigNumber* a){ return a->size(); }
size_t vf_store(BigNumber* a, BigNumber const* b){ return a->store(*b); }
size_t vf_storen(BigNumber* a, uint64_t n){ return a->store(n); }
bool vf_eq(BigNumber* a, BigNumber const* b){ return *a==*b; }
bool vf_eqn(BigNumber* a, uint64_t n){ return *a==n; }
}
