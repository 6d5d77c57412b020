// Abstract operand specifications: every member is external, so the verifier uses its contract (vcg/contracts/absspec.py)
#include <cstddef>
#include <tdzdd/DdSpec.hpp>
#define ABS_SPEC(NAME,AR) \
struct NAME: tdzdd::DdSpecBase<NAME,AR> { char dummy; \
  int datasize() const noexcept; int get_root(void* p) noexcept; int get_child(void* p,int level,int b) noexcept; void get_copy(void* to,void const* from) noexcept; \
  int merge_states(void* p1,void* p2) noexcept; void destruct(void* p) noexcept; void destructLevel(int level) noexcept; size_t hash_code(void const* p,int level) const noexcept; \
  bool equal_to(void const* p,void const* q,int level) const noexcept; void print_state(std::ostream& os,void const* p,int level) const noexcept; void print_level(std::ostream&,int) const; };
