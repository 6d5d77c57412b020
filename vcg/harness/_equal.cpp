#include "table.hpp"
extern "C" {
bool vf_eq2(DdStructure<2> const* d,DdStructure<2> const* o){ Lay<2>::dd(d); return d->operator==(*o); }
bool vf_eq3(DdStructure<3> const* d,DdStructure<3> const* o){ Lay<3>::dd(d); return d->operator==(*o); }
bool vf_ne2(DdStructure<2> const* d,DdStructure<2> const* o){ Lay<2>::dd(d); return d->operator!=(*o); }
}
