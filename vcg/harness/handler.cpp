#include "table.hpp"
typedef NodeTableHandler<2> H; typedef NodeTableEntity<2> E;
extern "C" void vf_layh(void*,void*,void*,void*) noexcept;
static void lay(H* h){ H::Object* o=reinterpret_cast<H::Object*>(h); vf_layh((void*)o,(void*)&o->refCount,(void*)&o->entity,(void*)(o+1)); vf_go(); }
extern "C" {
void vf_hnew(H* h,int n){ lay(h); new(h) H(n); }
void vf_hcopy(H* h,H const* o){ lay(h); new(h) H(*o); }
void vf_hassign(H* h,H const* o){ lay(h); *h=*o; }
void vf_hdtor(H* h){ lay(h); h->~H(); }
E const* vf_hderef(H* h){ lay(h); return &**h; }
E const* vf_harrow(H* h){ lay(h); return h->operator->(); }
E* vf_hpriv(H* h){ lay(h); return &h->privateEntity(); }
E* vf_hinit(H* h,int n){ lay(h); return &h->init(n); }
void vf_hlev(H* h,int i){ lay(h); h->derefLevel(i); }
}
