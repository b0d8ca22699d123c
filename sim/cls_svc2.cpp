#include "mocked.hpp"
#include "typed.hpp"
void addSvc2(ClassDesc &cd) {
    SIM_PLAIN(Svc, o1)
    SIM_PLAIN(Svc, o2)
    SIM_PLAIN(Svc, outp)
    cd.methods.back().caps |= CAP_RETSET;
    SIM_PLAIN(Svc, outr)
    cd.methods.back().caps |= CAP_RETSET;
    SIM_PLAIN(Svc, out4)
    cd.methods.back().caps |= CAP_RETSET;
    SIM_METHOD(Svc, "ov", OverloadedMethod(m, ov, int(int)), static_cast<int (Svc::*)(int)>(&Svc::ov))
    SIM_METHOD(Svc, "ov", OverloadedMethod(m, ov, int(int, int)), static_cast<int (Svc::*)(int, int)>(&Svc::ov))
    SIM_METHOD(Svc, "ov", ConstOverloadedMethod(m, ov, int(int)), static_cast<int (Svc::*)(int) const>(&Svc::ov))
    SIM_PLAIN(Svc, mo)
    SIM_PLAIN(Svc, rr)
}
