#include "mocked.hpp"
#include "typed.hpp"
void addSvc3(ClassDesc &cd) {
    SIM_PLAIN(Svc, rv)
    SIM_PLAIN(Svc, d2)
    SIM_PLAIN(Svc, five)
    SIM_PLAIN(Svc, b1)
    SIM_PLAIN(Svc, cs)
    SIM_PLAIN(Svc, rvr)
    SIM_PLAIN(Svc, vec)
    SIM_PLAIN(Svc, c1)
}
