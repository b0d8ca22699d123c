#include "mocked.hpp"
#include "typed.hpp"
void addCond(std::vector<ClassDesc> &all) {
    ClassDesc cd{"Cond", {}, false, false, false, false, createMock<Cond>};
    SIM_PLAIN(Cond, l)
    SIM_PLAIN(Cond, c)
    SIM_PLAIN(Cond, b)
    SIM_PLAIN(Cond, n)
    SIM_PLAIN(Cond, d)
    SIM_PLAIN(Cond, is)
    SIM_PLAIN(Cond, mx)
    SIM_PLAIN(Cond, bc)
    SIM_PLAIN(Cond, k)
    all.push_back(cd);
}
