#include "mocked.hpp"
#include "typed.hpp"
void addSmall(std::vector<ClassDesc> &all) {
    { ClassDesc cd{"D1", {}, true, false, false, false, createMock<D1>}; SIM_PLAIN(D1, a) all.push_back(cd); }
    { ClassDesc cd{"D2", {}, true, true, false, false, createMock<D2>}; SIM_PLAIN(D2, a) SIM_PLAIN(D2, b) all.push_back(cd); }
    { ClassDesc cd{"D3", {}, true, false, false, false, createMock<D3>}; SIM_PLAIN(D3, a) SIM_PLAIN(D3, b) all.push_back(cd); }
    { ClassDesc cd{"D4", {}, true, false, false, false, createMock<D4>}; SIM_PLAIN(D4, a) SIM_PLAIN(D4, b) SIM_PLAIN(D4, c) all.push_back(cd); }
}
