#include "mocked.hpp"
#include "typed.hpp"
void addWide(std::vector<ClassDesc> &all) {
    ClassDesc cd{"Wide", {}, true, false, false, false, createMock<Wide>};
    SIM_PLAIN(Wide, w6)
    SIM_PLAIN(Wide, w7)
    SIM_PLAIN(Wide, w9)
    all.push_back(cd);
}
