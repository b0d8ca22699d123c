#include "mocked.hpp"
#include "typed.hpp"
void addMany(std::vector<ClassDesc> &all) {
    ClassDesc cd{"Many", {}, true, false, false, false, createMock<Many>};
#define X(N) SIM_PLAIN(Many, m##N)
    X10() X10(1) X10(2) X10(3)
#undef X
    all.push_back(cd);
}
