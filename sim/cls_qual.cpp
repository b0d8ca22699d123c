#include "mocked.hpp"
#include "typed.hpp"
void addQual(std::vector<ClassDesc> &all) {
    ClassDesc cd{"Qual", {}, false, false, false, false, createMock<Qual>};
    SIM_METHOD(Qual, "q", RefOverloadedMethod(m, q, int(int)), static_cast<int (Qual::*)(int) &>(&Qual::q))
    SIM_METHOD(Qual, "q", RValRefOverloadedMethod(m, q, int(int)), static_cast<int (Qual::*)(int) &&>(&Qual::q))
    SIM_METHOD(Qual, "q", ConstRefOverloadedMethod(m, q, int(int)), static_cast<int (Qual::*)(int) const &>(&Qual::q))
    SIM_METHOD(Qual, "q", ConstRValRefOverloadedMethod(m, q, int(int)), static_cast<int (Qual::*)(int) const &&>(&Qual::q))
    SIM_PLAIN(Qual, vo)
    SIM_PLAIN(Qual, cv)
    SIM_PLAIN(Qual, p)
    SIM_PLAIN(Qual, lr)
    SIM_PLAIN(Qual, rr)
    cd.groups = {{0, 1, 2, 3}, {4, 6}, {8, 5, 7}};
    cd.group = [](MockBox &b, int which, bool) {
        fakeit::Mock<Qual> &m = *static_cast<MockBoxT<Qual> &>(b).mp;
        using namespace fakeit;
        LibScope l;
        switch (which) {
            case 0: Fake(RefOverloadedMethod(m, q, int(int)), RValRefOverloadedMethod(m, q, int(int)), ConstRefOverloadedMethod(m, q, int(int)), ConstRValRefOverloadedMethod(m, q, int(int))); break;
            case 1: Fake(Method(m, vo), Method(m, p)); break;
            default: Fake(Method(m, rr), Method(m, cv), Method(m, lr)); break;
        }
    };
    all.push_back(cd);
}
