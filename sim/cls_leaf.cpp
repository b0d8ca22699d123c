#include "mocked.hpp"
#include "typed.hpp"
#define ORIG(M, ...) HarnessScope h; ArgRead r_[] = {__VA_ARGS__}; OrigRet x_ = simOriginal(this, M, r_, (int) (sizeof r_ / sizeof *r_));
int Leaf::add(int a) { ORIG(L_ADD, Param<int>::read(a)) return x_.code; }
int Leaf::twice(int a) { ORIG(L_TWICE, Param<int>::read(a)) return x_.code; }
int Leaf::fact(int a) { ORIG(L_FACT, Param<int>::read(a)) return x_.code; }
std::string Leaf::name(const std::string &a) { ORIG(L_NAME, Param<const std::string &>::read(a)) return Codec<std::string>::make(x_.code); }
void Leaf::outp(int a, int *b) { ORIG(L_OUTP, Param<int>::read(a), Param<int *>::read(b)) if (x_.setOut) *b = x_.outVal; }
int Leaf::fail(int a) { ORIG(L_FAIL, Param<int>::read(a)) return x_.code; }
Val Leaf::echo(Val a) { ORIG(L_ECHO, Param<Val>::read(a)) return Val(x_.code); }
std::unique_ptr<Val> Leaf::mo(std::unique_ptr<Val> a) { ORIG(L_MO, Param<std::unique_ptr<Val>>::read(a)) return Codec<std::unique_ptr<Val>>::make(x_.code); }
int Leaf::chain(int a, int b) { ORIG(L_CHAIN, Param<int>::read(a), Param<int>::read(b)) return x_.code; }
int Leaf::scale(int a) const { ORIG(L_SCALE, Param<int>::read(a)) return x_.code; }
int LeafD::fact(int a) { ORIG(L_FACT, Param<int>::read(a)) return x_.code; }
void addLeaf(std::vector<ClassDesc> &all) {
    ClassDesc cd{"Leaf", {}, true, false, false, true, createMock<Leaf>};
    SIM_PLAIN(Leaf, add)
    SIM_PLAIN(Leaf, twice)
    SIM_PLAIN(Leaf, fact)
    SIM_PLAIN(Leaf, name)
    SIM_PLAIN(Leaf, outp)
    SIM_PLAIN(Leaf, fail)
    SIM_PLAIN(Leaf, echo)
    SIM_PLAIN(Leaf, mo)
    SIM_PLAIN(Leaf, chain)
    SIM_PLAIN(Leaf, scale)
    cd.methods[L_OUTP].caps |= CAP_RETSET;
    cd.groups = {{L_ADD, L_TWICE}, {L_FACT, L_NAME, L_CHAIN}, {L_TWICE, L_ADD, L_SCALE, L_FAIL}};
    cd.group = [](MockBox &b, int which, bool spy) {
        fakeit::Mock<Leaf> &m = *static_cast<MockBoxT<Leaf> &>(b).mp;
        using namespace fakeit;
        LibScope l;
        switch (which) {
            case 0: if (spy) fakeit::Spy(Method(m, add), Method(m, twice)); else Fake(Method(m, add), Method(m, twice)); break;
            case 1: if (spy) fakeit::Spy(Method(m, fact), Method(m, name), Method(m, chain)); else Fake(Method(m, fact), Method(m, name), Method(m, chain)); break;
            default: if (spy) fakeit::Spy(Method(m, twice), Method(m, add), Method(m, scale), Method(m, fail)); else Fake(Method(m, twice), Method(m, add), Method(m, scale), Method(m, fail)); break;
        }
    };
    all.push_back(cd);
}
