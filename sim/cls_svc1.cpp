#include "mocked.hpp"
#include "typed.hpp"
template<> struct Members<Svc> {
    static void stub(fakeit::Mock<Svc> &m, int w, int v) {
        switch (w) { case 0: if (v) m.Stub(&Svc::x, v); else m.Stub(&Svc::x); break; case 1: m.Stub(&Svc::data, v, v + 1, v + 2); break; default: m.Stub(&Svc::val, v); break; }
    }
    static int read(Svc &s, int w) { switch (w) { case 0: return s.x; case 1: return Codec<std::vector<int>>::read(s.data); default: return s.val.code; } }
    static void write(Svc &s, int w, int v) { switch (w) { case 0: s.x = v; break; case 1: s.data.insert(s.data.begin(), v); break; default: s.val = Val(v); break; } }
};
void addSvc(std::vector<ClassDesc> &all) {
    ClassDesc cd{"Svc", {}, true, false, true, false, createMock<Svc>};
    SIM_PLAIN(Svc, i0)
    SIM_PLAIN(Svc, i1)
    SIM_PLAIN(Svc, i2)
    SIM_PLAIN(Svc, v0)
    SIM_PLAIN(Svc, v1)
    SIM_PLAIN(Svc, s1)
    SIM_PLAIN(Svc, s2)
    cd.groups = {{0, 3}, {1, 4, 2}, {5, 0, 6, 2}};
    cd.group = [](MockBox &b, int which, bool) {
        fakeit::Mock<Svc> &m = *static_cast<MockBoxT<Svc> &>(b).mp;
        using namespace fakeit;
        LibScope l;
        switch (which) {
            case 0: Fake(Method(m, i0), Method(m, v0)); break;
            case 1: Fake(Method(m, i1), Method(m, v1), Method(m, i2)); break;
            default: Fake(Method(m, s1), Method(m, i0), Method(m, s2), Method(m, i2)); break;
        }
    };
    addSvc2(cd);
    addSvc3(cd);
    all.push_back(cd);
}
