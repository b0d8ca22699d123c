#include "gen.hpp"
#include <algorithm>

static const int DTOR = 1000;

namespace {
struct Prof {
    int w[O_COUNT] = {0};
    int cls[CL_COUNT] = {0};
    int mocksMin = 1, mocksMax = 2;
    int spyPct = 0;
    int dtorPct = 0;          // stubbings and patterns that name the destructor
    int alwaysPct = 40;
    int nestPct = 10;         // actions with a script
    int throwPct = 10;
    int setOutPct = 10;
    int callFaultPct = 0;
    int faultMask = 0;        // by fault kind
    int unwindPct = 0;
    int interruptPct = 0, copyFaultPct = 0, holdPct = 0, boolPct = 15, copiesPct = 10;
    int verifyFaultPct = 0;
    int multiMockPct = 0;
    int listenerThrowPct = 0;
    int condPct = 60;         // stubbings with a condition
    int lenMin = 4, lenMax = 26;
    int reps = 1, envs = 1;
    bool joint = true;
    int longPct = 4;          // occasionally a much longer history
    int manyPct = 4;
    int bulkPct = 2;          // large quantities and long runs of equal calls
    int hugePerLakh = 0;      // of 100000 runs: one run of more calls than fit 16 bits
    int condCallPct = 5;      // conditions that call a mocked method
    bool keepCond = false;    // built-in conditions are what the runs are about
    int drawnPct = 0;         // mocks of classes drawn from the seed
    int crowdPct = 3;         // five to eight mocks
    int refusePct = 2;        // verifications with a number that makes no sense
    int againPct = 8;         // patterns verified more than once
};

Prof profile(const std::string &id) {
    Prof p;
    auto W = [&](int k, int v) { p.w[k] = v; };
    // what every workload has
    W(O_STUB, 22); W(O_GROUP, 1); W(O_CALL, 40); W(O_AUDIT, 3); W(O_SETCELL, 3);
    p.cls[CL_SVC] = 60; p.cls[CL_MANY] = 15; p.cls[CL_LEAF] = 10; p.cls[CL_D2] = 5; p.cls[CL_D4] = 5; p.cls[CL_QUAL] = 8; p.cls[CL_COND] = 7; p.cls[CL_WIDE] = 5;
    if (id == "C01") { W(O_GROUP, 2); p.condCallPct = 8; W(O_VERIFY, 4); W(O_VNOI, 1); W(O_NEWMOCK, 2); W(O_DELMOCK, 1); p.condPct = 75; p.alwaysPct = 60; p.mocksMax = 3; p.unwindPct = 5; p.nestPct = 12; p.lenMax = 34; }
    if (id == "C02") { p.hugePerLakh = 12; p.bulkPct = 6; p.condCallPct = 8; p.alwaysPct = 10; p.nestPct = 30; p.throwPct = 25; p.condPct = 30; W(O_VERIFY, 2); W(O_CALL, 60); p.lenMax = 34; p.unwindPct = 4; p.mocksMax = 2; p.interruptPct = 3; }
    if (id == "C03") { p.hugePerLakh = 12; p.condCallPct = 15; p.bulkPct = 3; W(O_AUDIT, 12); W(O_VERIFY, 6); W(O_VNOI, 2); W(O_CLEAR, 1); p.mocksMax = 4; p.nestPct = 25; p.throwPct = 25; p.unwindPct = 5; p.longPct = 10; W(O_NEWMOCK, 2); W(O_DELMOCK, 1); p.multiMockPct = 20; }
    if (id == "C04") { p.crowdPct = 6; p.refusePct = 4; p.againPct = 15; p.hugePerLakh = 12; p.bulkPct = 4; W(O_VERIFY, 40); W(O_AUDIT, 0); W(O_VNOI, 1); p.multiMockPct = 35; p.mocksMax = 3; p.alwaysPct = 85; p.condPct = 15; p.nestPct = 8; p.longPct = 8; }
    if (id == "C05") { p.crowdPct = 8; p.againPct = 15; p.hugePerLakh = 12; p.bulkPct = 3; W(O_VERIFY, 30); W(O_VNOI, 22); W(O_AUDIT, 8); p.multiMockPct = 35; p.mocksMax = 3; p.alwaysPct = 85; p.condPct = 15; p.nestPct = 8; W(O_CLEAR, 1); p.longPct = 8; }
    if (id == "C06") { W(O_VERIFY, 22); W(O_VNOI, 10); W(O_STUB, 30); p.interruptPct = 25; p.copyFaultPct = 10; p.holdPct = 25; p.boolPct = 40; p.copiesPct = 25; p.mocksMax = 2; W(O_LISTEN, 1); W(O_AUDIT, 6); p.multiMockPct = 15; p.spyPct = 20; }
    if (id == "C07") { p.bulkPct = 3; W(O_VERIFY, 25); W(O_VNOI, 12); W(O_LISTEN, 7); W(O_ADAPTER, 5); W(O_FORMATTER, 4); p.mocksMax = 3; p.multiMockPct = 30; p.alwaysPct = 50; p.listenerThrowPct = 5; p.nestPct = 15; p.boolPct = 10; p.dtorPct = 4; p.cls[CL_D2] = 15; W(O_DESTROY, 2); p.interruptPct = 3; }
    if (id == "C08") { W(O_RESET, 9); W(O_CLEAR, 9); W(O_VERIFY, 8); W(O_VNOI, 4); W(O_MEMBER, 8); W(O_DESTROY, 4); p.dtorPct = 12; p.spyPct = 40; p.cls[CL_LEAF] = 25; W(O_OBJCALL, 6); p.mocksMax = 3; W(O_AUDIT, 8); p.cls[CL_D1] = 6; p.cls[CL_D3] = 6; p.multiMockPct = 10; W(O_LISTEN, 1); p.nestPct = 12; }
    if (id == "C09") { p.dtorPct = 4; W(O_DESTROY, 2); W(O_GROUP, 3); p.cls[CL_QUAL] = 0; p.cls[CL_COND] = 0; p.cls[CL_WIDE] = 0; p.cls[CL_SVC] = 4; p.cls[CL_MANY] = 0; p.cls[CL_LEAF] = 100; p.cls[CL_D2] = 0; p.cls[CL_D4] = 0; p.spyPct = 92; W(O_OBJCALL, 25); W(O_RESET, 4); W(O_NEWMOCK, 5); W(O_DELMOCK, 4); W(O_VERIFY, 5); W(O_CLEAR, 2); p.mocksMax = 3; p.nestPct = 20; p.throwPct = 20; p.unwindPct = 5; W(O_AUDIT, 8); W(O_NAME, 2); p.lenMax = 34; }
    if (id == "C10") { p.crowdPct = 12; p.condCallPct = 8; p.mocksMin = 2; p.mocksMax = 4; W(O_VERIFY, 12); W(O_VNOI, 8); W(O_RESET, 4); W(O_CLEAR, 4); W(O_NEWMOCK, 5); W(O_DELMOCK, 4); W(O_MEMBER, 4); W(O_DESTROY, 3); p.dtorPct = 6; p.spyPct = 30; p.cls[CL_LEAF] = 25; p.cls[CL_D1] = 5; p.cls[CL_D3] = 5; p.joint = false; W(O_AUDIT, 6); W(O_OBJCALL, 4); p.nestPct = 15; p.lenMax = 40; }
    if (id == "C11") { p.crowdPct = 0; W(O_VERIFY, 14); W(O_VNOI, 6); W(O_RESET, 2); W(O_CLEAR, 2); W(O_NEWMOCK, 3); W(O_DELMOCK, 2); W(O_MEMBER, 2); W(O_DESTROY, 2); W(O_OBJCALL, 3); W(O_NAME, 2); p.dtorPct = 4; p.spyPct = 35; p.cls[CL_LEAF] = 20; p.cls[CL_D1] = 5; p.mocksMax = 2; p.multiMockPct = 25; p.nestPct = 10; p.throwPct = 15; p.lenMin = 2; p.lenMax = 12; p.longPct = 1; p.bulkPct = 0; p.callFaultPct = 3; p.faultMask = 1 << F_COPY | 1 << F_CMP | 1 << F_PRED; p.interruptPct = 4; p.copyFaultPct = 3; p.holdPct = 4; p.unwindPct = 3; W(O_AUDIT, 4); p.condCallPct = 3; }
    if (id == "C12") { W(O_VERIFY, 12); W(O_VNOI, 6); W(O_RESET, 5); W(O_CLEAR, 5); W(O_MEMBER, 5); W(O_DESTROY, 5); W(O_NEWMOCK, 4); W(O_DELMOCK, 3); W(O_SETCELL, 3); p.dtorPct = 8; p.spyPct = 35; p.cls[CL_LEAF] = 20; p.cls[CL_D1] = 5; p.cls[CL_D3] = 5; p.callFaultPct = 8; p.faultMask = 1 << F_COPY | 1 << F_CMP | 1 << F_PRED; p.interruptPct = 12; p.copyFaultPct = 8; p.holdPct = 10; p.verifyFaultPct = 6; p.reps = 3; p.mocksMax = 3; p.nestPct = 15; p.throwPct = 20; p.lenMax = 22; W(O_LISTEN, 1); W(O_ADAPTER, 1); p.multiMockPct = 20; W(O_OBJCALL, 4); W(O_NAME, 3); }
    if (id == "C13") { p.crowdPct = 10; W(O_VERIFY, 22); W(O_VNOI, 10); W(O_MEMBER, 5); W(O_RESET, 2); W(O_CLEAR, 2); W(O_DESTROY, 3); W(O_NEWMOCK, 2); W(O_DELMOCK, 1); p.mocksMin = 1; p.mocksMax = 4; p.multiMockPct = 50; p.spyPct = 30; p.cls[CL_LEAF] = 20; p.dtorPct = 6; p.envs = 4; p.alwaysPct = 60; W(O_LISTEN, 3); W(O_ADAPTER, 2); W(O_OBJCALL, 4); p.lenMax = 30; p.longPct = 6; p.cls[CL_D1] = 5; p.cls[CL_D3] = 5; }
    if (id == "C14") { p.spyPct = 50; p.cls[CL_SVC] = 20; p.cls[CL_MANY] = 10; p.cls[CL_LEAF] = 15; p.cls[CL_D1] = 20; p.cls[CL_D2] = 30; p.cls[CL_D3] = 20; p.cls[CL_D4] = 20; p.dtorPct = 55; W(O_DESTROY, 40); W(O_CALL, 14); W(O_VERIFY, 8); W(O_VNOI, 4); W(O_RESET, 5); W(O_CLEAR, 3); W(O_NAME, 3); p.mocksMax = 3; p.nestPct = 25; W(O_AUDIT, 6); p.alwaysPct = 30; W(O_DELMOCK, 1); W(O_NEWMOCK, 2); p.reps = 3; }
    if (id == "C15") { p.cls[CL_WIDE] = 15; p.cls[CL_SVC] = 100; p.cls[CL_MANY] = 0; W(O_SETCELL, 18); W(O_VERIFY, 12); W(O_AUDIT, 8); p.setOutPct = 45; p.spyPct = 40; p.cls[CL_LEAF] = 30; p.nestPct = 20; W(O_OBJCALL, 4); p.mocksMax = 2; p.alwaysPct = 55; }
    if (id == "C16") { p.condCallPct = 8; p.callFaultPct = 28; p.faultMask = 1 << F_COPY | 1 << F_CMP | 1 << F_PRED; p.throwPct = 35; p.unwindPct = 10; p.verifyFaultPct = 35; W(O_VERIFY, 16); W(O_VNOI, 4); p.condPct = 80; W(O_LISTEN, 2); p.listenerThrowPct = 40; p.spyPct = 35; p.cls[CL_LEAF] = 20; p.mocksMax = 2; p.nestPct = 15; W(O_AUDIT, 8); p.interruptPct = 5; W(O_DESTROY, 3); p.dtorPct = 5; W(O_OBJCALL, 5); p.alwaysPct = 30; W(O_ADAPTER, 1); }
    if (id == "C17") { p.callFaultPct = 55; p.faultMask = 1 << F_ALLOC; p.spyPct = 45; p.cls[CL_LEAF] = 40; W(O_OBJCALL, 8); W(O_AUDIT, 6); W(O_VERIFY, 5); p.mocksMax = 2; p.nestPct = 15; p.reps = 3; p.lenMax = 20; p.throwPct = 15; W(O_CLEAR, 1); W(O_RESET, 1); }
    if (id == "C18") { p.againPct = 12; W(O_VERIFY, 25); W(O_VNOI, 10); W(O_NAME, 20); W(O_OBJCALL, 10); p.spyPct = 50; p.cls[CL_LEAF] = 35; p.cls[CL_D1] = 5; p.dtorPct = 8; W(O_DESTROY, 5); p.mocksMax = 2; p.boolPct = 30; p.interruptPct = 6; W(O_RESET, 2); W(O_CLEAR, 2); p.holdPct = 8; p.nestPct = 15; W(O_AUDIT, 6); p.verifyFaultPct = 5; p.multiMockPct = 20; W(O_MEMBER, 2); }
    if (id == "C19") { p.bulkPct = 8; W(O_VERIFY, 40); W(O_VNOI, 15); W(O_DESTROY, 2); p.dtorPct = 4; W(O_LISTEN, 1); W(O_ADAPTER, 1); W(O_FORMATTER, 1); W(O_CLEAR, 1); p.cls[CL_WIDE] = 10; p.cls[CL_COND] = 50; p.cls[CL_D2] = 8; p.mocksMax = 3; p.multiMockPct = 30; p.alwaysPct = 80; p.condPct = 25; p.nestPct = 8; p.boolPct = 3; W(O_SETCELL, 6); p.longPct = 6; }
    if (id == "C21") { p.crowdPct = 0; p.drawnPct = 96; p.manyPct = 0; W(O_STUB, 30); W(O_VERIFY, 12); W(O_VNOI, 5); W(O_RESET, 3); W(O_CLEAR, 1); W(O_MEMBER, 8); W(O_DESTROY, 8); W(O_REAL, 4); W(O_NAME, 3); p.dtorPct = 10; p.mocksMax = 2; p.alwaysPct = 70; p.condPct = 25; p.nestPct = 5; p.throwPct = 5; p.multiMockPct = 20; p.lenMax = 30; W(O_NEWMOCK, 2); W(O_DELMOCK, 1); p.bulkPct = 0; p.longPct = 2; W(O_AUDIT, 2); }
    if (id == "C20") { p.keepCond = true; W(O_STUB, 30); W(O_VERIFY, 25); W(O_VNOI, 2); W(O_SETCELL, 6); p.cls[CL_WIDE] = 12; p.cls[CL_COND] = 60; p.cls[CL_MANY] = 4; p.mocksMax = 2; p.alwaysPct = 85; p.condPct = 95; p.condCallPct = 0; p.nestPct = 4; p.throwPct = 3; p.multiMockPct = 10; p.lenMax = 30; W(O_AUDIT, 0); }
    if (id == "C23" || id == "C24") { W(O_VERIFY, 18); W(O_VNOI, 6); W(O_RESET, 3); W(O_CLEAR, 3); W(O_MEMBER, 4); W(O_DESTROY, 4); W(O_NEWMOCK, 3); W(O_DELMOCK, 2); W(O_OBJCALL, 5); W(O_NAME, 4); W(O_LISTEN, 2); W(O_ADAPTER, 2); W(O_FORMATTER, 1); W(O_AUDIT, 5); p.dtorPct = 6; p.spyPct = 40; p.cls[CL_LEAF] = 25; p.cls[CL_COND] = 15; p.cls[CL_D1] = 5; p.cls[CL_D3] = 5; p.callFaultPct = 8; p.faultMask = 1 << F_COPY | 1 << F_CMP | 1 << F_PRED | 1 << F_ALLOC; p.interruptPct = 6; p.copyFaultPct = 4; p.holdPct = 5; p.verifyFaultPct = 5; p.mocksMax = 3; p.nestPct = 15; p.throwPct = 20; p.multiMockPct = 25; p.setOutPct = 20; p.listenerThrowPct = 5; }
    return p;
}

int zeroOrMore(Rng &r, int pct) { return r.chance(pct) ? 1 : 0; }

struct Gen {
    Prof p;
    Rng r;
    bool swarmOff[O_COUNT] = {false};
    int vals = 4;
    int focusN = 3;
    struct Slot { bool used = false; int cls = 0; bool spy = false; std::vector<int> focus; bool dtor = false; } slot[8];
    int shapeMask = ~0, formMask = ~0, styleMask = ~0;
    bool bulk = false, hugeRun = false, crowd = false;
    int verifyBias = 50; // chance that a pattern has no argument condition

    Gen(const Prof &pr, uint64_t seed) : p(pr), r(seed) {}

    int pick(const int *w, int n) {
        int t = 0;
        for (int i = 0; i < n; i++) t += w[i];
        if (!t) return 0;
        int x = r.below(t);
        for (int i = 0; i < n; i++) { if (x < w[i]) return i; x -= w[i]; }
        return 0;
    }
    int val() { return r.below(vals); }
    int lastMany = 0;
    int many() { static const int b[] = {127, 255, 60, 300}; return lastMany && r.chance(30) ? lastMany : lastMany = b[r.below(4)] + r.range(-3, 6); }
    int anySlot() {
        int u[8], n = 0;
        for (int i = 0; i < 8; i++) if (slot[i].used) u[n++] = i;
        return n ? u[r.below(n)] : 0;
    }
    int methodFor(int s) {
        Slot &sl = slot[s];
        if (sl.focus.empty() || r.chance(6)) return r.below((int) classes()[sl.cls].methods.size());
        return sl.focus[r.below((int) sl.focus.size())];
    }
    Op newMock(int s) {
        Slot &sl = slot[s];
        sl.used = true;
        sl.cls = pick(p.cls, CL_COUNT);
        if (r.chance(p.drawnPct) && (int) classes().size() > CL_COUNT) sl.cls = drawnClass();
        sl.spy = sl.cls == CL_LEAF && r.chance(p.spyPct);
        int n = (int) classes()[sl.cls].methods.size();
        sl.focus.clear();
        int k = 1 + r.below(focusN);
        for (int i = 0; i < k; i++) sl.focus.push_back(r.below(n));
        return Op(O_NEWMOCK, {s, sl.cls, sl.spy ? 1 + r.below(NOBJ) : 0});
    }
    void matcher(Op &o, int condPct) {
        if (!r.chance(condPct)) return;
        int sh;
        int guard = 0;
        do sh = 1 + r.below(M_COUNT - 1); while (!(shapeMask >> sh & 1) && ++guard < 20);
        o.set(3, sh);
        o.set(4, r.below(120));
        o.set(5, r.below(12));
        o.set(6, r.below(32));
        if (r.chance(12)) o.set(13, 1 + r.below(MAXARGS - 3));
        o.set(7, val()); o.set(8, val()); o.set(9, val());
    }
    std::vector<Op> script(int depth) {
        std::vector<Op> v;
        int n = 1 + r.below(3);
        for (int i = 0; i < n; i++) {
            int k = r.below(100);
            if (k < 55) v.push_back(call(false));
            else if (k < 70 && depth < 2) v.push_back(stub(depth + 1));
            else if (k < 80) v.push_back(p.w[O_VERIFY] ? verify(depth + 1) : call(false));
            else if (k < 84 && p.w[O_CLEAR]) v.push_back(Op(O_CLEAR, {anySlot()}));
            else if (k < 90) v.push_back(Op(O_SETCELL, {r.below(3), r.below(NCELL), val()}));
            else if (k < 93 && p.w[O_AUDIT]) v.push_back(Op(O_AUDIT));
            else if (k < 96 && p.w[O_DESTROY]) v.push_back(Op(O_DESTROY, {anySlot(), r.below(4)}));
            else if (k < 98 && p.w[O_NAME]) v.push_back(name());
            else v.push_back(call(false));
        }
        return v;
    }
    Op act(int depth, bool last) {
        Op a(O_ACT);
        int form;
        int guard = 0;
        do {
            if (last) form = A_ALWRET + r.below(A_FORMS - A_ALWRET); else form = r.below(A_LASTFINITE + 1);
            bool th = form == A_THROW || form == A_THROWQ || form == A_THROWM || form == A_ALWTHROW;
            if (th && !r.chance(p.throwPct * 2)) continue;
            if (formMask >> form & 1) break;
        } while (++guard < 20);
        a.set(0, form);
        a.set(1, r.chance(12) ? 0 : 1 + r.below(3));
        if (r.chance(bulk ? 25 : 1)) a.set(1, bulk ? many() : 5 + r.below(20));
        a.set(3, r.below(EX_TYPES));
        int fl = 0;
        if (r.chance(p.throwPct)) fl |= 1;
        if (r.chance(p.setOutPct)) fl |= 2;
        a.set(4, fl);
        a.set(5, r.below(10));
        a.set(6, r.below(16));
        if (depth < 3 && r.chance(p.nestPct)) a.s = script(depth);
        return a;
    }
    Op stub(int depth) {
        int s = anySlot();
        Op o(O_STUB, {s, methodFor(s)});
        if (r.chance(p.dtorPct) && classes()[slot[s].cls].hasDtor) o.set(1, DTOR);
        else if (r.chance(p.dtorPct / 4) && !classes()[slot[s].cls].hasDtor) { o.set(1, DTOR); return o; }
        int style;
        int guard = 0;
        do {
            style = r.below(100);
            style = style < 40 ? ST_NAMED : style < 60 ? ST_TEMP : style < 60 + p.copiesPct ? ST_COPIES : style < 88 ? ST_FAKE + r.below(3) : ST_NAMED;
            if (slot[s].spy && r.chance(55)) style = r.chance(80) ? ST_SPY : ST_SPYWV;
        } while (!(styleMask >> style & 1) && ++guard < 20);
        o.set(2, style);
        matcher(o, p.condPct);
        bool always = r.chance(p.alwaysPct);
        int n = always ? (r.chance(75) ? 0 : 1) : 1 + r.below(4);
        for (int i = 0; i < n; i++) o.s.push_back(act(depth, false));
        if (always) o.s.push_back(act(depth, true));
        if (r.chance(p.interruptPct)) o.set(10, 1 + r.below((int) o.s.size() + 1));
        if (r.chance(p.copyFaultPct)) o.set(11, 1 + r.below(8));
        o.set(12, r.below(2));
        if (r.chance(p.condCallPct)) { int q = anySlot(); o.s.push_back(Op(O_COND, {q, methodFor(q), val(), val(), val()})); if (o.P(3) != M_MATCHING && o.P(3) != M_CALLPRED) { o.set(3, M_MATCHING); o.set(6, r.chance(50) ? 0 : r.below(32)); } }
        if (depth < 2 && r.chance(p.holdPct)) o.s.push_back(Op(O_HOLD, {}, script(depth + 1)));
        return o;
    }
    Op call(bool top) {
        int s = anySlot();
        Op o(O_CALL, {s, methodFor(s), val(), val(), val()});
        if (slot[s].cls == CL_WIDE ? r.chance(30) : r.chance(3)) o.set(5, 1 + r.below(MAXARGS - 3));
        if (slot[s].spy && r.chance(30)) { o.k = O_OBJCALL; o.set(0, r.below(NOBJ)); }
        if (r.chance(top ? p.callFaultPct : p.callFaultPct / 3)) {
            int k, guard = 0;
            do k = 1 + r.below(F_COUNT - 1); while (!(p.faultMask >> k & 1) && ++guard < 50);
            o.set(7, k);
            o.set(8, r.below(14));
        }
        if (top && r.chance(p.unwindPct)) o.set(9, 1);
        if (top && bulk && r.chance(12)) o.set(10, many());
        return o;
    }
    Op leaf(int only) {
        int s = only >= 0 ? only : anySlot();
        Op l(O_LEAF, {s, methodFor(s)});
        if (r.chance(p.dtorPct) && classes()[slot[s].cls].hasDtor) l.set(1, DTOR);
        matcher(l, 100 - verifyBias);
        return l;
    }
    Op verify(int depth) {
        Op o(O_VERIFY);
        int only = r.chance(p.multiMockPct) ? -1 : anySlot();
        int np = r.chance(70) ? 1 : r.chance(70) ? 2 : 3 + r.below(crowd ? 4 : 2);
        for (int i = 0; i < np; i++) {
            Op q(O_SEQ, {r.chance(42) ? 0 : 1 + r.below(9), r.below(3)});
            if (q.p[0] == 8) for (int k = 2 + r.below(9); k > 0; k--) q.p.push_back(1 + r.below(8) + 8 * r.below(3));
            if (bulk && r.chance(15)) q.set(1, many());
            int nl = 1 + r.below(3);
            for (int k = 0; k < nl; k++) q.s.push_back(leaf(only));
            o.s.push_back(q);
        }
        o.set(0, r.chance(50) ? 0 : r.below(5));
        o.set(1, r.below(10));
        o.set(2, r.chance(60) ? 0 : r.range(-1, 2));
        o.set(3, r.chance(p.boolPct) ? 1 + r.below(4) : 0);
        if (r.chance(p.interruptPct)) o.set(4, 1);
        o.set(5, only >= 0 && p.multiMockPct == 0 ? 1 << only : r.below(crowd ? 256 : 16));
        o.set(6, r.below(2));
        if (r.chance(p.verifyFaultPct)) { o.set(7, 1 + r.below(3)); o.set(8, r.below(6)); }
        o.set(9, r.below(2));
        o.set(10, r.below(2));
        if (r.chance(p.refusePct)) { o.set(11, 1 + r.below(6)); o.set(12, r.below(4)); }
        if (r.chance(p.againPct)) {
            int n = r.chance(75) ? 1 : 2;
            for (int i = 0; i < n; i++) o.s.push_back(Op(O_AGAIN, {r.below(10), r.chance(60) ? 0 : r.range(-1, 2), r.chance(p.boolPct) ? 1 + r.below(4) : 0, r.below(4)}, depth < 2 && r.chance(60) ? script(depth + 1) : std::vector<Op>()));
        }
        if (depth < 2 && r.chance(p.holdPct)) o.s.push_back(Op(O_HOLD, {}, script(depth + 1)));
        return o;
    }
    Op vnoi(int depth) {
        Op o(O_VNOI);
        int only = p.multiMockPct == 0 || r.chance(60) ? anySlot() : -1;
        o.set(0, only >= 0 ? 1 << only : r.below(crowd ? 256 : 16));
        if (r.chance(25)) { if (r.chance(60)) o.set(0, 0); o.s.push_back(leaf(only)); if (r.chance(30)) o.s.push_back(leaf(only)); }
        o.set(1, r.chance(p.boolPct * 2) ? 1 + r.below(2) : 0);
        if (r.chance(p.interruptPct)) o.set(2, 1);
        if (depth < 2 && r.chance(p.holdPct)) o.s.push_back(Op(O_HOLD, {}, script(depth + 1)));
        return o;
    }
    int drawnClass() {
        int drawn = (int) classes().size() - CL_COUNT - GEN_PLAIN;
        return drawn > 0 ? (int) classes().size() - 1 - (r.chance(55) ? r.below(drawn) : (int) r.chance(30)) : 0;
    }
    Op real() {
        Op o(O_REAL, {drawnClass()});
        int n = (int) classes()[o.P(0)].methods.size(), k = 1 + r.below(6), len = 2 + r.below(12);
        std::vector<int> focus;
        for (int i = 0; i < k; i++) focus.push_back(r.below(n));
        if (r.chance(50)) for (int i = 0; i < k; i++) focus.push_back(std::min(n - 1, focus[i] + 1));
        o.s.push_back(Op(O_NEWMOCK));
        for (int i = 0; i < len; i++) {
            int m = focus[r.below((int) focus.size())], x = r.below(100);
            if (x < 45) o.s.push_back(Op(O_CALL, {0, m, val(), val()}));
            else if (x < 85) o.s.push_back(Op(O_STUB, {0, m, r.below(2), r.below(2)}));
            else if (x < 90) o.s.push_back(Op(O_RESET));
            else if (x < 95) o.s.push_back(Op(O_DELMOCK));
            else o.s.push_back(Op(O_NEWMOCK));
        }
        return o;
    }
    Op name() { Op o = leaf(-1); o.k = O_NAME; o.set(2, r.below(2)); return o; }

    Trace trace() {
        // swarm: each run leaves some features out and stresses others
        for (int k = 0; k < O_COUNT; k++) {
            if (!p.w[k] || k == O_CALL || k == O_STUB) continue;
            int x = r.below(100);
            if (x < 22) { p.w[k] = 0; swarmOff[k] = true; } else if (x > 88) p.w[k] *= 3;
        }
        if (r.chance(40)) p.nestPct = 0;
        if (r.chance(25)) p.throwPct = 0;
        if (r.chance(30)) { shapeMask = (int) r.next() | 1; }
        if (r.chance(40)) { formMask = (int) r.next(); }
        if (r.chance(30)) styleMask = (int) r.next() | 1;
        vals = r.chance(50) ? 2 : r.chance(60) ? 3 : 8;
        focusN = r.chance(35) ? 1 : r.chance(60) ? 3 : 6;
        verifyBias = r.chance(50) ? 80 : r.chance(50) ? 40 : 10;
        if (r.chance(30) && !p.keepCond) p.condPct = 0;
        if (p.drawnPct && r.chance(12)) focusN = 60;
        if (p.keepCond) { shapeMask &= ~(1 << M_MATCHING | 1 << M_CALLPRED) | ((int) r.next() & (int) r.next()); verifyBias = r.chance(60) ? 10 : 40; }
        if (r.chance(p.manyPct)) { for (int i = 0; i < CL_COUNT; i++) p.cls[i] = 0; p.cls[CL_MANY] = 1; focusN = 40; }
        bulk = r.chance(p.bulkPct);
        crowd = p.mocksMax > 1 && r.chance(p.crowdPct);
        if (crowd) { p.mocksMin = 5; p.mocksMax = 8; if (p.multiMockPct) p.multiMockPct = 70; }
        bool heavy = r.chance(p.longPct);
        int len = r.range(p.lenMin, p.lenMax);
        if (r.chance(30)) len = r.range(p.lenMin, p.lenMin + 5);
        if (heavy) len = 60 + r.below(90);
        bool huge = r.below(100000) < p.hugePerLakh;
        hugeRun = huge;
        if (huge) { len = 8; bulk = false; p.nestPct = p.spyPct = 0; }
        Trace t;
        int nm = r.range(p.mocksMin, p.mocksMax);
        for (int i = 0; i < nm; i++) t.push_back(newMock(i));
        // most runs start with some stubbings
        int ns = r.below(4);
        for (int i = 0; i < ns; i++) t.push_back(stub(0));
        for (int i = 0; i < len; i++) {
            if (huge && i == 2) { Op o = call(true); o.k = O_CALL; o.set(7, 0); o.set(9, 0); o.set(10, r.chance(70) ? 65520 + r.below(30) : 32750 + r.below(30)); Op st(O_STUB, {o.P(0), o.P(1)}); st.s.push_back(act(9, true)); t.push_back(st); t.push_back(o); }
            int k = pick(p.w, O_COUNT);
            switch (k) {
                case O_STUB: t.push_back(stub(0)); break;
                case O_REAL: t.push_back(real()); break;
                case O_GROUP: t.push_back(Op(O_GROUP, {anySlot(), r.below(3), r.below(2)})); break;
                case O_CALL: t.push_back(call(true)); break;
                case O_OBJCALL: t.push_back(Op(O_OBJCALL, {r.below(NOBJ), r.below(L_METHODS), val(), val(), val()})); break;
                case O_VERIFY: t.push_back(verify(0)); break;
                case O_VNOI: t.push_back(vnoi(0)); break;
                case O_RESET: t.push_back(Op(O_RESET, {anySlot()})); break;
                case O_CLEAR: t.push_back(Op(O_CLEAR, {anySlot()})); break;
                case O_SETCELL: t.push_back(Op(O_SETCELL, {r.below(3), r.below(NCELL), val()})); break;
                case O_MEMBER: t.push_back(Op(O_MEMBER, {anySlot(), r.below(3), r.below(10)})); break;
                case O_DESTROY: t.push_back(Op(O_DESTROY, {anySlot(), r.below(4)})); break;
                case O_LISTEN: t.push_back(Op(O_LISTEN, {zeroOrMore(r, 15), zeroOrMore(r, p.listenerThrowPct), r.chance(10) ? 3 + r.below(8) : 0})); break;
                case O_ADAPTER: t.push_back(Op(O_ADAPTER, {r.below(3)})); break;
                case O_FORMATTER: t.push_back(Op(O_FORMATTER, {r.below(2)})); break;
                case O_AUDIT: t.push_back(Op(O_AUDIT)); break;
                case O_NAME: t.push_back(name()); break;
                case O_NEWMOCK: { int s = r.below(p.mocksMax); bool was = slot[s].used; Slot old = slot[s]; Op o = newMock(s); if (was && r.chance(70)) { slot[s] = old; o = Op(O_NEWMOCK, {s, old.cls, old.spy ? 1 + r.below(NOBJ) : 0}); } t.push_back(o); break; }
                case O_DELMOCK: { int s = anySlot(); t.push_back(Op(O_DELMOCK, {s})); if (r.chance(60)) t.push_back(Op(O_NEWMOCK, {s, slot[s].cls, slot[s].spy ? 1 + r.below(NOBJ) : 0})); break; }
                default: break;
            }
        }
        return t;
    }
};
}

bool knownProperty(const std::string &id) { Prof p = profile(id); (void) p; return id.size() == 3 && id[0] == 'C' && ((id >= "C01" && id <= "C21") || id == "C23" || id == "C24"); }

MemEnv envNumber(uint64_t seed, int n) {
    MemEnv e;
    Rng r(mix64(seed + 77) + (uint64_t) n * 1000003);
    if (n == 0) { e.placement = PL_ASC; e.fill = FM_ZERO; }
    else if (n == 1) { e.placement = PL_DESC; e.fill = FM_CD; }
    else { e.placement = r.below(PL_COUNT); e.fill = r.below(FM_COUNT); }
    e.seed = r.next();
    return e;
}

Plan generate(const std::string &prop, uint64_t seed, uint64_t index) {
    uint64_t h = 0;
    for (char c : prop) h = h * 131 + (unsigned char) c;
    uint64_t s = mix64(mix64(seed) + h * 0x9e3779b97f4a7c15ull + index * 0xd1342543de82ef95ull);
    Prof p = profile(prop);
    Gen g(p, s);
    Plan pl;
    pl.t = g.trace();
    Rng r(s ^ 0xabcdef);
    if (prop == "C11") { // a trace for each thread; where they are interrupted is decided once their length is known
        int n = r.chance(65) ? 2 : 3;
        bool early = r.chance(25);
        Trace all;
        bool alike = r.chance(35);
        for (int i = 0; i < n; i++) {
            Trace t = pl.t;
            if (i && !alike) { Gen other(p, mix64(s + (uint64_t) i)); t = other.trace(); }
            all.push_back(Op(O_THREAD, {0, early}, t));
        }
        int nl = r.chance(60) ? 0 : 1 + r.below(2);
        for (int i = 0; i < nl; i++) all.push_back(Op(O_LISTEN));
        if (r.chance(50)) all.push_back(Op(O_ADAPTER, {1}));
        pl.t = all;
    }
    pl.env = envNumber(s, 2 + r.below(1000));
    // long runs only fit when memory is reused; guard pages cost far more than the others
    pl.env.placement = g.hugeRun ? (int) PL_LIFO : r.chance(prop == "C12" || prop == "C14" ? 15 : 4) ? (int) PL_GUARD : r.below(PL_GUARD);
    pl.reps = p.reps;
    pl.envs = p.envs;
    pl.joint = p.joint;
    if (p.reps > 1 && traceSize(pl.t) > 150) pl.reps = 1;
    return pl;
}

// where the threads of a run hand over to one another, given how many shared accesses each makes when run alone
void addSwitches(Plan &p, uint64_t seed, int threads, const uint64_t (*accesses)[2]) {
    Rng r(mix64(seed ^ 0x517c4));
    if (threads < 2) return;
    int n = r.chance(30) ? 1 + r.below(2) : r.chance(70) ? 2 + r.below(7) : 8 + r.below(33);
    int heapPct = r.chance(50) ? 10 : r.chance(50) ? 50 : 0;
    for (int i = 0; i < n; i++) {
        int t = r.below(threads), c = r.chance(heapPct) ? 1 : 0;
        uint64_t total = accesses[t][c];
        if (!total) continue;
        int at = r.below((int) std::min<uint64_t>(total, 1u << 30)), to = (t + 1 + r.below(threads - 1)) % threads;
        p.t.push_back(Op(O_SWITCH, {t, c, at, to}));
    }
}

// ------------------------------------------------------------------------------------------------ attribution
static bool isCall(int k) { return k == O_CALL || k == O_OBJCALL || k == O_DESTROY; }
static bool isVerify(int k) { return k == O_VERIFY || k == O_VNOI; }

bool ownsDirectly(const std::string &id, int d, int k) {
    bool crash = d == D_CRASH || d == D_HANG;
    if (id == "C01") return d == D_DISPATCH || d == D_UNANSWERED || (crash && (isCall(k) || k == O_STUB));
    if (id == "C02") return d == D_ACTION || d == D_UNANSWERED || (crash && isCall(k));
    if (id == "C03") return d == D_HISTORY || (crash && (isCall(k) || k == O_AUDIT));
    if (id == "C04") return d == D_VERDICT || d == D_SILENT || d == D_UNVERDICT || (crash && k == O_VERIFY);
    if (id == "C05") return d == D_MARK || d == D_UNVERDICT || (crash && isVerify(k));
    if (id == "C06") return d == D_PHRASE;
    if (id == "C07") return d == D_EVENT || d == D_SILENT || d == D_TEXT;
    if (id == "C08") return d == D_MEMBER || (crash && (k == O_RESET || k == O_CLEAR));
    if (id == "C09") return d == D_STATE;
    if (id == "C12") return d == D_MEM || d == D_LEAK || crash;
    if (id == "C13") return d == D_LAYOUT;
    if (id == "C14") return d == D_DTOR;
    if (id == "C15") return d == D_ARGS || d == D_RESULT;
    if (id == "C16") return d == D_EXCEPTION;
    if (id == "C19") return d == D_TEXT;
    return false;
}

bool mayOwnByFeature(const std::string &id, int d, int k) {
    if (id == "C11") return true;
    if (id == "C18") {
        if (d == D_CRASH || d == D_HANG) return isCall(k) || k == O_STUB;
        return d == D_DISPATCH || d == D_ACTION || d == D_RESULT || d == D_ARGS || d == D_HISTORY || d == D_STATE || d == D_MEMBER || d == D_DTOR || d == D_EXCEPTION || d == D_UNANSWERED || (d == D_EVENT && isCall(k));
    }
    if (id == "C21") return d != D_TEXT && d != D_LEAK;
    if (id == "C20") return d != D_TEXT && d != D_LEAK;
    if (id == "C14" && d == D_LEAK) return true;
    if (id == "C16" && (d == D_MEM || d == D_LEAK)) return true;
    return id == "C06" || id == "C08" || id == "C09" || id == "C10" || id == "C14" || id == "C16" || id == "C17";
}

template<class F> static Trace mapOps(const Trace &t, F f) {
    Trace r;
    for (auto &o : t) {
        Op c = o;
        c.s = mapOps(o.s, f);
        if (f(c)) r.push_back(c);
    }
    return r;
}

static int slotOfOp(const Op &o) {
    switch (o.k) {
        case O_NEWMOCK: case O_DELMOCK: case O_STUB: case O_GROUP: case O_CALL: case O_RESET: case O_CLEAR: case O_MEMBER: case O_DESTROY: case O_NAME: case O_LEAF: return ((o.P(0) % 8) + 8) % 8;
        default: return -1;
    }
}

// the same operations on plain classes: methods in the order in which the trace first names them, from the front or the
// back of the table, the destructor before or after them
static Trace onPlainClass(const Trace &t, int cls, bool back) {
    std::map<std::pair<int, int>, int> at;
    int next[9] = {0};
    bool drawn[8] = {false};
    auto plain = [&](int was) { return was < CL_COUNT ? was : CL_COUNT + (classes()[was % (int) classes().size()].hasDtor ? cls : 0); };
    auto method = [&](int s, int was) {
        auto it = at.find({s, was});
        if (it == at.end()) it = at.insert({{s, was}, next[s]++ % 8}).first;
        return back ? 7 - it->second : it->second;
    };
    std::function<void(Trace &)> walk = [&](Trace &ops) {
        for (auto &o : ops) {
            int s = slotOfOp(o);
            if (o.k == O_REAL) {
                o.set(0, plain(o.P(0)));
                next[8] = 0;
                for (auto &c : o.s) if (c.k == O_STUB || c.k == O_CALL) c.set(1, method(8, c.P(1)));
                continue;
            }
            if (o.k == O_NEWMOCK) { drawn[s] = o.P(1) >= CL_COUNT; o.set(1, plain(o.P(1))); }
            if ((o.k == O_STUB || o.k == O_CALL || o.k == O_LEAF || o.k == O_NAME) && o.P(1) != DTOR && drawn[s]) o.set(1, method(s, o.P(1)));
            walk(o.s);
        }
    };
    Trace r = t;
    walk(r);
    return r;
}

bool oneCleanIsEnough(const std::string &id) { return id == "C21"; }

std::vector<Trace> neutralise(const std::string &id, const Trace &t) {
    std::vector<Trace> v;
    if (id == "C11") { // the same operations, one thread's after the other's, all by one thread
        Trace q;
        for (auto &o : t) { if (o.k == O_SWITCH) continue; Op c = o; if (c.k == O_THREAD) c.set(0, 1); q.push_back(c); }
        v.push_back(q);
    }
    if (id == "C06") v.push_back(mapOps(t, [](Op &o) {
        if (o.k == O_STUB) { o.set(10, 0); o.set(11, 0); if (o.P(2) == ST_COPIES) o.set(2, ST_NAMED); }
        if (o.k == O_VERIFY) { o.set(4, 0); o.set(3, 0); }
        if (o.k == O_AGAIN) o.set(2, 0);
        if (o.k == O_VNOI) { o.set(2, 0); o.set(1, 0); }
        return o.k != O_HOLD;
    }));
    if (id == "C08") v.push_back(mapOps(t, [](Op &o) { return o.k != O_RESET && o.k != O_CLEAR; }));
    if (id == "C09") v.push_back(mapOps(t, [](Op &o) { if (o.k == O_NEWMOCK) o.set(2, 0); return true; }));
    if (id == "C10") {
        for (int s = 0; s < 8; s++) v.push_back(mapOps(t, [s](Op &o) {
            int x = slotOfOp(o);
            if (x >= 0 && x != s) return false;
            if (o.k == O_VNOI) o.set(0, o.P(0) & (1 << s));
            if (o.k == O_VERIFY) o.set(5, o.P(5) & (1 << s));
            return true;
        }));
    }
    if (id == "C14") v.push_back(mapOps(t, [](Op &o) { return o.k != O_DESTROY && !((o.k == O_STUB || o.k == O_LEAF || o.k == O_NAME) && o.P(1) == DTOR); }));
    if (id == "C16") v.push_back(mapOps(t, [](Op &o) {
        if (o.k == O_CALL || o.k == O_OBJCALL) { o.set(7, 0); o.set(9, 0); }
        if (o.k == O_VERIFY) o.set(7, 0);
        if (o.k == O_LISTEN) o.set(1, 0);
        if (o.k == O_STUB) { o.set(10, 0); o.set(11, 0); }
        if (o.k == O_ADAPTER && o.P(0) == 2) o.set(0, 1);
        if (o.k == O_ACT) {
            o.set(4, o.P(4) & ~1);
            int f = o.P(0);
            if (f == A_THROW) o.set(0, A_DO); else if (f == A_THROWQ) o.set(0, A_DOQ); else if (f == A_THROWM) o.set(0, A_DOM); else if (f == A_ALWTHROW) o.set(0, A_ALWDO);
        }
        return true;
    }));
    if (id == "C17") v.push_back(mapOps(t, [](Op &o) { if ((o.k == O_CALL || o.k == O_OBJCALL) && o.P(7) == F_ALLOC) o.set(7, 0); return true; }));
    if (id == "C18") v.push_back(mapOps(t, [](Op &o) { return o.k != O_VERIFY && o.k != O_VNOI && o.k != O_NAME; }));
    if (id == "C20") v.push_back(mapOps(t, [](Op &o) { // the same conditions, stated as predicates
        if (o.k != O_STUB && o.k != O_LEAF && o.k != O_NAME) return true;
        int sh = o.P(3);
        if (sh == M_MATCHING || sh == M_CALLPRED || sh <= M_NONE || sh >= M_COUNT) return true;
        o.set(3, sh + AS_PRED);
        o.s = mapOps(o.s, [](Op &c) { return c.k != O_COND; });
        return true;
    }));
    if (id == "C21") for (int c = 1; c < GEN_PLAIN; c++) for (int back = 0; back < 2; back++) v.push_back(onPlainClass(t, c, back));
    return v;
}

bool reached(const std::string &id, const uint64_t *p) {
    if (id == "C01") return p[P_OLDER_STUB] || p[P_UNMATCHED] || p[P_MANYSTUBS];
    if (id == "C02") return p[P_MULTI_ACT] || p[P_QTY] || p[P_EXHAUSTED] || p[P_REENTRANT];
    if (id == "C03") return p[P_NESTED] || p[P_EXC_ACT] || p[P_EXHAUSTED] || p[P_UNMATCHED] || p[P_MOCKS2];
    if (id == "C04") return (p[P_VERIFY_PASS] || p[P_VERIFY_FAIL]) && p[P_ANSWERED];
    if (id == "C05") return p[P_VNOI_FAIL] || p[P_PARTIAL] || p[P_UNVERIFIED] || (p[P_VNOI_PASS] && p[P_VERIFY_PASS]);
    if (id == "C06") return p[P_INTERRUPT_STUB] || p[P_INTERRUPT_VERIFY] || p[P_HELD] || p[P_COPIES] || p[P_VERIFY_BOOL];
    if (id == "C07") return p[P_EVENTS];
    if (id == "C08") return p[P_RESET] || p[P_CLEAR];
    if (id == "C09") return p[P_SPY_CALL] || p[P_SPY_DIRECT] || p[P_SPY_SELFCALL] || p[P_RESTORED];
    if (id == "C10") return p[P_MOCKS2] || p[P_MOCKS3];
    if (id == "C11") return p[P_THREADS] && p[P_ANSWERED];
    if (id == "C12") return p[P_ANSWERED] || p[P_INTERRUPT_STUB];
    if (id == "C13") return p[P_VERIFY_PASS] || p[P_VERIFY_FAIL] || p[P_VNOI_FAIL] || p[P_VNOI_PASS];
    if (id == "C14") return p[P_DESTROY];
    if (id == "C15") return p[P_OUT] || p[P_REFARG] || p[P_MOVEONLY] || p[P_REFRET] || p[P_MUTATED];
    if (id == "C16") return p[P_EXC_ACT] || p[P_FAULT_PRED] || p[P_FAULT_COPY] || p[P_FAULT_CMP] || p[P_FAULT_VERIFY] || p[P_LISTENER_THROW] || p[P_SPY_EXC];
    if (id == "C17") return p[P_FAULT_ALLOC];
    if (id == "C18") return p[P_NAMED_ONLY] || p[P_CALL_AFTER_VERIFY];
    if (id == "C19") return p[P_TEXT] || p[P_TEXT_LONG];
    if (id == "C20") return p[P_CONDITION];
    if (id == "C21") return p[P_DRAWN];
    return p[P_CALL];
}
