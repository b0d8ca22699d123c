// Simulation of the bundled framework configurations (C22): one executable per configuration, the framework a stand-in
// that records its failures.  Small workloads on three mocks; what counts is what reaches the framework.
#include "frameworks/frameworks.hpp"
#include "fakeit.hpp"
#include "gen.hpp"
#include <cstdarg>
#include <unistd.h>

#define CONF_NAME_(X) #X
#define CONF_NAME(X) CONF_NAME_(X)

namespace {
struct Three {
    virtual int num(int) = 0;
    virtual void text(std::string) = 0;
    virtual int both(int, std::string) = 0;
};
const char *methodName(int k) { return k == 0 ? "num" : k == 1 ? "text" : "both"; }
std::string str(int v) { return "s" + std::to_string(v); }
std::string argsText(int method, int v) { return method == 0 ? "(" + std::to_string(v) + ")" : method == 1 ? "(" + str(v) + ")" : "(" + std::to_string(v) + ", " + str(v) + ")"; }

enum { UNEXPECTED, SEQUENCE, NOMORE };
enum Left { RETURNED, STOPPED, LIBRARY, USER, OWN, LISTENER, OTHER };
const char *leftName(int l) { static const char *n[] = {"returns", "is left by the framework's exception", "is left by the library's unexpected-call exception", "is left by the action's exception", "is left by the custom adapter's exception", "is left by the listener's exception", "is left by another exception"}; return n[l]; }
struct OwnAdapterEx {};
struct ListenerThrows {};

std::vector<Failure> g_failures;
Shared *g_sh;
bool g_verbose;
int g_op;
uint64_t g_hash;

void note(const std::string &s) {
    for (unsigned char c : s) g_hash = hashCombine(g_hash, c);
    if (!g_verbose || g_sh->loglen + s.size() + 2 >= sizeof g_sh->log) return;
    memcpy(g_sh->log + g_sh->loglen, s.data(), s.size());
    g_sh->loglen += (uint32_t) s.size();
    g_sh->log[g_sh->loglen++] = '\n';
}
[[noreturn]] void fail(int kind, const std::string &msg) {
    note("DISCREPANCY " + msg);
    snprintf(g_sh->msg, sizeof g_sh->msg, "configuration " CONF_NAME(CONF) ": %s", msg.c_str());
    g_sh->opIndex = g_op;
    g_sh->logHash = g_hash;
    g_sh->dkind = kind;
    _exit(0);
}

// ------------------------------------------------------------------------------------------------ the configurations
// the exception in flight: a failure in itself, the framework's way of stopping a test, or another
Left leftBy() {
    try { throw; }
    catch (fakeit::UnexpectedMethodCallException &e) {
#ifdef CONF_standalone
        frameworkFailure(failure("standalone unexpected", "", 0, e.what()));
        return STOPPED;
#else
        (void) e;
        return LIBRARY;
#endif
    }
    catch (UserEx &) { return USER; }
    catch (OwnAdapterEx &) { return OWN; }
    catch (ListenerThrows &) { return LISTENER; }
#if defined(CONF_catch) || defined(CONF_catch_old)
    catch (Catch::TestFailureException &) { return STOPPED; }
#elif defined(CONF_boost) || defined(CONF_boost_old)
    catch (boost::execution_aborted &) { return STOPPED; }
    catch (std::string &s) { frameworkFailure(failure("boost uncaught exception", "", 0, s)); return STOPPED; }
#elif defined(CONF_cute)
    catch (cute::test_failure &e) { frameworkFailure(failure("cute", e.filename, e.lineno, e.reason)); return STOPPED; }
    catch (std::string &s) { frameworkFailure(failure("cute uncaught exception", "", 0, s)); return STOPPED; }
#elif defined(CONF_doctest)
    catch (doctest::TestFailureException &) { return STOPPED; }
#elif defined(CONF_mettle)
    catch (mettle::expectation_error &e) { frameworkFailure(failure("mettle", "", 0, e.what())); return STOPPED; }
#elif defined(CONF_mstest)
    catch (Microsoft::VisualStudio::CppUnitTestFramework::AssertFailedException &) { return STOPPED; }
#elif defined(CONF_nunit)
    catch (NUnit::Framework::AssertionException &) { return STOPPED; }
#elif defined(CONF_tpunit)
    catch (fakeit::TpUnitAdapter::AssertionException &e) { frameworkFailure(failure("tpunit", "", 0, e.what())); return STOPPED; }
#elif defined(CONF_standalone)
    catch (fakeit::SequenceVerificationException &e) { frameworkFailure(failure("standalone sequence", e.file(), e.line(), e.what())); return STOPPED; }
    catch (fakeit::NoMoreInvocationsVerificationException &e) { frameworkFailure(failure("standalone nomore", e.file(), e.line(), e.what())); return STOPPED; }
#endif
    catch (...) { return OTHER; }
}

// the one failure an event has to become, and how the code that caused it is left
struct Must { Failure f; bool anyPlace = false; Left left = STOPPED; };
Must must(int type, const std::string &message, const char *file, int line, const std::string &pattern) {
    Must m;
    std::string placed = std::string(file) + ":" + std::to_string(line) + ": " + message;
    bool u = type == UNEXPECTED;
    (void) pattern; (void) u; (void) placed;
#if defined(CONF_gtest)
    m.f = failure("gtest", u ? "" : file, line, message);
    m.anyPlace = u;
    m.left = u ? LIBRARY : RETURNED;
#elif defined(CONF_catch) || defined(CONF_catch_old)
    m.f = u ? failure("catch explicit", "Unknown file", 0, message) : failure("catch expression", file, line, placed);
    if (type == SEQUENCE) m.f.expression = pattern;
#elif defined(CONF_boost)
    m.f = u ? failure("boost uncaught exception", "", 0, message) : failure("boost message", file, line, message);
#elif defined(CONF_boost_old)
    m.f = u ? failure("boost uncaught exception", "", 0, message) : failure("boost message", file, line, message, false);
    m.left = u ? STOPPED : RETURNED;
#elif defined(CONF_cute)
    m.f = u ? failure("cute uncaught exception", "", 0, message) : failure("cute", file, line, message);
#elif defined(CONF_doctest)
    m.f = u ? failure("doctest", "Unknown file", 0, message) : failure("doctest", file, line, message, false);
    m.left = u ? STOPPED : RETURNED;
#elif defined(CONF_mettle)
    m.f = failure("mettle", "", 0, u ? message : placed);
#elif defined(CONF_mstest)
    m.f = failure("mstest", "", 0, message);
#elif defined(CONF_nunit)
    m.f = failure("nunit", "", 0, message);
#elif defined(CONF_qtest)
    m.f = failure("qtest", "", 0, message);
    m.left = u ? LIBRARY : RETURNED;
#elif defined(CONF_tpunit)
    m.f = failure("tpunit", "", 0, u ? message : placed);
#elif defined(CONF_standalone)
    m.f = u ? failure("standalone unexpected", "", 0, message) : failure(type == SEQUENCE ? "standalone sequence" : "standalone nomore", file, line, placed);
#else
#error no configuration
#endif
    return m;
}

// ------------------------------------------------------------------------------------------------ user code
struct Formatter : fakeit::EventFormatter {
    int n = 0;
    std::string format(const fakeit::UnexpectedMethodCallEvent &) override { return "FORMATTER" + std::to_string(n) + " unexpected"; }
    std::string format(const fakeit::SequenceVerificationEvent &e) override { return "FORMATTER" + std::to_string(n) + " sequence " + std::to_string(e.line()); }
    std::string format(const fakeit::NoMoreInvocationsVerificationEvent &e) override { return "FORMATTER" + std::to_string(n) + " nomore " + std::to_string(e.line()); }
};
Formatter g_formatters[2];
int g_ownSeen;
bool g_ownThrows;
struct OwnAdapter : fakeit::EventHandler {
    void seen() { g_ownSeen++; if (g_ownThrows) throw OwnAdapterEx(); }
    void handle(const fakeit::UnexpectedMethodCallEvent &) override { seen(); }
    void handle(const fakeit::SequenceVerificationEvent &) override { seen(); }
    void handle(const fakeit::NoMoreInvocationsVerificationEvent &) override { seen(); }
} g_own;
int g_heard;
bool g_listenerThrows;
struct Listener : fakeit::EventHandler {
    void seen() { g_heard++; if (g_listenerThrows) throw ListenerThrows(); }
    void handle(const fakeit::UnexpectedMethodCallEvent &) override { seen(); }
    void handle(const fakeit::SequenceVerificationEvent &) override { seen(); }
    void handle(const fakeit::NoMoreInvocationsVerificationEvent &) override { seen(); }
} g_listener;

// ------------------------------------------------------------------------------------------------ model and run
struct Call { int mock, method, v; bool verified; };
struct Stubbed { bool any = false; int left = 0; int value = 0; bool throws = false; };

struct Run {
    fakeit::Mock<Three> *mocks[3];
    Stubbed stubs[3][3];
    std::vector<Call> hist;
    int formatter = -1, adapter = 0, listeners = 0;

    std::string callText(const Call &c) { return std::string("m.") + methodName(c.method) + argsText(c.method, c.v); }
    std::string list(const std::vector<Call> &v) {
        std::string s;
        for (size_t i = 0; i < v.size() && i < 50; i++) { if (i) s += "\n"; s += "  " + callText(v[i]); }
        if (v.size() > 50) s += "\n  ...";
        return s;
    }
    void expect(int type, std::string message, int line, const std::string &pattern, Left left, const std::string &what) {
        if (formatter >= 0) message = "FORMATTER" + std::to_string(formatter) + (type == UNEXPECTED ? " unexpected" : (type == SEQUENCE ? " sequence " : " nomore ") + std::to_string(line));
        if (formatter >= 0) g_sh->probes[P_FORMATTER]++;
        g_sh->probes[P_EVENTS]++;
        int heard = listeners, seen = 0;
        size_t failures = 0;
        Left want;
        Must m = must(type, message, __FILE__, line, pattern);
        if (listeners && g_listenerThrows) { heard = 1; want = LISTENER; g_sh->faults[FI_LISTENER]++; g_sh->probes[P_LISTENER_THROW]++; }
        else if (adapter) { seen = 1; want = g_ownThrows ? OWN : type == UNEXPECTED ? LIBRARY : RETURNED; g_sh->probes[g_ownThrows ? P_ADAPTER_THROW : P_ADAPTER_RETURN]++; if (g_ownThrows) g_sh->faults[FI_ADAPTER]++; }
        else { failures = 1; want = m.left; g_sh->probes[P_TEXT]++; }
#ifdef CONF_standalone
        if (want == LIBRARY) { want = STOPPED; failures = 1; }
#endif
        if (g_heard != heard) fail(D_EVENT, what + " was told to " + std::to_string(g_heard) + " of " + std::to_string(heard) + " listeners");
        if (g_ownSeen != seen) fail(D_EVENT, what + " was told " + std::to_string(g_ownSeen) + " times to the custom adapter instead of " + std::to_string(seen));
        if (g_failures.size() != failures) fail(D_EVENT, what + " became " + std::to_string(g_failures.size()) + " failures of the framework instead of " + std::to_string(failures) + (g_failures.empty() ? "" : ": " + g_failures[0].text()));
        if (failures) {
            Failure f = g_failures[0];
            if (m.anyPlace) { f.file = m.f.file; f.line = m.f.line; }
            if (!(f == m.f)) fail(D_EVENT, what + " became " + f.text() + " instead of " + m.f.text());
        }
        if (left != want) fail(D_EVENT, what + " " + leftName(left) + ", but " + leftName(want) + " is what the configuration does");
    }
    void nothing(Left left, Left want, const std::string &what) {
        if (g_heard || g_ownSeen || !g_failures.empty()) fail(D_EVENT, what + " was reported although it is no failure" + (g_failures.empty() ? "" : ": " + g_failures[0].text()));
        if (left != want) fail(D_EVENT, what + " " + leftName(left));
    }
    template<class F> Left guarded(F f) {
        g_failures.clear();
        g_heard = g_ownSeen = 0;
        Left left = RETURNED;
        try { LibScope l; f(); } catch (...) { left = leftBy(); }
        return left;
    }
    void stub(const Op &o) {
        int mi = o.P(0) % 3, k = o.P(1) % 3, value = o.P(2);
        Stubbed &s = stubs[mi][k];
        s.any = true;
        s.left = o.P(3) % 3 == 0 ? -1 : o.P(3) % 3;
        s.value = value;
        s.throws = o.P(4) & 1;
        fakeit::Mock<Three> &m = *mocks[mi];
        using namespace fakeit;
        Left left = guarded([&] {
            if (k == 0) { auto method = Method(m, num); auto p = When(method); if (s.throws) { if (s.left < 0) p.AlwaysThrow(UserEx{1}); else if (s.left == 1) p.Throw(UserEx{1}); else p.Throw(2_Times(UserEx{1})); } else if (s.left < 0) p.AlwaysReturn(value); else if (s.left == 1) p.Return(value); else p.Return(value, value); }
            else if (k == 1) { auto method = Method(m, text); auto p = When(method); if (s.throws) { if (s.left < 0) p.AlwaysThrow(UserEx{1}); else if (s.left == 1) p.Throw(UserEx{1}); else p.Throw(2_Times(UserEx{1})); } else if (s.left < 0) p.AlwaysReturn(); else if (s.left == 1) p.Return(); else p.Return().Return(); }
            else { auto method = Method(m, both); auto p = When(method); if (s.throws) { if (s.left < 0) p.AlwaysThrow(UserEx{1}); else if (s.left == 1) p.Throw(UserEx{1}); else p.Throw(2_Times(UserEx{1})); } else if (s.left < 0) p.AlwaysReturn(value); else if (s.left == 1) p.Return(value); else p.Return(value, value); }
        });
        nothing(left, RETURNED, "a stubbing");
    }
    void call(const Op &o) {
        int mi = o.P(0) % 3, k = o.P(1) % 3, v = o.P(2) % 10, got = -1;
        g_sh->calls++;
        Three *t = &mocks[mi]->get();
        Left left = guarded([&] { if (k == 0) got = t->num(v); else if (k == 1) t->text(str(v)); else got = t->both(v, str(v)); });
        Stubbed &s = stubs[mi][k];
        Call c{mi, k, v, false};
        std::string what = "a call of " + callText(c);
        if (!s.any) { g_sh->probes[P_UNMOCKED]++; expect(UNEXPECTED, "Unexpected method invocation: unknown()\n  An unmocked method was invoked. All used virtual methods must be stubbed!", 0, "", left, "an unexpected call"); return; }
        hist.push_back(c);
        if (!s.left) { g_sh->probes[P_EXHAUSTED]++; expect(UNEXPECTED, "Unexpected method invocation: " + callText(c) + "\n  Could not find any recorded behavior to support this method call.", 0, "", left, "an unexpected call"); return; }
        if (s.left > 0) s.left--;
        if (s.throws) g_sh->faults[FI_ACTION_THROW]++;
        nothing(left, s.throws ? USER : RETURNED, what);
        if (!s.throws && k != 1 && got != s.value) fail(D_RESULT, what + " returned " + std::to_string(got));
        g_sh->probes[P_ANSWERED]++;
    }
    void verify(const Op &o) {
        int mi = o.P(0) % 3, k = o.P(1) % 3, v = o.P(2) % 10, quant = o.P(4) % 5, n = o.P(5) % 4, form = o.P(6) % 4, line = 0;
        bool any = o.P(3) & 1, result = false;
        fakeit::Mock<Three> &m = *mocks[mi];
        using namespace fakeit;
        auto check = [&](auto &&pattern) {
#define CHECKED(Q) { if (form == 0) { result = (bool) Verify(pattern)Q; } else if (form == 1) { line = __LINE__; Verify(pattern)Q; } else { line = __LINE__; auto kept = Verify(pattern)Q; (void) kept; } }
            switch (quant) { case 0: CHECKED() break; case 1: CHECKED(.Exactly(n)) break; case 2: CHECKED(.AtLeast(n)) break; case 3: CHECKED(.Never()) break; default: CHECKED(.Once()) break; }
        };
        Left left = guarded([&] {
            if (k == 0) { if (any) check(Method(m, num)); else check(Method(m, num).Using(v)); }
            else if (k == 1) { if (any) check(Method(m, text)); else check(Method(m, text).Using(str(v))); }
            else { if (any) check(Method(m, both)); else check(Method(m, both).Using(v, str(v))); }
        });
        std::vector<Call> seq;
        std::vector<Call *> hits;
        for (auto &c : hist) if (c.mock == mi) { seq.push_back(c); if (c.method == k && (any || c.v == v)) hits.push_back(&c); }
        int count = (int) hits.size(), expected = quant == 0 ? 1 : quant == 3 ? 0 : quant == 4 ? 1 : n;
        bool least = quant == 0 || quant == 2, pass = least ? count >= expected : count == expected;
        if (pass) for (auto c : hits) c->verified = true;
        g_sh->probes[pass ? P_VERIFY_PASS : P_VERIFY_FAIL]++;
        if (form == 0) {
            nothing(left, RETURNED, "a verification read as a condition");
            if (result != pass) fail(D_VERDICT, "a verification gives " + std::to_string(result));
            g_sh->probes[P_VERIFY_BOOL]++;
            return;
        }
        if (pass) { nothing(left, RETURNED, "a verification that holds"); return; }
        std::string pattern = std::string("m.") + methodName(k) + (any ? "( Any arguments )" : argsText(k, v));
        expect(SEQUENCE, "Verification error\nExpected pattern: " + pattern + "\nExpected matches: " + (least ? "at least " : "exactly ") + std::to_string(expected) + "\nActual matches  : " + std::to_string(count) +
               "\nActual sequence : total of " + std::to_string(seq.size()) + " actual invocations" + (seq.empty() ? "." : ":\n") + list(seq), line, pattern, left, "a failing verification");
    }
    void noMore(const Op &o) {
        int mask = 1 + o.P(0) % 7, form = o.P(1) % 4, line = 0;
        bool result = false;
        std::vector<int> who;
        for (int i = 0; i < 3; i++) if (mask >> i & 1) who.push_back(i);
        using namespace fakeit;
#define NOMORE_OF(...) { if (form == 0) { result = (bool) VerifyNoOtherInvocations(__VA_ARGS__); } else { line = __LINE__; VerifyNoOtherInvocations(__VA_ARGS__); } }
        Left left = guarded([&] {
            switch (who.size()) { case 1: NOMORE_OF(*mocks[who[0]]) break; case 2: NOMORE_OF(*mocks[who[0]], *mocks[who[1]]) break; default: NOMORE_OF(*mocks[who[0]], *mocks[who[1]], *mocks[who[2]]) break; }
        });
        std::vector<Call> unv;
        for (auto &c : hist) if ((mask >> c.mock & 1) && !c.verified) unv.push_back(c);
        g_sh->probes[unv.empty() ? P_VNOI_PASS : P_VNOI_FAIL]++;
        if (form == 0) {
            nothing(left, RETURNED, "a verification read as a condition");
            if (result != unv.empty()) fail(D_VERDICT, "a verification of no other calls gives " + std::to_string(result));
            return;
        }
        if (unv.empty()) { nothing(left, RETURNED, "a verification that holds"); return; }
        expect(NOMORE, "Verification error\nExpected no more invocations!! but the following unverified invocations were found:\n" + list(unv), line, "", left, "a failing verification of no other calls");
    }
    void forget(int mi, bool all) {
        for (size_t i = 0; i < hist.size();) if (hist[i].mock == mi) hist.erase(hist.begin() + (long) i); else i++;
        if (all) for (auto &s : stubs[mi]) s = Stubbed();
    }
    void op(const Op &o) {
        switch (o.k) {
            case O_STUB: stub(o); break;
            case O_CALL: call(o); break;
            case O_VERIFY: verify(o); break;
            case O_VNOI: noMore(o); break;
            case O_RESET: guarded([&] { mocks[o.P(0) % 3]->Reset(); }); forget(o.P(0) % 3, true); break;
            case O_CLEAR: guarded([&] { mocks[o.P(0) % 3]->ClearInvocationHistory(); }); forget(o.P(0) % 3, false); break;
            case O_FORMATTER: formatter = o.P(0) % 3 - 1; if (formatter < 0) Fakeit.resetCustomEventFormatter(); else Fakeit.setCustomEventFormatter(g_formatters[formatter]); break;
            case O_ADAPTER: adapter = o.P(0) & 1; g_ownThrows = o.P(1) & 1; if (adapter) Fakeit.setTestingFrameworkAdapter(g_own); else Fakeit.resetTestingFrameworkAdapter(); break;
            case O_LISTEN: if (listeners < 3 && o.P(0)) { LibScope l; Fakeit.addEventHandler(g_listener); listeners++; } else { Fakeit.clearEventHandlers(); listeners = 0; } g_listenerThrows = o.P(1) & 1; break;
            default: break;
        }
    }
    uint64_t state() {
        uint64_t h = hashCombine((uint64_t) (formatter + 2), (uint64_t) (adapter * 4 + listeners));
        for (auto &m : stubs) for (auto &s : m) h = hashCombine(h, (uint64_t) (s.any * 16 + s.throws * 8 + s.left + 1));
        for (auto &c : hist) h = hashCombine(h, (uint64_t) (c.mock * 8 + c.method * 2 + c.verified));
        return h;
    }
};
}

void frameworkFailure(const Failure &f) { HarnessScope h; g_failures.push_back(f); }

void interpRun(const Trace &t, const RunCfg &cfg, Shared *sh) {
    g_sh = sh;
    g_verbose = cfg.verbose;
    g_formatters[1].n = 1;
    arenaStart(cfg.env);
    arenaViolation = [](const char *what) { fail(D_MEM, what); };
    Run run;
    for (auto &m : run.mocks) { LibScope l; m = new fakeit::Mock<Three>(); }
    for (size_t i = 0; i < t.size(); i++) {
        g_op = (int) i;
        sh->opIndex = g_op;
        Op o = t[i];
        for (auto &p : o.p) if (p < 0) p = -p;
        sh->ops++;
        std::string s = opName(o.k);
        for (int p : o.p) s += " " + std::to_string(p);
        note(s);
        run.op(o);
        for (auto &f : g_failures) note("  " + f.text());
        if (sh->nstates < 512) sh->stateHashes[sh->nstates++] = run.state();
    }
    for (auto m : run.mocks) { LibScope l; delete m; }
    sh->allocs = arenaStats().allocs;
    sh->faults[FI_GARBAGE]++;
    sh->logHash = g_hash;
    sh->done = 1;
}

// ------------------------------------------------------------------------------------------------ what main.cpp asks for
const std::vector<ClassDesc> &classes() { static std::vector<ClassDesc> none; return none; }
const char *probeName(int p) {
    static std::vector<std::string> n = [] { std::vector<std::string> v; for (int i = 0; i < P_COUNT; i++) v.push_back("probe" + std::to_string(i));
        v[P_FORMATTER] = "custom_formatter"; v[P_EVENTS] = "reports"; v[P_LISTENER_THROW] = "listener_throws"; v[P_ADAPTER_THROW] = "adapter_throws"; v[P_ADAPTER_RETURN] = "adapter_returns"; v[P_TEXT] = "failures_of_the_framework";
        v[P_UNMOCKED] = "unmocked"; v[P_EXHAUSTED] = "exhausted"; v[P_ANSWERED] = "answered"; v[P_VERIFY_PASS] = "verify_pass"; v[P_VERIFY_FAIL] = "verify_fail"; v[P_VERIFY_BOOL] = "verify_bool"; v[P_VNOI_PASS] = "vnoi_pass"; v[P_VNOI_FAIL] = "vnoi_fail"; return v; }();
    return n[p].c_str();
}
bool knownProperty(const std::string &id) { return id == "C22" || id == "C23"; }
MemEnv envNumber(uint64_t seed, int n) { MemEnv e; Rng r(mix64(seed + 77) + (uint64_t) n); e.placement = r.below(PL_GUARD); e.fill = r.below(FM_COUNT); e.seed = r.next(); return e; }
Plan generate(const std::string &, uint64_t seed, uint64_t index) {
    uint64_t s = mix64(seed * 0x9e3779b97f4a7c15ull + index);
    Rng r(s);
    Plan p;
    int len = r.range(3, 24), mocks = 1 + r.below(3), methods = 1 + r.below(3), vals = 1 + r.below(4), faultPct = r.chance(50) ? 0 : 40, customPct = r.chance(50) ? 0 : 8;
    if (r.chance(3)) len = 150;
    for (int i = 0; i < len; i++) {
        int x = r.below(100), m = r.below(mocks), k = r.below(methods);
        if (x < customPct) p.t.push_back(Op(O_FORMATTER, {r.below(3)}));
        else if (x < 2 * customPct) p.t.push_back(Op(O_ADAPTER, {r.below(2), (int) r.chance(faultPct)}));
        else if (x < 3 * customPct) p.t.push_back(Op(O_LISTEN, {r.below(2), (int) r.chance(faultPct)}));
        else if (x < 45) p.t.push_back(Op(O_CALL, {m, k, r.below(vals)}));
        else if (x < 62) p.t.push_back(Op(O_STUB, {m, k, r.below(50), r.below(3), (int) r.chance(faultPct / 2)}));
        else if (x < 86) p.t.push_back(Op(O_VERIFY, {m, k, r.below(vals), r.below(2), r.below(5), r.below(4), r.below(4)}));
        else if (x < 96) p.t.push_back(Op(O_VNOI, {r.below(7), r.below(4)}));
        else p.t.push_back(Op(r.chance(50) ? O_RESET : O_CLEAR, {m}));
    }
    p.env = envNumber(s, 2);
    return p;
}
void addSwitches(Plan &, uint64_t, int, const uint64_t (*)[2]) {}
bool ownsDirectly(const std::string &, int d, int) { return d == D_EVENT || d == D_CRASH || d == D_HANG; }
std::vector<Trace> neutralise(const std::string &, const Trace &) { return {}; }
bool oneCleanIsEnough(const std::string &) { return false; }
bool mayOwnByFeature(const std::string &, int, int) { return false; }
bool reached(const std::string &, const uint64_t *p) { return p[P_EVENTS]; }
