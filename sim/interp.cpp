// Executes a trace in lock step with a reference model.  The model decides beforehand what each operation has to do;
// user code called by the library (actions, conditions, listeners, original methods) reports to the model as it runs.
#include "interp.hpp"
#ifdef SIM_THREADS
#include "sched.hpp"
#endif
#include "typed.hpp"
#include <cstdarg>
#include <typeinfo>
#include <unistd.h>
#include <algorithm>

using namespace fakeit;

Shared *g_shared;

const char *probeName(int p) {
    static const char *n[] = {
    "call", "answered", "unmocked", "unmatched", "exhausted", "older_stubbing_answers", "several_actions", "quantity", "reentrant", "nested", "always",
    "action_throws", "call_while_unwinding", "verify_pass", "verify_fail", "verify_bool", "several_patterns", "concat", "repeat", "several_mocks", "using", "unverified",
    "vnoi_pass", "vnoi_fail", "partial_occurrence", "interrupted_stub", "interrupted_verify", "held", "copies", "events", "listeners", "adapter_throws", "adapter_returns", "formatter",
    "reset", "restub_after_reset", "clear", "members", "spied_call", "unstubbed_on_spy", "self_call", "recursion", "original_throws", "restored", "two_mocks", "three_mocks", "destroy", "dtor_action",
    "dtor_after_reset", "out_arg", "ref_arg", "move_only", "ref_return", "condition_fault", "copy_fault", "comparison_fault", "alloc_fault", "verify_fault", "listener_fault", "named_only",
    "audit", "long_history", "many_stubbings", "mock_destroyed", "quantity_zero", "caller_mutated", "at_least_0", "call_after_verify", "clear_in_action", "stub_in_action", "call_in_condition", "burst", "abandoned", "several_threads", "joint_history_of_threads", "several_methods_by_one_phrase", "verified_again", "message_text", "message_of_more_than_50_calls", "built_in_condition", "answered_by_a_drawn_class", "object_of_a_drawn_class", "same_pattern_twice", "pattern_expression", "repeated_many_times", "refused", "spied_object_destroyed", "six_mocks", "more_than_five_arguments"};
    static_assert(sizeof n / sizeof *n == P_COUNT, "names");
    return n[p];
}

static const int MAXSLOT = 8;
static const int MAXLISTENERS = 16;
static const int MAXDEPTH = 4;
static const int DTOR = 1000; // method number of the destructor

// ------------------------------------------------------------------------------------------------ model
namespace {
struct MAct {
    enum W { RETV, RETDEF, THROW, DO, RETSET, ORIG } what = RETV;
    int token = 0;
    long qty = 1;              // -1: always
    int exType = 0, outVal = 0, outMask = ~0, flags = 0;
    bool callback = false;     // the harness sees the action run
    const Op *script = nullptr;
    bool moves = false;
};
struct MStub {
    int serial = 0;
    MatchSpec m;
    std::vector<MAct> acts;
    const Op *cond = nullptr;  // a call made by the condition when it accepts
    std::vector<long> used{0}; // candidates for the number of calls answered so far; one unless memory ran out
    int actAt(long used_) const {
        long c = used_;
        for (size_t i = 0; i < acts.size(); i++) {
            if (acts[i].qty < 0) return (int) i;
            if (c < acts[i].qty) return (int) i;
            c -= acts[i].qty;
        }
        return -1;
    }
};
struct MMethod { std::vector<MStub> stubs; };
struct Inv {
    uint64_t uid = 0;
    int slot = 0, gen = 0, method = 0;
    std::vector<ArgVal> args;
    bool verified = false;
    bool unknownArgs = false;
};
struct MMember { bool stubbed = false; int value = 0; };
struct MMock {
    bool alive = false;
    int cls = 0, gen = 0;
    int obj = -1;              // wrapped object, -1: fake
    MockBox *box = nullptr;
    std::vector<MMethod> m;
    MMethod dtor;
    std::vector<int> inOriginal; // per method: how many spied calls are running the object's own code
    MMember mem[3];
    int pins = 0;              // running calls and held phrases
    bool wasReset = false;
};
struct EventRec {
    int who = 0;               // listener number, -1: adapter
    int type = 0;              // 0 unexpected call, 1 sequence verification, 2 no more invocations
    int kind = 0;              // UnexpectedType or VerificationType
    int expected = 0, actual = 0, line = 0;
    std::vector<std::string> seq, unv;
    std::string call;
    bool file = true;
};
struct Expect {
    enum K { ORIGINAL, UNMOCKED, UNMATCHED, EXHAUSTED, ACT, NOOP } k = UNMOCKED;
    int stub = -1;
    std::vector<std::pair<long, int>> cand; // (used before, action)
    uint64_t uid = 0;
    bool predArmedReached = false;
};
struct Frame {
    int slot = 0, gen = 0, method = 0, obj = -1;
    std::vector<ArgVal> args;
    Expect e;
    bool entered = false;
    bool isOriginalRunning = false;
    int origCode = 0;
    bool origThrew = false;
    int throwType = 0, throwCode = 0;
    bool willThrow = false;
    int outSet = 0;
    bool condDone = false;
};

struct Listener;
struct Sim {
    // real side
    LeafD objs[NOBJ];
    int cellInt[NCELL];
    std::string cellStr[NCELL];
    Val cellVal[NCELL];
    int retInt[8];
    Val retVal[8];
    bool anyVerification = false;
    long auditBudget = 4000;
    int ntop = 0;
    // model side
    int cellCode[3][NCELL];
    int objState[NOBJ];
    int objMock[NOBJ];
    MMock mocks[MAXSLOT];
    std::vector<Inv> hist;
    uint64_t nextUid = 1;
    int nextGen = 1;
    int nextToken = 1;
    int nextSerial = 1;
    std::map<int, std::pair<MatchSpec, const MethodDesc *>> stated;   // conditions stated as predicates, by serial
    std::map<int, MAct> actByToken;
    std::map<int, int> stubOfToken; // token -> serial of its stubbing
    std::vector<Frame *> frames;
    std::vector<EventRec> events;
    int nlisteners = 0;
    int listenerThrows[MAXLISTENERS] = {0};
    int adapterMode = 0;       // 0 bundled, 1 returns, 2 throws
    bool formatter = false;
    bool auditing = false;
    std::vector<EventRec> auditEvents;
    std::vector<std::vector<bool>> auditFlags;
    int depth = 0;
    int budget = 600, burstBudget = 70000;
    int inCond = 0;
    int unwinding = 0;
    // armed fault
    int fault = F_NONE, faultN = 0, faultSerial = 0;
    bool faultFired = false;
    bool predEvaluated = false;
    // log
    uint64_t hash = 0x1234;
    bool verbose = false, joint = true;
    int top = 0, thread = 0;
    int expLine = 0;
    std::vector<const void *> auditPtrs;

    Sim() {
        for (int i = 0; i < NCELL; i++) { cellInt[i] = i; cellStr[i] = ""; cellVal[i].code = i; }
        for (int i = 0; i < 8; i++) { retInt[i] = 100 + i; retVal[i].code = 100 + i; }
        for (int t = 0; t < 3; t++) for (int i = 0; i < NCELL; i++) cellCode[t][i] = i;
        for (int i = 0; i < NOBJ; i++) { objState[i] = 0; objMock[i] = -1; }
    }
};
SIM_TLS Sim *S;
#ifdef SIM_THREADS
const bool g_threadAudit = true;
#else
const bool g_threadAudit = false;
#endif

void logText(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void logText(const char *fmt, ...) {
    char b[1500];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n > (int) sizeof b - 1) n = sizeof b - 1;
    uint64_t h = S->hash;
    for (int i = 0; i < n; i += 8) {
        uint64_t v = 0;
        memcpy(&v, b + i, n - i < 8 ? n - i : 8);
        h = hashCombine(h, v);
    }
    S->hash = hashCombine(h, (uint64_t) n);
    if (S->verbose && g_shared) {
        uint32_t l = g_shared->loglen;
        if (l + n + 8 < sizeof g_shared->log) {
            if (g_threadAudit) { g_shared->log[l++] = 'T'; g_shared->log[l++] = (char) ('0' + S->thread); g_shared->log[l++] = ' '; }
            for (int i = 0; i < S->depth; i++) g_shared->log[l++] = ' ';
            memcpy(g_shared->log + l, b, n);
            g_shared->log[l + n] = '\n';
            g_shared->loglen = l + n + 1;
        }
    }
}
static bool g_counting = true; // off while the final state of the real objects is looked at
inline void probe(int p) { if (g_shared && g_counting) g_shared->probes[p]++; }
inline void countFault(int f) { if (g_shared) g_shared->faults[f]++; }

std::string argText(const std::vector<ArgVal> &a);
const ClassDesc &CD(const MMock &m) { return classes()[m.cls]; }
const char *methodName(const MMock &m, int k) { return k == DTOR ? "destructor" : CD(m).methods[k].name; }
int argCode(const ArgVal &a) { return a.ref ? S->cellCode[a.ctype][a.v] : a.v; }

std::string argText(const std::vector<ArgVal> &a) {
    std::string s;
    for (auto &x : a) { if (!s.empty()) s += ","; if (x.ref) { s += "cell"; s += std::to_string(x.v); s += "="; } s += std::to_string(argCode(x)); }
    return s;
}
}

[[noreturn]] static void finishRun() {
    g_shared->logHash = S ? S->hash : 0;
    g_shared->done = 1;
    _exit(0);
}

void simFail(int kind, const char *fmt, ...) {
    g_lib = 0;
    if (g_shared->dkind == D_NONE) {
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(g_shared->msg, sizeof g_shared->msg, fmt, ap);
        va_end(ap);
        g_shared->opIndex = S ? S->top : -1;
        g_shared->dkind = kind;
        if (S) logText("DISCREPANCY %s: %s", dName(kind), g_shared->msg);
    }
    finishRun();
}

static void onArena(const char *what) { simFail(D_MEM, "%s", what); }
void Val::bad(const char *what) { simFail(D_MEM, "a user object that is not alive was %s by the library", what); }
long &Val::live() { static SIM_TLS long n = 0; return n; }

bool faultPoint(int kind) {
    if (!S || S->fault != kind || !g_lib) return false;
    if (S->faultN > 0 && --S->faultN == 0) { S->faultFired = true; S->fault = F_NONE; countFault(kind); return true; }
    return false;
}

void *simCell(int ct, int i) { return ct == CT_INT ? (void *) &S->cellInt[i] : ct == CT_STR ? (void *) &S->cellStr[i] : (void *) &S->cellVal[i]; }
int simCellIndex(int ct, const void *p) { for (int i = 0; i < NCELL; i++) if (simCell(ct, i) == p) return i; return -1; }
int *simRetInt(int i) { return &S->retInt[i]; }
Val *simRetVal(int i) { return &S->retVal[i]; }

void throwToken(int exType, int code) {
    switch (exType) {
        case EX_USER: throw UserEx{code};
        case EX_RUNTIME: { char b[32]; snprintf(b, sizeof b, "e%d", code); throw std::runtime_error(b); }
        case EX_INT: throw code;
        case EX_VAL: throw ValEx{Val(code)};
        default: throw DerivedEx(code);
    }
}

Outcome currentExceptionOutcome() {
    HarnessScope h;
    Outcome o;
    o.k = Outcome::EXC;
    try { throw; }
    catch (UserEx &e) { o.sub = EX_USER; o.code = e.code; }
    catch (DerivedEx &e) { o.sub = EX_DERIVED; o.code = e.code; }
    catch (int e) { o.sub = EX_INT; o.code = e; }
    catch (ValEx &e) { o.sub = EX_VAL; e.v.check("caught"); o.code = e.v.code; }
    catch (SimFault &f) { o.k = Outcome::FAULT; o.code = f.kind; }
    catch (AdapterEx &e) { o.k = Outcome::ADAPTER; o.code = e.id; }
    catch (ListenerEx &e) { o.k = Outcome::LISTENER; o.code = e.id; }
    catch (Interrupt &e) { o.k = Outcome::INTERRUPT; o.code = e.id; }
    catch (UnexpectedMethodCallException &e) { o.k = Outcome::UNEXPECTED; o.text = e.what(); }
    catch (standalone::SequenceVerificationException &e) { o.k = Outcome::VERIFYEX; o.sub = 1; o.text = e.what(); o.line = e.line(); }
    catch (standalone::NoMoreInvocationsVerificationException &e) { o.k = Outcome::VERIFYEX; o.sub = 2; o.text = e.what(); o.line = e.line(); }
    catch (std::bad_alloc &) { o.k = Outcome::BADALLOC; }
    catch (std::runtime_error &e) { o.sub = EX_RUNTIME; o.code = e.what()[0] == 'e' ? atoi(e.what() + 1) : -1; o.text = e.what(); }
    catch (std::exception &e) { o.k = Outcome::OTHER; o.text = e.what(); }
    catch (...) { o.k = Outcome::OTHER; o.text = "unknown"; }
    return o;
}

static const char *outcomeName(const Outcome &o) {
    static const char *n[] = {"returned", "threw a user exception", "threw UnexpectedMethodCallException", "threw the injected fault", "threw bad_alloc", "threw the adapter's exception",
                              "threw the listener's exception", "threw a verification exception", "was interrupted", "threw something else"};
    return n[o.k];
}
static std::string outcomeText(const Outcome &o) {
    std::string s = outcomeName(o);
    if (o.k == Outcome::RET || o.k == Outcome::EXC) s += " " + std::to_string(o.code);
    if (o.k == Outcome::EXC) s += " of type " + std::to_string(o.sub);
    if (!o.text.empty()) s += " [" + o.text + "]";
    return s;
}

// ------------------------------------------------------------------------------------------------ events
namespace {
EventRec recOf(const UnexpectedMethodCallEvent &e) {
    EventRec r;
    r.type = 0;
    r.kind = e.getUnexpectedType() == UnexpectedType::Unmocked ? 0 : 1;
    r.call = e.getInvocation().format();
    return r;
}
std::vector<std::string> names(const std::vector<Invocation *> &v) {
    std::vector<std::string> n;
    for (auto i : v) n.push_back(i->format());
    return n;
}
void locate(EventRec &r, const VerificationEvent &e) {
    r.line = e.line();
    r.file = e.file() && strstr(e.file(), "interp.cpp") && e.callingMethod() && strlen(e.callingMethod()) > 0;
}
EventRec recOf(const SequenceVerificationEvent &e) {
    EventRec r;
    r.type = 1;
    r.kind = e.verificationType() == VerificationType::Exact ? 0 : e.verificationType() == VerificationType::AtLeast ? 1 : 2;
    r.expected = e.expectedCount();
    r.actual = e.actualCount();
    r.seq = names(e.actualSequence());
    r.unv.push_back("patterns " + std::to_string(e.expectedPattern().size()));
    locate(r, e);
    return r;
}
EventRec recOf(const NoMoreInvocationsVerificationEvent &e) {
    EventRec r;
    r.type = 2;
    r.kind = e.verificationType() == VerificationType::NoMoreInvocations ? 2 : 0;
    r.seq = names(e.allIvocations());
    r.unv = names(e.unverifedIvocations());
    locate(r, e);
    return r;
}

template<class E> void gotEvent(int who, const E &e) {
    HarnessScope h;
    if (!S || S->auditing) return;
    EventRec r = recOf(e);
    r.who = who;
    S->events.push_back(r);
    if (who >= 0 && who < MAXLISTENERS && S->listenerThrows[who]) { countFault(FI_LISTENER); probe(P_LISTENER_THROW); throw ListenerEx{who}; }
    if (who < 0 && S->adapterMode == 2) { countFault(FI_ADAPTER); throw AdapterEx{7}; }
}
struct Listener : EventHandler {
    int id;
    explicit Listener(int i) : id(i) {}
    Listener() : id(0) {}
    void handle(const UnexpectedMethodCallEvent &e) override { gotEvent(id, e); }
    void handle(const SequenceVerificationEvent &e) override { gotEvent(id, e); }
    void handle(const NoMoreInvocationsVerificationEvent &e) override { gotEvent(id, e); }
};
struct AuditAdapter : EventHandler {
    void handle(const UnexpectedMethodCallEvent &) override {}
    void handle(const SequenceVerificationEvent &e) override {
        HarnessScope h;
        EventRec r = recOf(e);
        S->auditEvents.push_back(r);
        std::vector<bool> f;
        for (auto i : e.actualSequence()) { f.push_back(i->isVerified()); if (g_threadAudit) S->auditPtrs.push_back(i); }
        S->auditFlags.push_back(f);
    }
    void handle(const NoMoreInvocationsVerificationEvent &) override {}
};
struct CustomFormatter : EventFormatter {
    std::string format(const UnexpectedMethodCallEvent &) override { return "CUSTOM unexpected"; }
    std::string format(const SequenceVerificationEvent &) override { return "CUSTOM sequence"; }
    std::string format(const NoMoreInvocationsVerificationEvent &) override { return "CUSTOM nomore"; }
};
Listener g_listeners[MAXLISTENERS];
Listener g_adapter(-1);
AuditAdapter g_audit;
CustomFormatter g_formatter;

#ifdef SIM_THREADS
bool g_threaded = false;       // the adapter is shared by the threads: it stays, and asks what it is wanted for
struct Router : EventHandler {
    void handle(const UnexpectedMethodCallEvent &e) override { if (S->auditing) g_audit.handle(e); else g_adapter.handle(e); }
    void handle(const SequenceVerificationEvent &e) override { if (S->auditing) g_audit.handle(e); else g_adapter.handle(e); }
    void handle(const NoMoreInvocationsVerificationEvent &e) override { if (S->auditing) g_audit.handle(e); else g_adapter.handle(e); }
} g_router;
#else
const bool g_threaded = false;
#endif
#ifdef SIM_CONFIGURATION
standalone::Adapter g_standalone;
void ownAdapter() { Fakeit.setTestingFrameworkAdapter(g_standalone); }
void ownFormatter(EventFormatter *f) { g_standalone.formatter = f ? f : &g_standalone.own; if (f) Fakeit.setCustomEventFormatter(*f); else Fakeit.resetCustomEventFormatter(); }
#else
void ownAdapter() { Fakeit.resetTestingFrameworkAdapter(); }
void ownFormatter(EventFormatter *f) { if (f) Fakeit.setCustomEventFormatter(*f); else Fakeit.resetCustomEventFormatter(); }
#endif
void auditAdapter() { if (!g_threaded) Fakeit.setTestingFrameworkAdapter(g_audit); }
void applyAdapter() { if (g_threaded) return; LibScope l; if (S->adapterMode == 0) ownAdapter(); else Fakeit.setTestingFrameworkAdapter(g_adapter); }

}
namespace {
// ------------------------------------------------------------------------------------------------ conditions of one type
std::string printed(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string printed(const char *fmt, ...) { char b[128]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
const char *cText(int code) { return Codec<const char *>::make(code); }
std::string strText(int code) { return code < 0 ? std::string() : Codec<std::string>::make(code); }

}
int richCount(int pk) {
    switch (pk) {
        case PK_INT: case PK_INTREF: case PK_CINTREF: case PK_CSTR: return 5;
        case PK_DBL: case PK_STR: case PK_STRREF: case PK_CSTRREF: return 4;
        case PK_LONG: return 3;
        case PK_INTPTR: case PK_NSTR: case PK_CHAR: return 2;
        default: return 0;
    }
}
bool richAccepts(int pk, int k, int a, int e) {
    int off = a > e ? a - e : e - a, off2 = a > 2 * e ? a - 2 * e : 2 * e - a;
    switch (pk) {
        case PK_INT: case PK_INTREF: case PK_CINTREF: return k == 0 ? off <= 1 : k == 1 ? a == e : k == 2 ? a >= e : k == 3 ? true : a >= e - 1 && a <= e + 2;
        case PK_DBL: return a == DBL_NAN ? false : k == 0 ? off <= 1 : k == 1 ? a == 2 * e : k == 2 ? a >= e : off2 <= 2;
        case PK_STR: case PK_STRREF: case PK_CSTRREF: return k == 0 ? a == e : k == 1 ? a < e : k == 2 ? a != e : a >= e;
        case PK_CSTR: return k == 0 || k == 3 ? a == e : k == 1 ? a >= e : a != e;
        case PK_INTPTR: return k == 1;
        case PK_NSTR: return k == 0 ? a == 0 : a != 0;
        case PK_LONG: return k == 0 ? a == e : k == 1 ? a >= e : a == 0;
        default: return k == 0 ? a == e : off <= 1;
    }
}
std::string richText(int pk, int k, int e) {
    switch (pk) {
        case PK_INT: case PK_INTREF: case PK_CINTREF: return k == 0 ? printed("%d+/-1", e) : k == 1 ? printed("%d", e) : k == 2 ? printed(">%g", e - 0.5) : k == 3 ? std::string("Any") : printed("%g+/-1.5", e + 0.5);
        case PK_DBL: return k == 0 ? printed("%g+/-0.5", e * 0.5) : k == 1 ? printed("%d", e) : k == 2 ? printed(">=%g", e * 0.5) : printed("%d+/-1", e);
        case PK_STR: case PK_STRREF: case PK_CSTRREF: return k == 0 ? strText(e) : k == 1 ? "<" + strText(e) : k == 2 ? "!=\"" + strText(e) + "\"" : ">=" + strText(e);
        case PK_CSTR: return printed(k == 0 ? "%s" : k == 1 ? ">=%s" : k == 2 ? "!=%s" : k == 3 ? "\"%s\"" : "!=\"%s\"", cText(e));
        case PK_INTPTR: case PK_NSTR: return std::string(k == 0 ? "" : "!=") + (__cplusplus >= 201703L ? "nullptr" : "?"); // streams print it since C++17
        case PK_LONG: return k == 0 ? printed("%ld+/-2", Codec<long>::make(e)) : k == 1 ? printed(">%g", e * 3e9) : "1";
        default: return k == 0 ? printed("%d", 'a' + e) : printed("'%c'+/-1", 'a' + e);
    }
}

namespace {
// ------------------------------------------------------------------------------------------------ how calls and conditions print
std::string valueText(int pk, const ArgVal &a) {
    int c = argCode(a);
    switch (pk) {
        case PK_INT: case PK_INTREF: case PK_CINTREF: return printed("%d", c);
        case PK_STR: case PK_STRREF: case PK_CSTRREF: return strText(c);
        case PK_VAL: case PK_VALREF: case PK_CVALREF: case PK_VALRR: return printed("Val%d", c);
        case PK_DBL: return printed("%g", Codec<double>::make(c));
        case PK_CSTR: return printed("\"%s\"", cText(c));
        case PK_LONG: return printed("%ld", Codec<long>::make(c));
        case PK_CHAR: return printed("'%c'", 'a' + c);
        case PK_BOOL: return c ? "true" : "false";
        case PK_NSTR: return c ? printed("\"n%d\"", c) : "[nullptr]";
        case PK_INTPTR: return printed("%p", simCell(CT_INT, a.v));
        default: return "?"; // enumerations, vectors and smart pointers have no form of their own
    }
}
std::string callText(const MMock &m, int method, const std::vector<ArgVal> &args) {
    std::string s = std::string("m.") + methodName(m, method) + "(";
    if (method != DTOR) for (size_t i = 0; i < args.size(); i++) { if (i) s += ", "; s += valueText(CD(m).methods[method].pars[i], args[i]); }
    return s + ")";
}
std::string conditionText(const MatchSpec &m, const MMock &mk, int method) {
    if (method == DTOR || m.shape == M_NONE) return "( Any arguments )";
    if (m.hasPred()) return "( user defined matcher )";
    auto &d = CD(mk).methods[method];
    auto one = [&](int i, int kind) -> std::string {
        static const char *pre[] = {"", ">", ">=", "<", "<=", "!="};
        int pk = d.pars[i];
        if (kind == MK_ANY) return "Any";
        if (kind == MK_PLAIN || ((pk == PK_INTPTR || pk == PK_NSTR) && kind != MK_NE)) kind = MK_EQ;
        if (pk == PK_CSTR) return std::string(pre[kind]) + cText(m.v[i]);
        if (pk == PK_INTPTR) return pre[kind] + printed("%p", simCell(CT_INT, m.v[i]));
        ArgVal a;
        a.v = m.v[i];
        return pre[kind] + valueText(pk, a);
    };
    std::string s = "(";
    for (int i = 0; i < (int) d.pars.size(); i++) {
        if (i) s += ", ";
        switch (m.shape) {
            case M_ONE: s += one(i, i == m.pos ? m.kind : (int) MK_ANY); break;
            case M_ALLKIND: s += one(i, m.kind); break;
            case M_MIX: s += one(i, mixKind(m.kind, i)); break;
            case M_RICH: s += i == m.pos ? richText(d.pars[i], m.kind, m.v[i]) : "Any"; break;
            default: s += one(i, MK_EQ); break;
        }
    }
    return s + ")";
}
std::string listText(const std::vector<Inv> &v) {
    std::string s;
    for (size_t i = 0; i < v.size() && i < 50; i++) { if (i) s += "\n"; s += "  " + callText(S->mocks[v[i].slot], v[i].method, v[i].args); }
    if (v.size() > 50) s += "\n  ...";
    return s;
}
bool known(const std::vector<Inv> &v) { for (auto &i : v) if (i.unknownArgs) return false; return true; }

std::string invText(const Inv &i) {
    const MMock &m = S->mocks[i.slot];
    return std::string(methodName(m, i.method));
}
// the textual form of a call, as far as it is fixed: the method name, and the values of int arguments
bool callTextAgrees(const std::string &text, const MMock &m, int method, const std::vector<ArgVal> &args, bool unknown) {
    std::string want = std::string(".") + methodName(m, method) + "(";
    size_t p = text.find(want);
    if (p == std::string::npos) return false;
    if (unknown) return true;
    if (method == DTOR) return true;
    auto &pars = CD(m).methods[method].pars;
    std::string list;
    for (size_t i = 0; i < pars.size(); i++) {
        if (pars[i] != PK_INT && pars[i] != PK_CINTREF && pars[i] != PK_INTREF) return true;
        if (i) list += ", ";
        list += std::to_string(argCode(args[i]));
    }
    return text.compare(p + want.size(), std::string::npos, list + ")") == 0;
}
bool invTextAgrees(const std::string &text, const Inv &i) { return callTextAgrees(text, S->mocks[i.slot], i.method, i.args, i.unknownArgs); }

std::string joinNames(const std::vector<std::string> &v) { std::string s; for (size_t i = 0; i < v.size() && i < 40; i++) { if (i) s += " "; s += v[i]; } return s; }

// compares the events seen since the operation began with what has to be reported
struct ExpEvent {
    int type = -1, kind = 0, expected = 0, actual = 0, line = 0, patterns = 0;
    std::vector<Inv> seq, unv;
    bool unverifiedOnly = false;
    int slot = 0, method = 0;
    std::vector<ArgVal> args;
    std::string pattern;
};
void checkOneEvent(const EventRec &r, const ExpEvent &x) {
    const int listKind = x.unverifiedOnly ? D_UNVERDICT : D_EVENT;
    if (r.type != x.type) simFail(D_EVENT, "wrong kind of report: %d instead of %d", r.type, x.type);
    if (x.type == 0) {
        if (r.kind != x.kind) simFail(D_EVENT, "unexpected call of %s reported as %s", methodName(S->mocks[x.slot], x.method), r.kind ? "unmatched" : "unmocked");
        if (x.kind == 1 && !callTextAgrees(r.call, S->mocks[x.slot], x.method, x.args, false))
            simFail(D_EVENT, "report of the unexpected call %s(%s) names %s", methodName(S->mocks[x.slot], x.method), argText(x.args).c_str(), r.call.c_str());
        std::string want = x.kind == 1 ? callText(S->mocks[x.slot], x.method, x.args) : "unknown()";
        if (r.call != want) simFail(D_TEXT, "an unexpected call prints as %s instead of %s", r.call.c_str(), want.c_str());
        return;
    }
    if (r.line != x.line || !r.file) simFail(D_EVENT, "report carries source line %d instead of %d", r.line, x.line);
    if (r.kind != x.kind) simFail(D_EVENT, "verification type %d reported instead of %d", r.kind, x.kind);
    if (r.seq.size() != x.seq.size()) simFail(listKind, "report lists %zu calls instead of %zu: %s", r.seq.size(), x.seq.size(), joinNames(r.seq).c_str());
    for (size_t i = 0; i < r.seq.size(); i++)
        if (!invTextAgrees(r.seq[i], x.seq[i])) simFail(listKind, "report lists %s at position %zu instead of %s(%s)", r.seq[i].c_str(), i, invText(x.seq[i]).c_str(), argText(x.seq[i].args).c_str());
    if (x.type == 1) {
        if (r.expected != x.expected || r.actual != x.actual)
            simFail(listKind, "report states expected %d actual %d instead of expected %d actual %d", r.expected, r.actual, x.expected, x.actual);
        if (r.unv[0] != "patterns " + std::to_string(x.patterns)) simFail(D_EVENT, "report carries %s instead of %d", r.unv[0].c_str(), x.patterns);
    } else {
        if (r.unv.size() != x.unv.size()) simFail(D_MARK, "report lists %zu unverified calls instead of %zu: %s", r.unv.size(), x.unv.size(), joinNames(r.unv).c_str());
        for (size_t i = 0; i < r.unv.size(); i++)
            if (!invTextAgrees(r.unv[i], x.unv[i])) simFail(D_MARK, "report lists unverified %s at position %zu instead of %s", r.unv[i].c_str(), i, invText(x.unv[i]).c_str());
    }
    auto printedAs = [](const std::vector<std::string> &got, const std::vector<Inv> &calls) {
        for (size_t i = 0; i < calls.size(); i++) {
            if (calls[i].unknownArgs) continue;
            std::string want = callText(S->mocks[calls[i].slot], calls[i].method, calls[i].args);
            if (got[i] != want) simFail(D_TEXT, "a call prints as %s instead of %s", got[i].c_str(), want.c_str());
        }
    };
    printedAs(r.seq, x.seq);
    if (x.type == 2) printedAs(r.unv, x.unv);
}
// type -1: nothing may have been reported
void checkEvents(const ExpEvent &x, bool lenient = false) {
    auto &ev = S->events;
    for (auto &r : ev) logText("event who=%d type=%d kind=%d %d/%d line=%d %s %s %s", r.who, r.type, r.kind, r.expected, r.actual, r.line ? 1 : 0, r.call.c_str(), joinNames(r.seq).c_str(), joinNames(r.unv).c_str());
    if (x.type < 0) {
        if (!ev.empty()) simFail(D_EVENT, "a failure was reported although nothing failed (%zu reports, first of type %d to %d)", ev.size(), ev[0].type, ev[0].who);
        return;
    }
    probe(P_EVENTS);
    std::vector<int> who;
    bool thrower = false;
    for (int i = 0; i < S->nlisteners && !thrower; i++) { who.push_back(i); thrower = S->listenerThrows[i]; }
    if (S->nlisteners) probe(P_LISTENERS);
    if (!thrower && S->adapterMode != 0) who.push_back(-1);
    if (lenient) {
        if (ev.size() > who.size() && !thrower) simFail(D_EVENT, "%zu reports instead of at most %zu", ev.size(), who.size());
        return;
    }
    if (thrower) { // later listeners may or may not be told
        if (ev.size() < who.size()) simFail(D_EVENT, "only %zu listeners were told instead of %zu", ev.size(), who.size());
    } else if (ev.size() != who.size()) simFail(D_EVENT, "%zu reports were delivered instead of %zu", ev.size(), who.size());
    for (size_t i = 0; i < who.size(); i++) {
        if (ev[i].who != who[i]) simFail(D_EVENT, "report number %zu went to %d instead of %d", i, ev[i].who, who[i]);
        checkOneEvent(ev[i], x);
    }
}
struct EventScope { // nested operations look at their own reports only
    std::vector<EventRec> saved;
    EventScope() { saved.swap(S->events); }
    ~EventScope() { saved.swap(S->events); }
};

// ------------------------------------------------------------------------------------------------ model functions
bool accepts(const MatchSpec &m, const MethodDesc &d, const int *c, const int *cell, int n);
bool matchesArgs(const MatchSpec &m, const MMock &mk, int method, const std::vector<ArgVal> &args) {
    if (method == DTOR) return true;
    int c[MAXARGS], cell[MAXARGS];
    for (size_t i = 0; i < args.size(); i++) { c[i] = argCode(args[i]); cell[i] = args[i].v; }
    return accepts(m, CD(mk).methods[method], c, cell, (int) args.size());
}
bool accepts(const MatchSpec &m, const MethodDesc &d, const int *c, const int *cell, int n) {
    if (m.shape != M_NONE && !m.hasPred()) probe(P_CONDITION);
    auto one = [&](int i, int kind) {
        int k = d.pars[i];
        if (k == PK_INTPTR) return kind == MK_NE ? cell[i] != m.v[i] % NCELL : cell[i] == m.v[i] % NCELL;
        if (k == PK_NSTR && kind != MK_NE) kind = MK_EQ;
        if (k == PK_DBL && (c[i] == DBL_NAN || m.v[i] == DBL_NAN)) return kind == MK_NE;
        return cmpKind(kind, c[i], m.v[i]);
    };
    switch (m.shape) {
        case M_MIX: for (int i = 0; i < n; i++) { int kind = mixKind(m.kind, i); if (kind != MK_ANY && !one(i, kind == MK_PLAIN ? (int) MK_EQ : kind)) return false; } return true;
        case M_RICH: return richAccepts(d.pars[m.pos], m.kind, c[m.pos], m.v[m.pos]);
        case M_USING: case M_CALLVALS: for (int i = 0; i < n; i++) if (!one(i, MK_EQ)) return false; return true;
        case M_MATCHING: case M_CALLPRED: return predEval(m.pred, c, n);
        case M_ONE: return m.pos >= n ? true : one(m.pos, m.kind);
        case M_ALLKIND: for (int i = 0; i < n; i++) if (!one(i, m.kind)) return false; return true;
        default: return true;
    }
}
// the shapes that do not exist for a signature fall back to others
void normMatch(MatchSpec &m, const MMock &mk, int method) {
    if (method == DTOR) { m.shape = M_NONE; return; }
    auto &d = CD(mk).methods[method];
    int n = (int) d.pars.size();
    if (m.shape < 0 || m.shape >= M_COUNT) m.shape = M_NONE;
    if (m.shape == M_NONE || m.shape == M_MATCHING || m.shape == M_CALLPRED) m.asPred = false;
    if (n == 0 && m.shape != M_MATCHING && m.shape != M_CALLPRED) { m.shape = M_NONE; m.asPred = false; }
    if (m.kind < 0) m.kind = 0;
    if (n) m.pos = ((m.pos % n) + n) % n; else m.pos = 0;
    if ((d.caps & CAP_NOMATCH) && m.shape != M_MATCHING && m.shape != M_CALLPRED) { m.shape = M_NONE; m.asPred = false; }
    if (m.shape == M_MIX && n < 2) m.shape = M_ONE;
    if (m.shape == M_RICH && !richCount(d.pars[m.pos])) m.shape = M_ONE;
    m.kind %= m.shape == M_MIX ? NMIX : m.shape == M_RICH ? richCount(d.pars[m.pos]) : (int) MK_ANY;
    for (int i = 0; i < n; i++) m.v[i] = d.pars[i] == PK_INTPTR ? ((m.v[i] % NCELL) + NCELL) % NCELL : pkNorm(d.pars[i], m.v[i]);
}
// the fourth and later arguments follow from the first three, except one of them
int later(int which, int i) { return which > 0 && i >= 3 && (which - 1) % (MAXARGS - 3) == i - 3; }
MatchSpec readMatch(const Op &o, unsigned at) {
    MatchSpec m;
    m.shape = o.P(at); if (m.shape >= AS_PRED) { m.shape -= AS_PRED; m.asPred = true; }
    m.kind = o.P(at + 1); m.pos = o.P(at + 2); m.pred = o.P(at + 3);
    for (int i = 0; i < MAXARGS; i++) m.v[i] = o.P(at + 4 + i % 3) + (i / 3) + later(o.P(at + 10), i);
    return m;
}
void statedAsPredicate(const MatchSpec &m, const MMock &mk, int method) { if (m.asPred) S->stated[m.serial] = std::make_pair(m, &CD(mk).methods[method]); }
MMethod &methodOf(MMock &m, int k) { return k == DTOR ? m.dtor : m.m[k]; }

size_t histCount(int gen, int method) { size_t n = 0; for (auto &i : S->hist) if (i.gen == gen && i.method == method) n++; return n; }
void eraseInv(uint64_t uid) { for (size_t i = 0; i < S->hist.size(); i++) if (S->hist[i].uid == uid) { S->hist.erase(S->hist.begin() + i); return; } }
void eraseMock(int gen) {
    auto &h = S->hist;
    h.erase(std::remove_if(h.begin(), h.end(), [&](const Inv &i) { return i.gen == gen; }), h.end());
}

Expect beginCall(Frame &f) {
    Expect e;
    if (f.slot < 0) { e.k = Expect::ORIGINAL; return e; }
    MMock &m = S->mocks[f.slot];
    MMethod &mm = methodOf(m, f.method);
    if (m.obj >= 0 && f.method != DTOR && (mm.stubs.empty() || m.inOriginal[f.method] > 0)) { e.k = Expect::ORIGINAL; return e; }
    if (mm.stubs.empty()) { e.k = f.method == DTOR ? Expect::NOOP : Expect::UNMOCKED; return e; }
    int n = (int) mm.stubs.size();
    if (n >= 8) probe(P_MANYSTUBS);
    for (int i = n - 1; i >= 0; i--) {
        MStub &s = mm.stubs[i];
        if (S->fault == F_PRED && S->faultSerial == s.serial) e.predArmedReached = true;
        if (!matchesArgs(s.m, m, f.method, f.args)) continue;
        e.stub = i;
        if (i < n - 1) probe(P_OLDER_STUB);
        break;
    }
    if (e.predArmedReached) return e; // the caller decides; no effects
    if (e.stub < 0) { e.k = Expect::UNMATCHED; return e; }
    MStub &s = mm.stubs[e.stub];
    bool act = false;
    std::vector<long> next;
    for (long u : s.used) {
        int a = s.actAt(u);
        e.cand.push_back({u, a});
        next.push_back(a < 0 ? u : u + 1);
        if (a >= 0) act = true;
    }
    std::sort(next.begin(), next.end());
    next.erase(std::unique(next.begin(), next.end()), next.end());
    s.used = next;
    e.k = act ? Expect::ACT : Expect::EXHAUSTED;
    Inv inv;
    inv.uid = S->nextUid++;
    inv.slot = f.slot; inv.gen = f.gen; inv.method = f.method; inv.args = f.args;
    e.uid = inv.uid;
    S->hist.push_back(inv);
    if (S->hist.size() == 60) probe(P_LONGHIST);
    if (s.acts.size() > 1) probe(P_MULTI_ACT);
    return e;
}
// memory ran out or a copy threw while candidates remain: keep only those in pred
void keepCandidates(Frame &f, const std::function<bool(const MAct *)> &pred) {
    MStub &s = methodOf(S->mocks[f.slot], f.method).stubs[f.e.stub];
    std::vector<std::pair<long, int>> c;
    std::vector<long> next;
    for (auto &x : f.e.cand)
        if (pred(x.second < 0 ? nullptr : &s.acts[x.second])) { c.push_back(x); next.push_back(x.second < 0 ? x.first : x.first + 1); }
    if (f.e.cand.size() > 1) { std::sort(next.begin(), next.end()); next.erase(std::unique(next.begin(), next.end()), next.end()); s.used = next; }
    f.e.cand = c;
}
const MAct *theAct(const Frame &f) {
    if (f.e.cand.empty() || f.e.cand[0].second < 0) return nullptr;
    return &methodOf(S->mocks[f.slot], f.method).stubs[f.e.stub].acts[f.e.cand[0].second];
}

std::string describeExpected(const Frame &f) {
    switch (f.e.k) {
        case Expect::ORIGINAL: return "the object's own code";
        case Expect::UNMOCKED: return "an unexpected call (never stubbed)";
        case Expect::UNMATCHED: return "an unexpected call (no stubbing accepts it)";
        case Expect::EXHAUSTED: return "an unexpected call (actions used up)";
        case Expect::NOOP: return "nothing";
        default: {
            std::string s = "stubbing " + std::to_string(f.e.stub) + " action";
            for (auto &c : f.e.cand) s += " " + std::to_string(c.second);
            return s;
        }
    }
}
}

void runOps(const std::vector<Op> &ops);
static void execOp(const Op &op);

static void checkArgs(const Frame &f, const ArgRead *a, int n, const char *where) {
    if (n != (int) f.args.size()) simFail(D_ARGS, "%s sees %d arguments instead of %zu", where, n, f.args.size());
    for (int i = 0; i < n; i++) {
        const ArgVal &x = f.args[i];
        if (x.ref) {
            if (a[i].addr != simCell(x.ctype, x.v)) simFail(D_ARGS, "argument %d seen by %s is not the caller's object", i, where);
            probe(P_REFARG);
        }
        if (a[i].code != argCode(x)) simFail(D_ARGS, "argument %d seen by %s is %d instead of %d", i, where, a[i].code, argCode(x));
    }
}

static int slotOf(int v) { return ((v % MAXSLOT) + MAXSLOT) % MAXSLOT; }
static int methodIn(const MMock &m, int v) { int n = (int) CD(m).methods.size(); return ((v % n) + n) % n; }
static std::vector<ArgVal> callArgs(int cls, int method, const Op &op, unsigned at) {
    std::vector<ArgVal> v;
    auto &d = classes()[cls].methods[method];
    for (size_t i = 0; i < d.pars.size(); i++) {
        ArgVal a;
        int p = op.P(at + (unsigned) i % 3) + (int) i / 3 + (at == 2 ? later(op.P(5), (int) i) : 0);
        if (pkRef(d.pars[i])) { a.ref = true; a.ctype = pkCell(d.pars[i]); a.v = ((p % NCELL) + NCELL) % NCELL; }
        else a.v = pkNorm(d.pars[i], p);
        v.push_back(a);
    }
    return v;
}

// two arguments of one call must not name the same variable when an action sets them
static void separate(std::vector<ArgVal> &a) {
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < i; j++)
        if (a[i].ref && a[j].ref && a[i].ctype == a[j].ctype && a[i].v == a[j].v) { a[i].v = (a[i].v + 1) % NCELL; j = (size_t) -1; }
}
static Outcome checkedCall(int slot, int obj, int method, const std::vector<ArgVal> &args, int fault, int faultN);

ActRet simAction(int token, const Val &cap, const ArgRead *a, int n) {
    if (S->auditing) simFail(D_ACTION, "an action ran during a verification");
    cap.check("used by a running action");
    if (cap.code != token) simFail(D_MEM, "captured value of action %d reads %d", token, cap.code);
    if (S->frames.empty()) simFail(D_ACTION, "action %d ran outside of a call", token);
    Frame &f = *S->frames.back();
    auto it = S->actByToken.find(token);
    if (it == S->actByToken.end()) simFail(D_DISPATCH, "unknown action %d ran", token);
    if (f.entered) simFail(D_ACTION, "a second action (%d) ran for one call", token);
    if (f.e.k != Expect::ACT) simFail(f.e.k == Expect::EXHAUSTED ? D_ACTION : D_DISPATCH, "call of %s(%s) ran action %d instead of %s", f.slot >= 0 ? methodName(S->mocks[f.slot], f.method) : "?", argText(f.args).c_str(), token, describeExpected(f).c_str());
    std::string want = describeExpected(f);
    keepCandidates(f, [&](const MAct *x) { return x && x->token == token; });
    if (f.e.cand.empty()) {
        MStub &s = methodOf(S->mocks[f.slot], f.method).stubs[f.e.stub];
        bool same = false;
        for (auto &x : s.acts) if (x.token == token) same = true;
        simFail(same ? D_ACTION : D_DISPATCH, "call of %s(%s) ran action %d instead of %s", methodName(S->mocks[f.slot], f.method), argText(f.args).c_str(), token, want.c_str());
    }
    f.entered = true;
    checkArgs(f, a, n, "the action");
    const MAct act = *theAct(f);
    logText("action token=%d args=%s", token, argText(f.args).c_str());
    long savedArm = arenaArmed();
    if (savedArm) arenaArm(0);
    int savedFault = S->fault, savedN = S->faultN;
    S->fault = F_NONE;
    if (act.script && !act.script->s.empty() && S->depth < MAXDEPTH && !S->inCond) {
        probe(P_NESTED);
        S->depth++;
        runOps(act.script->s);
        S->depth--;
    }
    S->fault = savedFault; S->faultN = savedN;
    if (savedArm) arenaArm(savedArm);
    // arguments still refer to the same objects after nested work
    for (int i = 0; i < n; i++) if (f.args[i].ref && a[i].addr != simCell(f.args[i].ctype, f.args[i].v)) simFail(D_ARGS, "argument %d changed identity", i);
    if (act.flags & 1) { countFault(FI_ACTION_THROW); f.willThrow = true; f.throwType = act.exType; f.throwCode = token; throwToken(act.exType, token); }
    ActRet r{token, false, 0};
    if (act.flags & 2) { r.setOut = true; r.outVal = act.outVal; }
    return r;
}

// A condition that itself calls another mocked method, once per call it accepts.  The target is a method that is not
// running, so that the outcome does not depend on whether the action was picked before or after.
static void callFromCondition(int serial) {
    if (S->auditing || S->inCond || S->unwinding || S->frames.empty() || S->budget <= 0 || S->fault != F_NONE || arenaArmed()) return;
    Frame &f = *S->frames.back();
    if (f.entered || f.condDone || f.slot < 0 || f.e.stub < 0 || f.method == DTOR) return;
    if (f.e.k != Expect::ACT && f.e.k != Expect::EXHAUSTED) return;
    MStub &s = S->mocks[f.slot].m[f.method].stubs[f.e.stub];
    if (s.serial != serial || !s.cond) return;
    int slot = slotOf(s.cond->P(0));
    MMock &m = S->mocks[slot];
    if (!m.alive || m.obj >= 0) return;
    int method = methodIn(m, s.cond->P(1));
    for (auto x : S->frames) if (x->slot == slot && x->method == method) return;
    f.condDone = true;
    probe(P_CALL_IN_CONDITION);
    std::vector<ArgVal> a = callArgs(m.cls, method, *s.cond, 2);
    separate(a);
    for (auto &x : a) for (auto &y : f.args) if (x.ref && y.ref) return; // the outer call's variables stay as they are
    bool savedFired = S->faultFired, savedEval = S->predEvaluated;
    S->inCond++;
    S->depth++;
    checkedCall(slot, -1, method, a, F_NONE, 0);
    S->depth--;
    S->inCond--;
    S->faultFired = savedFired; S->predEvaluated = savedEval;
}

bool simPredicate(int serial, const Val &cap, int pred, const ArgRead *a, int n) {
    cap.check("used by a condition");
    if (cap.code != serial) simFail(D_MEM, "captured value of condition %d reads %d", serial, cap.code);
    if (S->fault == F_PRED && S->faultSerial == serial) { S->predEvaluated = true; S->faultFired = true; countFault(F_PRED); throw SimFault{F_PRED}; }
    int c[MAXARGS], cell[MAXARGS];
    for (int i = 0; i < n; i++) { c[i] = a[i].code; cell[i] = a[i].addr ? simCellIndex(CT_INT, a[i].addr) : -1; }
    auto stated = S->stated.find(serial);
    bool yes = stated == S->stated.end() ? predEval(pred, c, n) : accepts(stated->second.first, *stated->second.second, c, cell, n);
    if (yes) callFromCondition(serial);
    return yes;
}

// what happens while a phrase is held; faults armed for the phrase wait
static void runHeld(const Op &h) {
    probe(P_HELD);
    int savedFault = S->fault, savedN = S->faultN, savedSerial = S->faultSerial;
    bool savedFired = S->faultFired;
    S->fault = F_NONE;
    S->depth++;
    runOps(h.s);
    S->depth--;
    S->fault = savedFault; S->faultN = savedN; S->faultSerial = savedSerial; S->faultFired = savedFired;
}

// ------------------------------------------------------------------------------------------------ calls
// SpyWithoutVerify forwards the recorded arguments away
static void argumentsMoved(Frame &f) {
    bool moves = false;
    for (auto &c : f.e.cand) if (c.second >= 0 && S->mocks[f.slot].m[f.method].stubs[f.e.stub].acts[c.second].moves) moves = true;
    if (!moves) return;
    const MethodDesc &d = CD(S->mocks[f.slot]).methods[f.method];
    for (auto &i : S->hist) if (i.uid == f.e.uid) for (size_t k = 0; k < d.pars.size(); k++) if (!pkRef(d.pars[k]) && d.pars[k] != PK_INT) i.unknownArgs = true;
}
static Outcome checkedCall(int slot, int obj, int method, const std::vector<ArgVal> &args, int fault, int faultN);

OrigRet simOriginal(const Leaf *self, int method, const ArgRead *a, int n) {
    int obj = -1;
    for (int i = 0; i < NOBJ; i++) if (self == &S->objs[i]) obj = i;
    if (obj < 0) simFail(D_STATE, "own code of method %d ran with a wrong object", method);
    Leaf &o = S->objs[obj];
    if (S->frames.empty()) simFail(D_STATE, "own code ran outside of a call");
    Frame &f = *S->frames.back();
    bool ok = f.e.k == Expect::ORIGINAL;
    if (!ok && f.e.k == Expect::ACT) {
        keepCandidates(f, [&](const MAct *x) { return x && x->what == MAct::ORIG; });
        ok = !f.e.cand.empty();
    }
    const char *mn = classes()[CL_LEAF].methods[method].name;
    if (!ok) simFail(D_DISPATCH, "own code of %s ran instead of %s", mn, describeExpected(f).c_str());
    if (f.method != method) simFail(D_DISPATCH, "own code of %s ran for a call of %s", mn, classes()[CL_LEAF].methods[f.method].name);
    if (f.entered) simFail(D_ACTION, "own code of %s ran twice for one call", mn);
    f.entered = true;
    const ArgRead *aa = a;
    checkArgs(f, aa, n, "the object's own code");
    if (o.state != S->objState[obj]) simFail(D_STATE, "data of the spied object changed: %d instead of %d", o.state, S->objState[obj]);
    logText("original %s args=%s", mn, argText(f.args).c_str());
    bool viaSpy = f.e.k == Expect::ACT;
    int slot = f.slot;
    if (viaSpy) argumentsMoved(f);
    if (viaSpy) { probe(P_SPY_CALL); S->mocks[slot].inOriginal[method]++; } else if (slot >= 0) probe(P_SPY_DIRECT);
    long savedArm = arenaArmed();
    if (savedArm) arenaArm(0);
    int savedFault = S->fault, savedN = S->faultN;
    S->fault = F_NONE;
    int sum = method * 7;
    for (int i = 0; i < n; i++) sum += a[i].code * (i + 1);
    int x = n ? argCode(f.args[0]) : 0;
    bool propagate = false;
    Outcome nested;
    auto self_call = [&](int mth, std::vector<int> vals) {
        if (propagate || S->depth >= MAXDEPTH + 4 || S->budget <= 0) return;
        std::vector<ArgVal> args2;
        for (int v : vals) { ArgVal q; q.v = v; args2.push_back(q); }
        probe(mth == method ? P_SPY_RECURSE : P_SPY_SELFCALL);
        S->depth++;
        Outcome r = checkedCall(S->objMock[obj], obj, mth, args2, F_NONE, 0);
        S->depth--;
        if (r.k == Outcome::RET) sum += r.code;
        else if (r.k == Outcome::EXC && x % 2 == 0) { propagate = true; nested = r; }
        else sum += 1;
    };
    switch (method) {
        case L_TWICE: self_call(L_ADD, {(x + 1) % 10}); self_call(L_ADD, {(x + 2) % 10}); break;
        case L_FACT: if (x > 0) self_call(L_FACT, {x > 3 ? 3 : x - 1}); break;
        case L_CHAIN: self_call(L_TWICE, {x}); self_call(L_FACT, {x > 2 ? 2 : x}); self_call(L_FAIL, {argCode(f.args[1])}); break;
        case L_SCALE: break;
        default: break;
    }
    if (o.state != S->objState[obj]) simFail(D_STATE, "data of the spied object changed: %d instead of %d", o.state, S->objState[obj]);
    S->fault = savedFault; S->faultN = savedN;
    if (savedArm) arenaArm(savedArm);
    if (viaSpy) S->mocks[slot].inOriginal[method]--;
    if (propagate) { f.willThrow = true; f.throwType = nested.sub; f.throwCode = nested.code; probe(P_SPY_EXC); throwToken(nested.sub, nested.code); }
    if (method != L_SCALE) S->objState[obj] = o.state = (S->objState[obj] * 31 + sum) % 10007;
    f.origCode = (sum * 13 + S->objState[obj]) % 10007;
    if (f.origCode < 0) f.origCode = -f.origCode;
    if (method == L_FAIL && x % 2) { f.willThrow = true; f.throwType = x % EX_TYPES; f.throwCode = f.origCode; probe(P_SPY_EXC); throwToken(f.throwType, f.throwCode); }
    OrigRet r{f.origCode, false, 0};
    if (method == L_OUTP) { r.setOut = true; r.outVal = f.origCode % 10; f.outSet = 1; S->cellCode[CT_INT][f.args[1].v] = r.outVal; }
    return r;
}

static int cellNow(int ct, int i) {
    if (ct == CT_INT) return S->cellInt[i];
    if (ct == CT_VAL) return S->cellVal[i].code;
    return S->cellStr[i].empty() || S->cellStr[i][0] != 's' ? -2 : atoi(S->cellStr[i].c_str() + 1);
}
static void checkCells(const char *when) {
    for (int i = 0; i < NCELL; i++) {
        if (S->cellInt[i] != S->cellCode[CT_INT][i]) simFail(D_ARGS, "the caller's int variable %d is %d instead of %d after %s", i, S->cellInt[i], S->cellCode[CT_INT][i], when);
        int c = S->cellStr[i].empty() || S->cellStr[i][0] != 's' ? -2 : atoi(S->cellStr[i].c_str() + 1);
        if (c != S->cellCode[CT_STR][i]) simFail(D_ARGS, "the caller's string variable %d is '%s' after %s", i, S->cellStr[i].c_str(), when);
        if (S->cellVal[i].magic != Val::ALIVE || S->cellVal[i].code != S->cellCode[CT_VAL][i]) simFail(D_ARGS, "the caller's object %d is %d instead of %d after %s", i, S->cellVal[i].code, S->cellCode[CT_VAL][i], when);
    }
}

static void setOuts(const Frame &f, int v, int mask) {
    auto &d = classes()[S->mocks[f.slot].cls].methods[f.method];
    for (size_t i = 0; i < f.args.size(); i++) if (pkOut(d.pars[i]) && (mask >> i & 1)) { S->cellCode[f.args[i].ctype][f.args[i].v] = outAt(v, (int) i); probe(P_OUT); }
}

static bool recordedNow(int slot, int method, size_t &count);

static ExpEvent unexpectedEvent(const Frame &f, int kind) {
    ExpEvent x;
    x.type = 0; x.kind = kind; x.slot = f.slot; x.method = f.method; x.args = f.args;
    return x;
}

static void checkUnexpectedOutcome(const Frame &f, const Outcome &o, int kind, bool lenient) {
    ExpEvent x = unexpectedEvent(f, kind);
    checkEvents(x, lenient);
    int thrower = -1;
    for (int i = 0; i < S->nlisteners && thrower < 0; i++) if (S->listenerThrows[i]) thrower = i;
    const char *mn = methodName(S->mocks[f.slot], f.method);
    if (lenient && o.k == Outcome::BADALLOC) return;
    if (thrower >= 0) { if (o.k != Outcome::LISTENER || o.code != thrower) simFail(D_EXCEPTION, "exception of a listener did not reach the caller of %s: it %s", mn, outcomeText(o).c_str()); return; }
    if (S->adapterMode == 2) { probe(P_ADAPTER_THROW); if (o.k != Outcome::ADAPTER) simFail(D_EVENT, "call of %s with a throwing adapter %s", mn, outcomeText(o).c_str()); return; }
    if (S->adapterMode == 1) probe(P_ADAPTER_RETURN);
    if (o.k != Outcome::UNEXPECTED) simFail(o.k == Outcome::RET ? D_DISPATCH : D_EXCEPTION, "unexpected call of %s(%s) %s", mn, argText(f.args).c_str(), outcomeText(o).c_str());
    if (S->formatter) { probe(P_FORMATTER); if (o.text != "CUSTOM unexpected") simFail(D_EVENT, "message of the unexpected call is '%s' although a custom formatter is in force", o.text.c_str()); }
    else if (o.text.find("CUSTOM") != std::string::npos) simFail(D_EVENT, "a formatter no longer in force was used");
    else {
        std::string want = "Unexpected method invocation: " + (kind == 1 ? callText(S->mocks[f.slot], f.method, f.args) : std::string("unknown()")) +
                           (kind == 1 ? "\n  Could not find any recorded behavior to support this method call." : "\n  An unmocked method was invoked. All used virtual methods must be stubbed!");
        if (o.text != want && !lenient) simFail(D_TEXT, "the message of an unexpected call is [%s] instead of [%s]", o.text.c_str(), want.c_str());
        probe(P_TEXT);
    }
}

static void notePosition(int cls, int method) {
    unsigned n = (unsigned) ((cls - CL_COUNT) * 1024 + method);
    if (g_shared && g_counting && n / 8 < sizeof g_shared->positions) g_shared->positions[n / 8] |= (unsigned char) (1 << n % 8);
}

static Outcome checkedCall(int slot, int obj, int method, const std::vector<ArgVal> &args, int fault, int faultN) {
    HarnessScope hs;
    EventScope es;
    S->budget--;
    probe(P_CALL);
    if (S->anyVerification) probe(P_CALL_AFTER_VERIFY);
    if (g_shared && g_counting) g_shared->calls++;
    Frame f;
    f.slot = slot; f.obj = obj; f.method = method; f.args = args;
    int cls = slot >= 0 ? S->mocks[slot].cls : CL_LEAF;
    f.gen = slot >= 0 ? S->mocks[slot].gen : 0;
    const MethodDesc &d = classes()[cls].methods[method];
    for (auto fr : S->frames) if (slot >= 0 && fr->slot == slot && fr->method == method) { probe(P_REENTRANT); countFault(FI_REENTRY); break; }
    logText("call slot=%d %s(%s)%s", slot, d.name, argText(args).c_str(), fault ? " with fault" : "");
    // arm
    S->faultFired = false; S->predEvaluated = false;
    int savedFault = S->fault, savedN = S->faultN, savedSerial = S->faultSerial;
    S->fault = F_NONE;
    if (slot < 0 && fault) fault = F_NONE;
    if (S->unwinding && (fault == F_COPY || fault == F_ALLOC)) fault = F_NONE; // whether the call was recorded cannot be looked up then
    if (fault == F_PRED) {
        // the faultN-th newest condition written as a predicate
        S->faultSerial = 0;
        int k = faultN < 0 ? -faultN : faultN;
        std::vector<int> preds;
        for (auto &s : S->mocks[slot].m[method].stubs) if (s.m.hasPred()) preds.push_back(s.serial);
        if (preds.empty()) fault = F_NONE; else { S->faultSerial = preds[k % preds.size()]; S->fault = F_PRED; }
    } else if (fault == F_COPY || fault == F_CMP) { S->fault = fault; S->faultN = 1 + (faultN < 0 ? -faultN : faultN) % 6; }
    size_t histBefore = S->hist.size();
    f.e = beginCall(f);
    std::vector<long> usedBefore;
    if (f.e.stub >= 0 && f.e.k != Expect::ORIGINAL) for (auto &c : f.e.cand) usedBefore.push_back(c.first);
    void *o = slot >= 0 ? S->mocks[slot].box->object() : (void *) (Leaf *) &S->objs[obj];
    if (slot >= 0) S->mocks[slot].pins++;
    S->frames.push_back(&f);
    if (fault == F_ALLOC) arenaArm(1 + (faultN < 0 ? -faultN : faultN) % 14);
    Outcome out;
    out = d.call(o, args.data());
    bool allocFired = false;
    if (fault == F_ALLOC) { allocFired = arenaFired() && arenaArmed() == 0; arenaArm(0); if (allocFired) { countFault(F_ALLOC); probe(P_FAULT_ALLOC); } }
    S->frames.pop_back();
    if (slot >= 0) S->mocks[slot].pins--;
    bool fired = S->faultFired;
    S->fault = savedFault; S->faultN = savedN; S->faultSerial = savedSerial;
    logText("outcome %s", outcomeText(out).c_str());

    auto name = [&] { return std::string(d.name) + "(" + argText(args) + ")"; };
    auto undo = [&] { // the call had no effect
        if (f.e.uid) eraseInv(f.e.uid);
        if (!usedBefore.empty()) { auto &u = S->mocks[slot].m[method].stubs[f.e.stub].used; u.clear(); for (long c : usedBefore) u.push_back(c); }
    };
    auto resync = [&] { // recorded or not: look, and let the number of used actions follow
        size_t n = 0;
        if (f.e.uid == 0) return;
        if (!recordedNow(slot, method, n)) { undo(); return; }
        size_t want = histCount(f.gen, method);
        if (n == want) { argumentsMoved(f); return; }
        if (n + 1 == want) { undo(); return; }
        simFail(D_HISTORY, "after a fault in %s its mock has %zu recorded calls of the method instead of %zu or %zu", name().c_str(), n, want - 1, want);
    };

    // --- condition threw
    if (f.e.predArmedReached) {
        if (out.k != Outcome::FAULT) simFail(D_EXCEPTION, "exception of a condition did not reach the caller of %s: it %s", name().c_str(), outcomeText(out).c_str());
        probe(P_FAULT_PRED);
        checkEvents(ExpEvent());
        checkCells("a failed call");
        return out;
    }
    if (out.k == Outcome::FAULT) {
        if (!fired) simFail(D_EXCEPTION, "call of %s threw a fault that was not injected", name().c_str());
        if (out.code == F_PRED) { undo(); probe(P_FAULT_PRED); checkEvents(ExpEvent()); return out; }
        probe(out.code == F_COPY ? P_FAULT_COPY : P_FAULT_CMP);
        checkEvents(ExpEvent());
        if (f.entered) return out;      // the action had started: recorded and used
        if (out.code == F_CMP) { undo(); return out; }
        if (!f.e.cand.empty() && f.e.cand[0].second >= 0) resync(); else undo();
        checkCells("a failed call");
        return out;
    }
    if (fired && out.k == Outcome::OTHER) simFail(D_EXCEPTION, "the exception thrown while copying or comparing reached the caller of %s as something else: it %s", name().c_str(), outcomeText(out).c_str());
    // --- memory ran out
    if (out.k == Outcome::BADALLOC) {
        if (!allocFired) simFail(D_EXCEPTION, "call of %s threw bad_alloc although no allocation failed", name().c_str());
        if (f.entered) { return out; }
        for (auto &c : f.e.cand) { // return-and-set may have got part of the way
            if (c.second < 0) continue;
            const MAct &x = S->mocks[slot].m[method].stubs[f.e.stub].acts[c.second];
            if (x.what != MAct::RETSET) continue;
            for (size_t i = 0; i < args.size(); i++) if (pkOut(d.pars[i]) && args[i].ref && (x.outMask >> i & 1) && cellNow(args[i].ctype, args[i].v) == outAt(x.outVal, (int) i)) S->cellCode[args[i].ctype][args[i].v] = outAt(x.outVal, (int) i);
        }
        if (f.e.uid) {
            size_t n = 0;
            bool can = recordedNow(slot, method, n);
            size_t want = histCount(f.gen, method);
            argumentsMoved(f);
            if (can && n + 1 == want) eraseInv(f.e.uid);
            else if (can && n != want) simFail(D_HISTORY, "after bad_alloc in %s its mock has %zu recorded calls of the method instead of %zu or %zu", name().c_str(), n, want - 1, want);
            auto &u = S->mocks[slot].m[method].stubs[f.e.stub].used;
            std::set<long> c(u.begin(), u.end());
            for (long x : usedBefore) c.insert(x);
            u.assign(c.begin(), c.end());
        }
        checkEvents(unexpectedEvent(f, 0), true);
        return out;
    }
    bool unexpected = out.k == Outcome::UNEXPECTED || out.k == Outcome::ADAPTER || out.k == Outcome::LISTENER;
    switch (f.e.k) {
        case Expect::ORIGINAL:
            if (!f.entered) simFail(D_DISPATCH, "call of %s did not run the object's own code: it %s", name().c_str(), outcomeText(out).c_str());
            break;
        case Expect::UNMOCKED: probe(P_UNMOCKED); checkUnexpectedOutcome(f, out, 0, allocFired); return out;
        case Expect::UNMATCHED: probe(P_UNMATCHED); checkUnexpectedOutcome(f, out, 1, allocFired); return out;
        case Expect::EXHAUSTED: probe(P_EXHAUSTED); if (out.k == Outcome::RET || out.k == Outcome::EXC) simFail(D_ACTION, "call of %s after all actions were used up %s", name().c_str(), outcomeText(out).c_str());
            checkUnexpectedOutcome(f, out, 1, allocFired); return out;
        case Expect::NOOP: break;
        case Expect::ACT: break;
    }
    if (f.e.k == Expect::ACT && !f.entered) {
        if (unexpected) {
            bool mayExhaust = false;
            for (auto &c : f.e.cand) if (c.second < 0) mayExhaust = true;
            if (mayExhaust) { keepCandidates(f, [](const MAct *x) { return !x; }); checkUnexpectedOutcome(f, out, 1, allocFired); return out; }
            simFail(D_UNANSWERED, "call of %s %s instead of being answered by %s", name().c_str(), outcomeText(out).c_str(), describeExpected(f).c_str());
        }
        std::string want = describeExpected(f);
        // actions without a callback are told apart by what they return or throw
        MStub &s = S->mocks[slot].m[method].stubs[f.e.stub];
        keepCandidates(f, [&](const MAct *x) {
            if (!x || x->callback) return false;
            if (x->what == MAct::THROW) return out.k == Outcome::EXC && out.sub == x->exType && out.code == x->token;
            if (out.k != Outcome::RET) return false;
            if (x->what == MAct::RETDEF) return out.code == rkDefault(d.ret);
            return out.code == rkNorm(d.ret, x->token);
        });
        if (f.e.cand.empty()) {
            bool same = false, other = false;
            if (out.k == Outcome::EXC) { // every thrown code is the token of one action
                auto it = S->stubOfToken.find(out.code);
                if (it != S->stubOfToken.end()) (it->second == s.serial ? same : other) = true;
            } else if (out.k == Outcome::RET) {
                auto says = [&](const MAct &x) { return x.what != MAct::THROW && (x.what == MAct::RETDEF ? rkDefault(d.ret) : rkNorm(d.ret, x.token)) == out.code; };
                for (auto &x : S->mocks[slot].m[method].stubs) for (auto &y : x.acts) if (says(y)) (x.serial == s.serial ? same : other) = true;
                auto it = S->stubOfToken.find(out.code);
                if (!same && it != S->stubOfToken.end() && it->second != s.serial) other = true;
            }
            simFail(same ? D_ACTION : other ? D_DISPATCH : out.k == Outcome::RET ? D_RESULT : D_EXCEPTION, "call of %s %s instead of being answered by %s", name().c_str(), outcomeText(out).c_str(), want.c_str());
        }
        const MAct *a = theAct(f);
        if (a->what == MAct::THROW) { probe(P_EXC_ACT); countFault(FI_ACTION_THROW); }
        if (a->what == MAct::RETSET) setOuts(f, a->outVal, a->outMask);
        if (a->qty != 1) probe(a->qty < 0 ? P_ALWAYS : P_QTY);
    } else if (f.entered && f.e.k == Expect::ACT && theAct(f)->what != MAct::ORIG) {
        const MAct *a = theAct(f);
        if (f.willThrow) {
            probe(P_EXC_ACT);
            if (out.k != Outcome::EXC || out.sub != f.throwType || out.code != f.throwCode)
                simFail(D_EXCEPTION, "exception %d of the action did not reach the caller of %s unchanged: it %s", f.throwCode, name().c_str(), outcomeText(out).c_str());
        } else {
            if (out.k != Outcome::RET || out.code != rkNorm(d.ret, a->token)) simFail(D_RESULT, "call of %s %s instead of returning %d", name().c_str(), outcomeText(out).c_str(), rkNorm(d.ret, a->token));
            if (a->flags & 2) setOuts(f, a->outVal, ~0);
        }
        if (a->qty != 1) probe(a->qty < 0 ? P_ALWAYS : P_QTY);
    } else if (f.entered) { // own code ran
        if (f.willThrow) {
            if (out.k != Outcome::EXC || out.sub != f.throwType || out.code != f.throwCode)
                simFail(D_EXCEPTION, "exception of the object's own code did not reach the caller of %s unchanged: it %s", name().c_str(), outcomeText(out).c_str());
        } else if (out.k != Outcome::RET || out.code != rkNorm(d.ret, f.origCode)) simFail(D_RESULT, "call of %s %s instead of returning the own result %d", name().c_str(), outcomeText(out).c_str(), rkNorm(d.ret, f.origCode));
    }
    if (out.k == Outcome::RET) {
        probe(P_ANSWERED);
        if (cls >= CL_COUNT + GEN_PLAIN) { probe(P_DRAWN); notePosition(cls, method); }
        if (d.ret == RK_UP) probe(P_MOVEONLY);
        if (d.ret == RK_INTREF || d.ret == RK_VALREF) probe(P_REFRET);
    }
    checkEvents(ExpEvent());
    checkCells("a call");
    (void) histBefore;
    return out;
}

// ------------------------------------------------------------------------------------------------ verification helpers
namespace {
struct Leaf_ { int slot, method; MatchSpec m; CtxBox *box; };
struct Elem { std::vector<int> leaves; };       // adjacent leaves, by index
bool leafMatches(const Leaf_ &l, const Inv &i) {
    if (i.gen != S->mocks[l.slot].gen || i.method != l.method) return false;
    return matchesArgs(l.m, S->mocks[l.slot], l.method, i.args);
}
struct Verdict { int count = 0; bool pass = false; std::vector<uint64_t> matched; bool partial = false; };
Verdict evaluate(const std::vector<Inv> &seq, const std::vector<Leaf_> &leaves, const std::vector<Elem> &pattern) {
    Verdict v;
    size_t pos = 0;
    for (;;) {
        std::vector<uint64_t> cur;
        size_t p = pos;
        bool ok = true;
        for (auto &e : pattern) {
            size_t len = e.leaves.size();
            bool found = false;
            for (; p + len <= seq.size(); p++) {
                bool all = true;
                for (size_t k = 0; k < len && all; k++) all = leafMatches(leaves[e.leaves[k]], seq[p + k]);
                if (all) { found = true; break; }
            }
            if (!found) { ok = false; break; }
            for (size_t k = 0; k < len; k++) cur.push_back(seq[p + k].uid);
            p += len;
        }
        if (!ok) { v.partial = !cur.empty(); break; }
        v.count++;
        v.matched.insert(v.matched.end(), cur.begin(), cur.end());
        pos = p;
    }
    return v;
}
}

// the history of one mock as a user can see it: a verification that cannot pass, reported to a collecting adapter
static bool recordedNow(int slot, int method, size_t &count) {
    MMock &m = S->mocks[slot];
    if (!m.alive || S->unwinding) return false;
    HarnessScope hs;
    CtxBox *c = method == DTOR ? m.box->dtorCtx(0) : CD(m).methods[method].ctx(*m.box, 0);
    S->auditing = true;
    size_t before = S->auditEvents.size();
    {
        LibScope l;
        auditAdapter();
        Using(c->src()).Verify(c->seq()).Exactly(1000000);
    }
    S->auditing = false;
    applyAdapter();
    { LibScope l; delete c; }
    if (S->auditEvents.size() != before + 1) simFail(D_EVENT, "a failing verification delivered %zu reports to the adapter", S->auditEvents.size() - before);
    count = S->auditEvents.back().seq.size();
    S->auditEvents.clear();
    S->auditFlags.clear();
    return true;
}

static void audit(bool joint = true) {
    if (S->unwinding) return;
    if (S->top < S->ntop && S->auditBudget <= 0) return; // long histories are looked at less often
    S->auditBudget -= (long) S->hist.size();
    HarnessScope hs;
    probe(P_AUDIT);
    std::vector<int> live;
    for (int i = 0; i < MAXSLOT; i++) if (S->mocks[i].alive) live.push_back(i);
    for (int i = 0; i < NOBJ; i++) if (S->objs[i].state != S->objState[i] || S->objs[i].pad != 0x5ca1ab1e || S->objs[i].tail != 0x7a11 || S->objs[i].text != "text that does not fit into the small buffer")
        simFail(D_STATE, "data of real object %d changed", i);
    checkCells("an operation");
    for (int s : live) {
        MMock &m = S->mocks[s];
        if (!CD(m).members) continue;
        for (int w = 0; w < 3; w++) {
            int want = m.mem[w].stubbed ? m.mem[w].value : (w == 1 ? -1 : 0);
            int got = m.box->readMember(w);
            if (got != want) simFail(D_MEMBER, "data member %d of mock %d reads %d instead of %d", w, s, got, want);
        }
    }
    if (live.empty()) return;
    // joint history of all mocks, then each mock on its own
    for (size_t pass = joint && S->joint ? 0 : 1; pass <= live.size(); pass++) {
        if (pass == 1 && live.size() == 1 && joint && S->joint) break;
        std::vector<int> who = pass == 0 ? live : std::vector<int>{live[pass - 1]};
        CtxBox *c = CD(S->mocks[who[0]]).methods[0].ctx(*S->mocks[who[0]].box, (int) pass);
        S->auditing = true;
        {
            LibScope l;
            auditAdapter();
            auto b = [&](size_t i) -> const ActualInvocationsSource & { return S->mocks[who[i]].box->src(); };
            switch (who.size()) {
                case 1: Using(b(0)).Verify(c->seq()).Exactly(1000000); break;
                case 2: Using(b(0), b(1)).Verify(c->seq()).Exactly(1000000); break;
                case 3: Using(b(0), b(1), b(2)).Verify(c->seq()).Exactly(1000000); break;
                case 4: Using(b(0), b(1), b(2), b(3)).Verify(c->seq()).Exactly(1000000); break;
                case 5: Using(b(0), b(1), b(2), b(3), b(4)).Verify(c->seq()).Exactly(1000000); break;
                case 6: Using(b(0), b(1), b(2), b(3), b(4), b(5)).Verify(c->seq()).Exactly(1000000); break;
                case 7: Using(b(0), b(1), b(2), b(3), b(4), b(5), b(6)).Verify(c->seq()).Exactly(1000000); break;
                default: Using(b(0), b(1), b(2), b(3), b(4), b(5), b(6), b(7)).Verify(c->seq()).Exactly(1000000); break;
            }
        }
        S->auditing = false;
        applyAdapter();
        { LibScope l; delete c; }
        if (S->auditEvents.size() != 1) simFail(D_EVENT, "a failing verification delivered %zu reports to the adapter", S->auditEvents.size());
        EventRec r = S->auditEvents[0];
        std::vector<bool> flags = S->auditFlags[0];
        S->auditEvents.clear();
        S->auditFlags.clear();
        std::vector<Inv> want;
        for (auto &i : S->hist) for (int s : who) if (i.gen == S->mocks[s].gen) want.push_back(i);
        std::string wanted;
        for (auto &i : want) wanted += " " + invText(i) + "(" + argText(i.args) + ")";
        logText("audit %zu: %s", pass, joinNames(r.seq).c_str());
        if (r.seq.size() != want.size()) simFail(D_HISTORY, "%zu calls are recorded instead of %zu; recorded: %s; made:%s", r.seq.size(), want.size(), joinNames(r.seq).c_str(), wanted.c_str());
        for (size_t i = 0; i < want.size(); i++)
            if (!invTextAgrees(r.seq[i], want[i])) simFail(D_HISTORY, "recorded call %zu is %s; recorded: %s; made:%s", i, r.seq[i].c_str(), joinNames(r.seq).c_str(), wanted.c_str());
        for (size_t i = 0; i < want.size(); i++)
            if (flags[i] != want[i].verified) simFail(D_MARK, "recorded call %zu (%s) is %s as verified", i, r.seq[i].c_str(), flags[i] ? "marked" : "not marked");
    }
    // arguments as recorded
    for (int s : live) {
        MMock &m = S->mocks[s];
        for (int k = 0; k < (int) CD(m).methods.size(); k++) {
            size_t n = histCount(m.gen, k);
            if (!n || CD(m).methods[k].pars.empty()) continue;
            bool unknown = false;
            for (auto &i : S->hist) if (i.gen == m.gen && i.method == k && i.unknownArgs) unknown = true;
            if (unknown) continue;
            std::vector<std::vector<int>> seen;
            CtxBox *c = CD(m).methods[k].ctx(*m.box, 1);
            c->capture(seen, nullptr);
            S->auditing = true;
            {
                LibScope l;
                auditAdapter();
                Verify(c->seq()).Exactly(1000000);
            }
            S->auditing = false;
            applyAdapter();
            { LibScope l; delete c; }
            S->auditEvents.clear();
            S->auditFlags.clear();
            std::vector<std::vector<int>> want;
            for (auto &i : S->hist) if (i.gen == m.gen && i.method == k) { std::vector<int> v; for (auto &a : i.args) v.push_back(argCode(a)); want.push_back(v); }
            bool ok = !want.empty() && seen.size() % want.size() == 0 && seen.size() >= want.size();
            for (size_t i = 0; ok && i < seen.size(); i++) ok = seen[i] == want[i % want.size()];
            if (!ok) {
                std::string a, b;
                for (auto &v : seen) { a += " ("; for (int x : v) a += std::to_string(x) + " "; a += ")"; }
                for (auto &v : want) { b += " ("; for (int x : v) b += std::to_string(x) + " "; b += ")"; }
                simFail(seen.size() == want.size() ? D_ARGS : D_HISTORY, "recorded arguments of %s are%s instead of%s", CD(m).methods[k].name, a.c_str(), b.c_str());
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ operations
static void destroyMock(int s) {
    MMock &m = S->mocks[s];
    if (!m.alive) return;
    int obj = m.obj;
    logText("destroy mock %d", s);
    delete m.box;
    m.box = nullptr;
    m.alive = false;
    eraseMock(m.gen);
    probe(P_MOCKDEL);
    if (obj >= 0) {
        S->objMock[obj] = -1;
        Leaf *volatile p = &S->objs[obj];
        if (typeid(*p) != typeid(LeafD)) simFail(D_STATE, "object %d does not have its own type back after the mock was destroyed", obj);
        probe(P_RESTORED);
    }
}

static void opNewMock(const Op &op) {
    int s = slotOf(op.P(0));
    MMock &m = S->mocks[s];
    if (m.alive) return;
    int ncls = (int) classes().size(), cls = ((op.P(1) % ncls) + ncls) % ncls;
    int obj = -1;
    if (op.P(2) > 0 && classes()[cls].spyable) {
        obj = (op.P(2) - 1) % NOBJ;
        if (S->objMock[obj] >= 0) return;
    }
    m = MMock();
    m.cls = cls;
    m.gen = S->nextGen++;
    m.obj = obj;
    m.m.resize(classes()[cls].methods.size());
    m.inOriginal.resize(classes()[cls].methods.size(), 0);
    logText("new mock %d class %s%s", s, classes()[cls].name, obj >= 0 ? " (spy)" : "");
    m.box = classes()[cls].create(obj >= 0 ? (void *) (Leaf *) &S->objs[obj] : nullptr);
    m.alive = true;
    if (obj >= 0) {
        S->objMock[obj] = s;
        if (m.box->object() != (void *) (Leaf *) &S->objs[obj]) simFail(D_STATE, "get() of a spying mock is not the wrapped object");
    }
    int live = 0;
    for (auto &x : S->mocks) live += x.alive;
    if (live == 2) probe(P_MOCKS2);
    if (live == 3) probe(P_MOCKS3);
    if (live == 6) probe(P_CROWD);
}


// turns the ACT children into model actions and phrases; stops after a terminating action
static void buildActs(const Op &op, const MMock &m, int method, bool dtorMayThrow, std::vector<ActRT> &rt, std::vector<MAct> &model, int maxActs) {
    int ret = method == DTOR ? (int) RK_VOID : CD(m).methods[method].ret;
    unsigned caps = method == DTOR ? (unsigned) CAP_COPYABLE_RET : CD(m).methods[method].caps;
    for (auto &c : op.s) {
        if (c.k != O_ACT || (int) rt.size() >= maxActs) continue;
        ActRT a;
        a.form = ((c.P(0) % A_FORMS) + A_FORMS) % A_FORMS;
        a.exType = ((c.P(3) % EX_TYPES) + EX_TYPES) % EX_TYPES;
        a.qty = c.P(1) < 0 ? -c.P(1) : c.P(1);
        a.out = pkNorm(PK_INT, c.P(5));
        a.n = c.P(6) % 2 ? 3 : 2;
        a.variant = (c.P(6) >> 1) & 7;
        int flags = c.P(4) & 3;
        if (!rkHasDefault(ret)) { if (a.form == A_RETDEF) a.form = A_RET; if (a.form == A_ALWRETDEF) a.form = A_ALWRET; }
        bool dtor = method == DTOR;
        if (dtor && !dtorMayThrow) { flags &= ~1; if (a.form == A_THROW || a.form == A_THROWQ || a.form == A_THROWM) a.form = A_DO; if (a.form == A_ALWTHROW) a.form = A_ALWDO; }
        if (!(caps & CAP_RETSET)) { if (a.form == A_RETSET) a.form = A_DO; if (a.form == A_ALWRETSET) a.form = A_ALWDO; }
        MAct x;
        x.exType = a.exType; x.flags = flags; x.outVal = a.out; x.script = &c;
        if (a.form == A_RETSET || a.form == A_ALWRETSET) x.outMask = retSetMask(method == DTOR ? 0 : (int) CD(m).methods[method].pars.size(), a.variant);
        bool vd = ret == RK_VOID, refRet = ret == RK_INTREF || ret == RK_VALREF, up = ret == RK_UP;
        int copies = 1;
        switch (a.form) {
            case A_RET: x.what = vd ? MAct::RETDEF : MAct::RETV; break;
            case A_RETQ: if (refRet || up) { x.what = MAct::DO; x.callback = true; } else x.what = vd ? MAct::RETDEF : MAct::RETV; x.qty = a.qty; break;
            case A_RETM: copies = a.n; if (vd || refRet || up) { x.what = MAct::DO; x.callback = true; } else x.what = MAct::RETV; break;
            case A_RETDEF: x.what = MAct::RETDEF; break;
            case A_THROW: x.what = MAct::THROW; break;
            case A_THROWQ: x.what = MAct::THROW; x.qty = a.qty; break;
            case A_THROWM: x.what = MAct::THROW; copies = a.n; break;
            case A_DO: x.what = MAct::DO; x.callback = true; break;
            case A_DOQ: x.what = MAct::DO; x.callback = true; x.qty = a.qty; break;
            case A_DOM: x.what = MAct::DO; x.callback = true; copies = a.n; break;
            case A_RETSET: x.what = MAct::RETSET; break;
            case A_ALWRET: if (up) { x.what = MAct::DO; x.callback = true; } else x.what = vd ? MAct::RETDEF : MAct::RETV; x.qty = -1; break;
            case A_ALWRETDEF: x.what = MAct::RETDEF; x.qty = -1; break;
            case A_ALWTHROW: x.what = MAct::THROW; x.qty = -1; break;
            case A_ALWDO: x.what = MAct::DO; x.callback = true; x.qty = -1; break;
            case A_ALWRETSET: x.what = MAct::RETSET; x.qty = -1; break;
        }
        if (x.qty == 0) probe(P_QTY0);
        for (int i = 0; i < copies; i++) {
            MAct y = x;
            y.token = S->nextToken++;
            a.tok[i] = y.token;
            if (a.form == A_THROWM) y.exType = i == 0 ? EX_USER : i == 1 ? EX_DERIVED : EX_INT;
            model.push_back(y);
        }
        rt.push_back(a);
        if (a.form > A_LASTFINITE) break;
    }
}

static void finishStub(MMock &m, int method, const MatchSpec &ms, const std::vector<MAct> &acts, const Op *cond) {
    MStub st;
    st.serial = ms.serial;
    st.m = ms;
    st.acts = acts;
    st.cond = cond;
    for (auto &a : acts) { if (a.callback) S->actByToken[a.token] = a; S->stubOfToken[a.token] = ms.serial; }
    methodOf(m, method).stubs.push_back(st);
    if (m.wasReset) probe(method == DTOR ? P_DTOR_RESET : P_RESTUB);
    if (!S->frames.empty()) probe(P_STUB_IN_ACTION);
}

// a class without a virtual destructor has none to stub
static void refuseDtor(MMock &m) {
    EventScope es;
    probe(P_REFUSED);
    if (!m.box->refusesDtor()) simFail(D_DTOR, "stubbing the destructor of class %s, which has no virtual one, was not refused", CD(m).name);
    checkEvents(ExpEvent());
}

static void opStub(const Op &op) {
    int s = slotOf(op.P(0));
    MMock &m = S->mocks[s];
    if (!m.alive || S->unwinding) return;
    int method = op.P(1) == DTOR ? DTOR : methodIn(m, op.P(1));
    if (method == DTOR && !CD(m).hasDtor) { refuseDtor(m); return; }
    for (auto f : S->frames) if (f->slot == s && f->method == DTOR) return;
    EventScope es;
    MatchSpec ms = readMatch(op, 3);
    normMatch(ms, m, method);
    ms.serial = S->nextSerial++;
    statedAsPredicate(ms, m, method);
    PhraseRT ph;
    ph.style = ((op.P(2) % ST_STYLES) + ST_STYLES) % ST_STYLES;
    unsigned caps = method == DTOR ? (unsigned) CAP_COPYABLE_RET : CD(m).methods[method].caps;
    int ret = method == DTOR ? (int) RK_VOID : CD(m).methods[method].ret;
    if ((ph.style == ST_SPY || ph.style == ST_SPYWV) && m.obj < 0) ph.style = ST_NAMED;
    if (method != DTOR && ph.style == ST_SPY && !(caps & CAP_SPY)) ph.style = ST_SPYWV;
    if (ph.style == ST_FAKE && !rkHasDefault(ret)) ph.style = ST_NAMED;
    if (ph.style == ST_FAKE && ret == RK_UP) ph.style = ST_NAMED;
    std::vector<MAct> acts;
    bool single = ph.style == ST_ASSIGN_FN || ph.style == ST_ASSIGN_VAL;
    if (ph.style == ST_FAKE || (method == DTOR && ph.style >= ST_SPY)) { MAct a; a.what = MAct::RETDEF; a.qty = -1; acts.push_back(a); }
    else if (ph.style == ST_SPY || ph.style == ST_SPYWV) { MAct a; a.what = MAct::ORIG; a.qty = -1; a.token = S->nextToken++; a.callback = true; a.moves = ph.style == ST_SPYWV; acts.push_back(a); }
    else if (single) {
        Op c(O_ACT);
        const Op *src = nullptr;
        for (auto &x : op.s) if (x.k == O_ACT) { src = &x; break; }
        MAct a;
        a.qty = -1;
        a.token = S->nextToken++;
        a.script = src;
        if (src) { a.exType = ((src->P(3) % EX_TYPES) + EX_TYPES) % EX_TYPES; a.flags = src->P(4) & 3; a.outVal = pkNorm(PK_INT, src->P(5)); }
        if (method == DTOR && !CD(m).dtorMayThrow) a.flags &= ~1;
        bool plain = ph.style == ST_ASSIGN_VAL && ret != RK_VOID && ret != RK_INTREF && ret != RK_VALREF && ret != RK_UP;
        a.what = plain ? MAct::RETV : MAct::DO;
        a.callback = !plain;
        if (plain) a.flags = 0;
        acts.push_back(a);
        ActRT r;
        r.tok[0] = a.token;
        ph.acts.push_back(r);
    } else buildActs(op, m, method, method == DTOR && CD(m).dtorMayThrow, ph.acts, acts, 12);
    if (method == DTOR && (ph.style == ST_ASSIGN_VAL)) ph.style = ST_ASSIGN_FN;
    if (method == DTOR && !CD(m).dtorMayThrow && acts.empty() == false && acts.back().qty >= 0) {
        // a destructor that must not throw needs an action for every call
        ActRT r; r.form = A_ALWDO; r.tok[0] = S->nextToken++;
        MAct a; a.what = MAct::DO; a.callback = true; a.qty = -1; a.token = r.tok[0];
        ph.acts.push_back(r); acts.push_back(a);
    }
    if (method == DTOR && !CD(m).dtorMayThrow && acts.empty()) return;
    if (!single && ph.style < ST_FAKE) {
        ph.interruptAt = op.P(10) <= 0 ? 0 : 1 + (op.P(10) - 1) % ((int) ph.acts.size() + 1);
        for (auto &c : op.s) if (c.k == O_HOLD && !c.s.empty() && S->depth < MAXDEPTH) {
            const Op *h = &c;
            ph.hold = [h] { runHeld(*h); };
        }
        if (ph.style == ST_COPIES) probe(P_COPIES);
    }
    bool committed = false;
    ph.atEnd = [&] { committed = true; };
    logText("stub slot=%d %s style=%d match=%d acts=%zu%s", s, methodName(m, method), ph.style, ms.shape, acts.size(), ph.interruptAt ? " interrupted" : "");
    int copyFault = op.P(11);
    if (copyFault > 0) { S->fault = F_COPY; S->faultN = copyFault; S->faultFired = false; }
    m.pins++;
    Outcome out;
    CtxBox *c = nullptr;
    try {
        c = method == DTOR ? m.box->dtorCtx(op.P(12)) : CD(m).methods[method].ctx(*m.box, op.P(12));
        c->match(ms);
        c->when(ph);
    } catch (...) { out = currentExceptionOutcome(); }
    S->fault = F_NONE;
    m.pins--;
    if (out.k == Outcome::RET) {
        if (ph.interruptAt) simFail(D_PHRASE, "the exception interrupting a stubbing phrase of %s was lost", methodName(m, method));
        const Op *cond = nullptr;
        if (ms.hasPred()) for (auto &x : op.s) if (x.k == O_COND) cond = &x;
        finishStub(m, method, ms, acts, cond);
    } else if (out.k == Outcome::INTERRUPT && ph.interruptAt) { probe(P_INTERRUPT_STUB); countFault(FI_INTERRUPT); }
    else if (out.k == Outcome::FAULT && S->faultFired) { countFault(FI_INTERRUPT); probe(P_INTERRUPT_STUB); }
    else simFail(D_PHRASE, "stubbing phrase of %s %s", methodName(m, method), outcomeText(out).c_str());
    (void) committed;
    { LibScope l; delete c; }
    checkEvents(ExpEvent());
}

// several methods faked or spied on by one phrase
static int g_ownRuns, g_ownDestroyed;
static int ownValue(int method, int a, int b) { return 50000 + method * 200 + (a * 10 + b); }
int simOwn(int method, int a, int b) {
    if (method < 0) return ++g_ownDestroyed;
    g_ownRuns++;
    return ownValue(method, a, b);
}

// an object of a drawn class: spied on, stubbed, reset and released, its other methods being its own throughout
static void opReal(const Op &op) {
    int ncls = (int) classes().size(), cls = ((op.P(0) % ncls) + ncls) % ncls;
    const ClassDesc &cd = classes()[cls];
    if (!cd.real || !S->frames.empty() || S->unwinding) return;
    logText("object of class %s", cd.name);
    void *obj = cd.real(nullptr);
    MockBox *box = nullptr;
    std::map<int, int> stubbed; // method: what it returns, -1: its own result
    auto index = [&](const Op &o) { int n = (int) cd.methods.size(); return ((o.P(1) % n) + n) % n; };
    auto call = [&](int k, int a, int b) {
        ArgVal args[2];
        args[0].v = pkNorm(PK_INT, a);
        args[1].v = pkNorm(PK_INT, b);
        int before = g_ownRuns;
        Outcome out = cd.methods[k].call(obj, args);
        auto it = stubbed.find(k);
        bool own = it == stubbed.end() || it->second < 0;
        int want = own ? ownValue(k, args[0].v, cd.methods[k].pars.size() > 1 ? args[1].v : 0) : it->second;
        if (out.k != Outcome::RET || out.code != want) simFail(D_STATE, "%s of a real object of class %s %s instead of returning %d", cd.methods[k].name, cd.name, outcomeText(out).c_str(), want);
        if (g_ownRuns != before + own) simFail(D_STATE, "own code of %s of class %s ran %d times", cd.methods[k].name, cd.name, g_ownRuns - before);
        probe(P_DRAWN_REAL);
        if (cls >= CL_COUNT + GEN_PLAIN) notePosition(cls, k);
    };
    auto release = [&] { delete box; box = nullptr; stubbed.clear(); };
    std::set<int> named;
    for (auto &o : op.s) {
        switch (o.k) {
            case O_NEWMOCK: if (!box) { logText("mock of it"); box = cd.create(obj); if (box->object() != obj) simFail(D_STATE, "get() of a spying mock is not the wrapped object"); } break;
            case O_DELMOCK: logText("mock released"); release(); break;
            case O_RESET: if (box) { logText("reset"); box->reset(); stubbed.clear(); } break;
            case O_STUB: {
                if (!box) break;
                int k = index(o);
                named.insert(k);
                PhraseRT ph;
                ActRT r;
                r.form = A_ALWRET;
                r.tok[0] = S->nextToken++;
                ph.style = o.P(2) & 1 ? ST_SPY : ST_NAMED;
                ph.acts.push_back(r);
                logText("stub %d %s", k, cd.methods[k].name);
                CtxBox *c = cd.methods[k].ctx(*box, o.P(3));
                c->when(ph);
                delete c;
                stubbed[k] = o.P(2) & 1 ? -1 : r.tok[0];
                break;
            }
            case O_CALL: named.insert(index(o)); logText("call %d", index(o)); call(index(o), o.P(2), o.P(3)); break;
            default: break;
        }
    }
    for (int k : named) call(k, 1, 2);
    release();
    for (int k : named) call(k, 3, 4);
    int before = g_ownDestroyed;
    cd.real(obj);
    if (g_ownDestroyed != before + 1) simFail(D_STATE, "own destructor of a real object of class %s ran %d times", cd.name, g_ownDestroyed - before);
}

static void opGroup(const Op &op) {
    int s = slotOf(op.P(0));
    MMock &m = S->mocks[s];
    if (!m.alive || S->unwinding || !CD(m).group) return;
    EventScope es;
    int which = ((op.P(1) % (int) CD(m).groups.size()) + (int) CD(m).groups.size()) % (int) CD(m).groups.size();
    bool spy = m.obj >= 0 && (op.P(2) & 1);
    logText("group slot=%d which=%d spy=%d", s, which, (int) spy);
    Outcome out;
    try { CD(m).group(*m.box, which, spy); } catch (...) { out = currentExceptionOutcome(); }
    if (out.k != Outcome::RET) simFail(D_PHRASE, "stubbing several methods by one phrase %s", outcomeText(out).c_str());
    probe(P_GROUP);
    for (int method : CD(m).groups[which]) {
        MatchSpec ms;
        ms.serial = S->nextSerial++;
        MAct a;
        a.qty = -1;
        a.what = spy ? MAct::ORIG : MAct::RETDEF;
        if (spy) { a.token = S->nextToken++; a.callback = true; }
        finishStub(m, method, ms, {a}, nullptr);
    }
    checkEvents(ExpEvent());
}

struct UnwindCall {
    std::function<void()> f;
    ~UnwindCall() { f(); }
};

static void opCall(const Op &op) {
    if (S->budget <= 0) return;
    int slot = -1, obj = -1, cls, method;
    if (op.k == O_OBJCALL) {
        obj = ((op.P(0) % NOBJ) + NOBJ) % NOBJ;
        slot = S->objMock[obj];
        cls = CL_LEAF;
        method = ((op.P(1) % L_METHODS) + L_METHODS) % L_METHODS;
    } else {
        slot = slotOf(op.P(0));
        MMock &m = S->mocks[slot];
        if (!m.alive) return;
        cls = m.cls;
        method = methodIn(m, op.P(1));
        if (m.obj < 0 && m.cls == CL_LEAF) obj = -1; else obj = m.obj;
    }
    std::vector<ArgVal> a = callArgs(cls, method, op, 2);
    if (a.size() > 5) probe(P_WIDE);
    separate(a);
    int fault = op.P(7), n = op.P(8);
    if (fault < 0 || fault >= F_COUNT) fault = 0;
    if (op.P(9) == 1 && !S->unwinding) {
        probe(P_UNWIND_CALL);
        countFault(FI_UNWIND);
        try {
            UnwindCall u{[&] { S->unwinding++; checkedCall(slot, obj, method, a, fault, n); S->unwinding--; }};
            throw Interrupt{9};
        } catch (Interrupt &) {}
    } else if (op.P(10) > 1 && S->depth == 0 && S->burstBudget > 0) { // the same call many times
        int times = std::min(op.P(10), S->burstBudget);
        S->burstBudget -= times;
        S->budget += times;
        probe(P_BURST);
        for (int i = 0; i < times && S->budget > 0; i++) checkedCall(slot, obj, method, a, i == times - 1 ? fault : F_NONE, n);
    } else checkedCall(slot, obj, method, a, fault, n);
}

static void opDestroy(const Op &op) {
    int s = slotOf(op.P(0));
    MMock &m = S->mocks[s];
    if (!m.alive || !CD(m).hasDtor || S->budget <= 0) return;
    if (m.obj >= 0 && m.dtor.stubs.empty()) return; // would destroy the simulator's own object
    for (auto f : S->frames) if (f->slot == s && f->method == DTOR) return;
    EventScope es;
    S->budget--;
    Frame f;
    f.slot = s; f.method = DTOR; f.gen = m.gen;
    probe(P_DESTROY);
    if (m.obj >= 0) probe(P_DESTROY_SPIED);
    int how = op.P(1) & 3;
    // a destructor that may throw is only destroyed through a plain delete or an explicit call
    if (CD(m).dtorMayThrow) how &= 2;
    f.e = beginCall(f);
    logText("destroy object of mock %d how=%d", s, how);
    m.pins++;
    S->frames.push_back(&f);
    Outcome out;
    try { m.box->destroyObject(how); } catch (...) { out = currentExceptionOutcome(); }
    S->frames.pop_back();
    m.pins--;
    logText("outcome %s", outcomeText(out).c_str());
    switch (f.e.k) {
        case Expect::NOOP:
            if (out.k != Outcome::RET) simFail(D_DTOR, "destroying the object of mock %d without a destructor stubbing %s", s, outcomeText(out).c_str());
            checkEvents(ExpEvent());
            return;
        case Expect::EXHAUSTED: case Expect::UNMATCHED: checkUnexpectedOutcome(f, out, 1, false); return;
        default: break;
    }
    probe(P_DTOR_ACT);
    const MAct *a = theAct(f);
    if (a->callback && !f.entered) simFail(D_DTOR, "destroying the object of mock %d did not run the stubbed destructor action: it %s", s, outcomeText(out).c_str());
    if (f.willThrow || a->what == MAct::THROW) {
        int ty = f.willThrow ? f.throwType : a->exType, co = f.willThrow ? f.throwCode : a->token;
        if (out.k != Outcome::EXC || out.sub != ty || out.code != co) simFail(D_EXCEPTION, "exception of the destructor action did not reach the caller: it %s", outcomeText(out).c_str());
    } else if (out.k != Outcome::RET) simFail(D_DTOR, "destroying the object of mock %d %s", s, outcomeText(out).c_str());
    checkEvents(ExpEvent());
}

// ------------------------------------------------------------------------------------------------ verification phrases
namespace {
struct SeqHolder { // owns the expression nodes of a pattern
    std::vector<std::function<void()>> del;
    ~SeqHolder() { LibScope l; for (size_t i = del.size(); i-- > 0;) del[i](); }
    template<class T> const Sequence &own(T *t) { HarnessScope h; del.push_back([t] { delete t; }); return *t; }
};
struct Sources { // explicit sources
    std::vector<int> slots;          // whole mocks
    std::vector<int> leaves;         // by index into leaves
    bool unverified = false;
    bool all = false;                // default: all mocks named in the pattern
};
std::vector<Inv> consider(const Sources &src, const std::vector<Leaf_> &leaves) {
    std::vector<Inv> r;
    for (auto &i : S->hist) {
        bool in = false;
        for (int s : src.slots) if (S->mocks[s].gen == i.gen) in = true;
        for (int l : src.leaves) if (leafMatches(leaves[l], i)) in = true;
        if (in && !(src.unverified && i.verified)) r.push_back(i);
    }
    return r;
}
void markUids(const std::vector<uint64_t> &u) { std::set<uint64_t> s(u.begin(), u.end()); for (auto &i : S->hist) if (s.count(i.uid)) i.verified = true; }
}

static bool buildLeaf(const Op &c, std::vector<Leaf_> &leaves, bool held = false) {
    int s = slotOf(c.P(0));
    MMock &m = S->mocks[s];
    if (!m.alive) return false;
    int method = c.P(1) == DTOR ? DTOR : methodIn(m, c.P(1));
    if (method == DTOR && !CD(m).hasDtor) return false;
    Leaf_ l;
    l.slot = s; l.method = method; l.box = nullptr;
    l.m = readMatch(c, 3);
    normMatch(l.m, m, method);
    l.m.serial = S->nextSerial++;
    statedAsPredicate(l.m, m, method);
    for (auto &i : S->hist) if (i.gen == m.gen && i.method == method && i.unknownArgs) { l.m.shape = M_NONE; l.m.asPred = false; }
    if (held && m.obj >= 0 && method != DTOR) for (int p : CD(m).methods[method].pars) if (!pkRef(p) && p != PK_INT) { l.m.shape = M_NONE; l.m.asPred = false; }
    leaves.push_back(l);
    return true;
}

typedef decltype(Verify(std::declval<const Sequence &>())) VerifyPhrase;
typedef typename std::decay<decltype(Using(std::declval<const ActualInvocationsSource &>()))>::type UsingPhrase;
typedef typename std::decay<decltype(Unverified(std::declval<const ActualInvocationsSource &>()))>::type UnverifiedSource;

namespace {
struct KeptSources { // explicit sources named once may serve several verifications
    UnverifiedSource *unverified = nullptr;
    UsingPhrase *chosen = nullptr;
    bool keep = false;
    void drop() { delete chosen; delete unverified; chosen = nullptr; unverified = nullptr; }
};
}

static VerifyPhrase makeVerify(const Sources &src, bool viaUnverified, std::vector<Leaf_> &leaves, const std::vector<const Sequence *> &q, KeptSources &kept) {
    auto sources = [&](size_t i) -> const ActualInvocationsSource & {
        return i < src.slots.size() ? S->mocks[src.slots[i]].box->src() : leaves[src.leaves[i - src.slots.size()]].box->src();
    };
    size_t n = src.slots.size() + src.leaves.size();
#define PATTERNS(P) switch (q.size()) { case 1: S->expLine = __LINE__; return P.Verify(*q[0]); case 2: S->expLine = __LINE__; return P.Verify(*q[0], *q[1]); case 3: S->expLine = __LINE__; return P.Verify(*q[0], *q[1], *q[2]); case 4: S->expLine = __LINE__; return P.Verify(*q[0], *q[1], *q[2], *q[3]); case 5: S->expLine = __LINE__; return P.Verify(*q[0], *q[1], *q[2], *q[3], *q[4]); default: S->expLine = __LINE__; return P.Verify(*q[0], *q[1], *q[2], *q[3], *q[4], *q[5]); }
#define SRC1 sources(0)
#define SRC2 sources(0), sources(1)
#define SRC3 sources(0), sources(1), sources(2)
#define SRC4 sources(0), sources(1), sources(2), sources(3)
#define SRC5 sources(0), sources(1), sources(2), sources(3), sources(4)
#define SRC6 sources(0), sources(1), sources(2), sources(3), sources(4), sources(5)
#define SRC7 sources(0), sources(1), sources(2), sources(3), sources(4), sources(5), sources(6)
#define SRC8 sources(0), sources(1), sources(2), sources(3), sources(4), sources(5), sources(6), sources(7)
    if (src.all) {
        if (viaUnverified) { PATTERNS(Unverified) }
        switch (q.size()) {
            case 1: S->expLine = __LINE__; return Verify(*q[0]);
            case 2: S->expLine = __LINE__; return Verify(*q[0], *q[1]);
            case 3: S->expLine = __LINE__; return Verify(*q[0], *q[1], *q[2]);
            case 4: S->expLine = __LINE__; return Verify(*q[0], *q[1], *q[2], *q[3]);
            case 5: S->expLine = __LINE__; return Verify(*q[0], *q[1], *q[2], *q[3], *q[4]);
            default: S->expLine = __LINE__; return Verify(*q[0], *q[1], *q[2], *q[3], *q[4], *q[5]);
        }
    }
    if (kept.chosen) { PATTERNS((*kept.chosen)) }
    if (src.unverified) {
        if (!kept.unverified) switch (n) {
            case 1: kept.unverified = new UnverifiedSource(Unverified(SRC1)); break;
            case 2: kept.unverified = new UnverifiedSource(Unverified(SRC2)); break;
            case 3: kept.unverified = new UnverifiedSource(Unverified(SRC3)); break;
            case 4: kept.unverified = new UnverifiedSource(Unverified(SRC4)); break;
            case 5: kept.unverified = new UnverifiedSource(Unverified(SRC5)); break;
            case 6: kept.unverified = new UnverifiedSource(Unverified(SRC6)); break;
            case 7: kept.unverified = new UnverifiedSource(Unverified(SRC7)); break;
            default: kept.unverified = new UnverifiedSource(Unverified(SRC8)); break;
        }
        if (kept.keep) { kept.chosen = new UsingPhrase(Using(*kept.unverified)); PATTERNS((*kept.chosen)) }
        PATTERNS(Using(*kept.unverified))
    }
    if (kept.keep) {
        switch (n) {
            case 1: kept.chosen = new UsingPhrase(Using(SRC1)); break;
            case 2: kept.chosen = new UsingPhrase(Using(SRC2)); break;
            case 3: kept.chosen = new UsingPhrase(Using(SRC3)); break;
            case 4: kept.chosen = new UsingPhrase(Using(SRC4)); break;
            case 5: kept.chosen = new UsingPhrase(Using(SRC5)); break;
            case 6: kept.chosen = new UsingPhrase(Using(SRC6)); break;
            case 7: kept.chosen = new UsingPhrase(Using(SRC7)); break;
            default: kept.chosen = new UsingPhrase(Using(SRC8)); break;
        }
        PATTERNS((*kept.chosen))
    }
    switch (n) {
        case 1: PATTERNS(Using(SRC1))
        case 2: PATTERNS(Using(SRC2))
        case 3: PATTERNS(Using(SRC3))
        case 4: PATTERNS(Using(SRC4))
        case 5: PATTERNS(Using(SRC5))
        case 6: PATTERNS(Using(SRC6))
        case 7: PATTERNS(Using(SRC7))
        default: PATTERNS(Using(SRC8))
    }
#undef SRC1
#undef SRC2
#undef SRC3
#undef SRC4
#undef SRC5
#undef SRC6
#undef SRC7
#undef SRC8
#undef PATTERNS
}

enum { RQ_DEFAULT, RQ_EXACTLY, RQ_ATLEAST, RQ_ONCE, RQ_TWICE, RQ_NEVER, RQ_ATLEASTONCE, RQ_ANY, RQ_EXACTLYQ, RQ_ATLEASTQ, RQ_COUNT };
enum { EV_END, EV_BOOL, EV_NOT, EV_TERMBOOL, EV_COPY, EV_FORMS };

// the message of a failed verification, without the position
static std::string verifyText(const ExpEvent &x) {
    if (x.type == 2) return "Verification error\nExpected no more invocations!! but the following unverified invocations were found:\n" + listText(x.unv);
    return "Verification error\nExpected pattern: " + x.pattern + "\nExpected matches: " + (x.kind == 0 ? "exactly " : "at least ") + std::to_string(x.expected) + "\nActual matches  : " +
           std::to_string(x.actual) + "\nActual sequence : total of " + std::to_string(x.seq.size()) + " actual invocations" + (x.seq.empty() ? "." : ":\n") + listText(x.seq);
}

static void checkVerifyOutcome(const Outcome &out, bool pass, const ExpEvent &x, const char *what, int wrong = D_VERDICT) {
    if (pass) {
        if (out.k != Outcome::RET) simFail(wrong, "%s that has to pass %s", what, outcomeText(out).c_str());
        if (!S->events.empty()) simFail(wrong, "%s that has to pass reported a failure", what);
        return;
    }
    int thrower = -1;
    for (int i = 0; i < S->nlisteners && thrower < 0; i++) if (S->listenerThrows[i]) thrower = i;
    if (out.k == Outcome::RET && S->events.empty()) simFail(wrong == D_VERDICT ? D_SILENT : wrong, "%s that has to fail passed", what);
    checkEvents(x);
    if (thrower >= 0) { if (out.k != Outcome::LISTENER || out.code != thrower) simFail(D_EXCEPTION, "exception of a listener did not reach the caller of %s: it %s", what, outcomeText(out).c_str()); return; }
    switch (S->adapterMode) {
        case 0:
            if (out.k != Outcome::VERIFYEX || out.sub != x.type) simFail(D_EVENT, "%s that fails %s", what, outcomeText(out).c_str());
            if (out.line != x.line) simFail(D_EVENT, "exception of %s carries line %d instead of %d", what, out.line, x.line);
            if (S->formatter) {
                probe(P_FORMATTER);
                if (out.text.find(x.type == 1 ? "CUSTOM sequence" : "CUSTOM nomore") == std::string::npos) simFail(D_EVENT, "message of %s is '%s' although a custom formatter is in force", what, out.text.c_str());
            } else if (out.text.find("CUSTOM") != std::string::npos) simFail(D_EVENT, "a formatter no longer in force was used");
            else if (known(x.seq) && known(x.unv)) {
                std::string want = "interp.cpp:" + std::to_string(x.line) + ": " + verifyText(x);
                if (out.text.size() < want.size() || out.text.compare(out.text.size() - want.size(), std::string::npos, want)) simFail(D_TEXT, "the message of %s is [%s] instead of [%s]", what, out.text.c_str(), want.c_str());
                probe(x.seq.size() > 50 ? P_TEXT_LONG : P_TEXT);
            }
            break;
        case 1: probe(P_ADAPTER_RETURN); if (out.k != Outcome::RET) simFail(D_EVENT, "%s with an adapter that returns %s", what, outcomeText(out).c_str()); break;
        default: probe(P_ADAPTER_THROW); if (out.k != Outcome::ADAPTER) simFail(D_EVENT, "%s with a throwing adapter %s", what, outcomeText(out).c_str()); break;
    }
}

static void opVerify(const Op &op) {
    if (S->unwinding) return;
    EventScope es;
    std::vector<Leaf_> leaves;
    std::vector<Elem> pattern;
    // a pattern is an expression of named calls, sequences and repetitions; parts may be used in several places
    struct Node { enum { LEAF, CONCAT, REPEAT } kind; int l, r, n; bool numberFirst; int size; const Sequence *made; };
    std::vector<Node> nodes;
    std::vector<int> roots;
    int limit = 24;
    auto leafNode = [&](int l) { nodes.push_back(Node{Node::LEAF, l, 0, 0, false, 1, nullptr}); return (int) nodes.size() - 1; };
    auto concat = [&](int l, int r) { if (nodes[l].size + nodes[r].size > limit) return l; nodes.push_back(Node{Node::CONCAT, l, r, 0, false, nodes[l].size + nodes[r].size, nullptr}); return (int) nodes.size() - 1; };
    auto repeat = [&](int l, int n, bool numberFirst) { if (nodes[l].size * n > limit) return l; nodes.push_back(Node{Node::REPEAT, l, 0, n, numberFirst, nodes[l].size * n, nullptr}); return (int) nodes.size() - 1; };
    bool held = false;
    for (auto &c : op.s) if (c.k == O_HOLD || c.k == O_AGAIN) held = true;
    for (auto &c : op.s) {
        if (c.k != O_SEQ || roots.size() >= 6) continue;
        int kind = ((c.P(0) % 10) + 10) % 10, rep = c.P(1) >= 10 ? std::min(c.P(1), 320) : 1 + (((c.P(1) % 3) + 3) % 3);
        if (rep >= 10) { limit = 330; probe(P_REPEAT_MANY); }
        if (kind == 9 && !roots.empty()) { roots.push_back(roots[rep % roots.size()]); probe(P_SAME_PATTERN); continue; }
        std::vector<int> l;
        size_t needs = kind == 0 || kind == 2 || kind == 9 ? 1 : kind == 4 || kind == 6 || kind == 8 ? 3 : 2;
        for (auto &q : c.s) if (q.k == O_LEAF && l.size() < needs && buildLeaf(q, leaves, held)) l.push_back(leafNode((int) leaves.size() - 1));
        if (l.empty()) continue;
        int A = l[0], B = l.size() > 1 ? l[1] : A, C = l.size() > 2 ? l[2] : B;
        switch (kind) {
            case 0: case 9: roots.push_back(A); break;
            case 1: roots.push_back(concat(A, B)); break;
            case 2: roots.push_back(repeat(A, rep, false)); break;
            case 3: roots.push_back(repeat(concat(A, B), rep, true)); break;
            case 4: roots.push_back(concat(concat(A, B), C)); break;
            case 5: roots.push_back(concat(repeat(A, rep, false), B)); break;
            case 6: roots.push_back(concat(repeat(concat(A, B), rep, true), C)); break;
            case 7: roots.push_back(concat(A, repeat(B, rep, false))); break;
            default: { // any expression, given in postfix notation
                std::vector<int> st;
                for (size_t i = 2; i < c.p.size() && i < 14; i++) {
                    int t = (c.p[i] < 0 ? -c.p[i] : c.p[i]) - 1, arg = t / 8;
                    if (t < 0) continue;
                    switch (t % 8) {
                        case 0: case 1: case 2: st.push_back(l[arg % l.size()]); break;
                        case 3: case 4: if (st.size() > 1) { int r = st.back(); st.pop_back(); st.back() = concat(st.back(), r); } break;
                        case 5: if (!st.empty()) st.back() = repeat(st.back(), 1 + arg % 3, false); break;
                        case 6: if (!st.empty()) st.back() = repeat(st.back(), 1 + arg % 3, true); break;
                        default: if (!st.empty()) st.push_back(st.back()); break;
                    }
                }
                if (st.empty()) st.push_back(A);
                while (st.size() > 1) { int r = st.back(); st.pop_back(); st.back() = concat(st.back(), r); }
                roots.push_back(st[0]);
                probe(P_EXPRESSION);
            }
        }
    }
    if (roots.empty()) return;
    std::function<void(int, std::vector<int> &)> flatten = [&](int n, std::vector<int> &into) {
        Node &x = nodes[n];
        if (x.kind == Node::LEAF) into.push_back(x.l);
        else if (x.kind == Node::CONCAT) { flatten(x.l, into); flatten(x.r, into); }
        else for (int i = 0; i < x.n; i++) flatten(x.l, into);
    };
    std::function<std::string(int)> describe = [&](int n) {
        Node &x = nodes[n];
        if (x.kind == Node::LEAF) { auto &l = leaves[x.l]; return std::string("m.") + methodName(S->mocks[l.slot], l.method) + conditionText(l.m, S->mocks[l.slot], l.method); }
        if (x.kind == Node::CONCAT) return describe(x.l) + " + " + describe(x.r);
        return (nodes[x.l].kind == Node::LEAF ? describe(x.l) : "(" + describe(x.l) + ")") + " * " + std::to_string(x.n);
    };
    for (int n : roots) {
        Elem e;
        flatten(n, e.leaves);
        pattern.push_back(e);
        if (e.leaves.size() > 1) probe(nodes[n].kind == Node::REPEAT && nodes[nodes[n].l].kind == Node::LEAF ? P_REPEAT : P_CONCAT);
    }
    if (pattern.size() > 1) probe(P_MULTI_PATTERN);
    Sources src;
    int mode = ((op.P(0) % 5) + 5) % 5; // 0 default 1 Using(mocks) 2 Using(Unverified(mocks)) 3 Unverified.Verify 4 Using(method)
    bool viaUnv = false;
    if (mode == 1 || mode == 2) {
        for (int i = 0; i < MAXSLOT && src.slots.size() < 8; i++) if (S->mocks[i].alive && (op.P(5) >> i & 1)) src.slots.push_back(i);
        if (src.slots.empty()) mode = mode == 2 ? 3 : 0;
        if (mode == 2) src.unverified = true;
    }
    if (mode == 4) { for (size_t i = 0; i < leaves.size() && i < 8; i++) if (op.P(5) >> i & 1) src.leaves.push_back((int) i); if (src.leaves.empty()) src.leaves.push_back(0); if (op.P(6) & 1) src.unverified = true; }
    std::set<int> involved;
    for (auto &e : pattern) for (int l : e.leaves) involved.insert(leaves[l].slot);
    if (involved.size() > 1) probe(P_MULTI_MOCK);
    if (mode == 0 || mode == 3) { src.all = true; src.slots.assign(involved.begin(), involved.end()); if (mode == 3) { src.unverified = true; viaUnv = true; } }
    if (mode == 1 || mode == 4) probe(P_USING);
    if (src.unverified) probe(P_UNVERIFIED);
    // predicate fault
    int fault = op.P(7);
    bool predFault = false;
    int predSerial = 0;
    if (fault == F_PRED) for (auto &l : leaves) if (l.m.hasPred()) { predSerial = l.m.serial; predFault = true; break; }
    bool cmpFault = fault == F_CMP;
    const Op *hold = nullptr;
    for (auto &c : op.s) if (c.k == O_HOLD && !c.s.empty() && S->depth < MAXDEPTH) hold = &c;
    std::set<int> pinned = involved;
    for (int s : src.slots) pinned.insert(s);
    for (int s : pinned) S->mocks[s].pins++;
    SeqHolder holder;
    KeptSources kept;
    for (auto &c : op.s) if (c.k == O_AGAIN) kept.keep = (c.P(3) & 1) != 0;
    std::vector<const Sequence *> q;
    Outcome out;
    bool built = false;
    // a number that makes no sense is refused: 1, 2 as requirement, 3 as repetition; 4 to 6: and the phrase goes on
    int refuse = op.P(11) > 0 ? 1 + (op.P(11) - 1) % 6 : 0, nonsense = -(op.P(12) < 0 ? -op.P(12) : op.P(12)) % 4;
    // the pattern is made once
    {
        int copyFault = fault == F_COPY ? 1 + (op.P(8) < 0 ? -op.P(8) : op.P(8)) % 4 : 0;
        S->faultFired = false;
        try {
            if (copyFault) { S->fault = F_COPY; S->faultN = copyFault; }
            for (auto &l : leaves) {
                MMock &m = S->mocks[l.slot];
                l.box = l.method == DTOR ? m.box->dtorCtx(op.P(9)) : CD(m).methods[l.method].ctx(*m.box, op.P(9));
                l.box->match(l.m);
            }
            S->fault = F_NONE;
            LibScope ls;
            for (auto &x : nodes) // parts come before what they are used in
                if (x.kind == Node::LEAF) x.made = &leaves[x.l].box->seq();
                else if (x.kind == Node::CONCAT) x.made = &holder.own(new auto(*nodes[x.l].made + *nodes[x.r].made));
                else if (x.numberFirst) x.made = &holder.own(new auto(x.n * *nodes[x.l].made));
                else x.made = &holder.own(new auto(*nodes[x.l].made * x.n));
            { HarnessScope h; for (int n : roots) q.push_back(nodes[n].made); }
            if (refuse && refuse % 3 == 0) {
                bool refused = false;
                try { if (refuse == 3) (void) (*q[0] * nonsense); else (void) (nonsense * *q[0]); } catch (const std::invalid_argument &) { refused = true; }
                HarnessScope h;
                if (!refused) simFail(D_VERDICT, "a pattern repeated %d times was not refused", nonsense);
                probe(P_REFUSED);
            }
            built = true;
        } catch (...) { out = currentExceptionOutcome(); }
        S->fault = F_NONE;
    }
    // and verified once, or several times
    auto round = [&](int req, int delta, int form, bool early, bool interrupted, const Op *hold, bool predFault, bool cmpFault) {
        // requirement relative to the true count
        Verdict v0 = evaluate(consider(src, leaves), leaves, pattern);
        int n = v0.count + delta;
        if (n < 0) n = 0;
        logText("verify mode=%d req=%d n=%d form=%d patterns=%zu count=%d", mode, req, n, form, pattern.size(), v0.count);
        auto passes = [&](int count) {
            switch (req) {
                case RQ_EXACTLY: case RQ_EXACTLYQ: return count == n;
                case RQ_ATLEAST: case RQ_ATLEASTQ: if (n == 0) probe(P_ATLEAST0); return count >= n;
                case RQ_ONCE: return count == 1;
                case RQ_TWICE: return count == 2;
                case RQ_NEVER: return count == 0;
                case RQ_ANY: return true;
                default: return count >= 1;
            }
        };
        bool b = false;
        Verdict v;
        std::vector<Inv> seq;
        bool evaluated = false, refused = false;
        int line = 0;
        S->faultFired = false;
        auto refuseNow = [&](auto &pr, bool exactly) {
            try { if (exactly) pr.Exactly(nonsense - 1); else pr.AtLeast(nonsense - 1); } catch (const std::invalid_argument &) { HarnessScope h; refused = true; probe(P_REFUSED); throw; }
            HarnessScope h;
            simFail(D_VERDICT, "a verification that requires %d occurrences was not refused", nonsense - 1);
        };
        try {
            LibScope ls;
            auto pr = makeVerify(src, viaUnv, leaves, q, kept);
            line = S->expLine;
            auto eval = [&] { // what has to come out, decided at the moment of evaluation
                HarnessScope h;
                seq = consider(src, leaves);
                v = evaluate(seq, leaves, pattern);
                v.pass = passes(v.count);
                evaluated = true;
                if (predFault) { S->fault = F_PRED; S->faultSerial = predSerial; }
                if (cmpFault) { S->fault = F_CMP; S->faultN = 1 + (op.P(8) < 0 ? -op.P(8) : op.P(8)) % 3; }
                S->faultFired = false;
            };
            auto require = [&] {
                if (refuse == 1 || refuse == 2) refuseNow(pr, refuse == 1);
                switch (req) {
                    case RQ_EXACTLY: pr.Exactly(n); break;
                    case RQ_ATLEAST: pr.AtLeast(n); break;
                    case RQ_ONCE: pr.Once(); break;
                    case RQ_TWICE: pr.Twice(); break;
                    case RQ_NEVER: pr.Never(); break;
                    case RQ_ATLEASTONCE: pr.AtLeastOnce(); break;
                    case RQ_ANY: pr.Any(); break;
                    case RQ_EXACTLYQ: if (n == 2) pr.Exactly(Times<2>()); else pr.Exactly(operator""_Times((unsigned long long) n)); break;
                    case RQ_ATLEASTQ: pr.AtLeast(operator""_Times((unsigned long long) n)); break;
                    default: break;
                }
            };
            if (early) require(); // state the requirement before or after holding
            if (hold) { HarnessScope h; runHeld(*hold); }
            if (!early) require();
            if (refuse == 4 || refuse == 5) try { refuseNow(pr, refuse == 4); } catch (const std::invalid_argument &) { refused = false; }
            if (interrupted) throw Interrupt{2};
            switch (form) {
                case EV_BOOL: eval(); b = (bool) pr; break;
                case EV_NOT: eval(); b = !!pr; b = !b ? false : true; break;
                case EV_TERMBOOL: if (req == RQ_EXACTLY) { eval(); b = (bool) pr.Exactly(n); } else { eval(); b = (bool) pr; } break;
                case EV_COPY: { auto p2 = pr; { auto p3 = p2; (void) p3; } HarnessScope h; probe(P_COPIES); eval(); break; }
                default: eval(); break;
            }
            if (form == EV_BOOL || form == EV_NOT || form == EV_TERMBOOL) { HarnessScope h; S->fault = F_NONE; }
        } catch (...) { out = currentExceptionOutcome(); }
        S->fault = F_NONE;
        bool fired = S->faultFired;
        logText("verify outcome %s bool=%d count=%d", outcomeText(out).c_str(), (int) b, v.count);
        if (!evaluated) {
            if (refused) countFault(FI_INTERRUPT);
            else if (out.k == Outcome::INTERRUPT && interrupted) { probe(P_INTERRUPT_VERIFY); countFault(FI_INTERRUPT); }
            else simFail(D_PHRASE, "an interrupted verification phrase %s", outcomeText(out).c_str());
            if (!S->events.empty()) simFail(D_PHRASE, "an interrupted verification phrase reported a failure");
            return;
        }
        if (v.partial) probe(P_PARTIAL);
        if (out.k == Outcome::FAULT) {
            if (!fired) simFail(D_EXCEPTION, "verification threw a fault that was not injected");
            probe(P_FAULT_VERIFY);
            checkEvents(ExpEvent());
            return; // nothing marked
        }
        if (fired) simFail(D_EXCEPTION, "exception of a condition or comparison did not reach the caller of a verification: it %s", outcomeText(out).c_str());
        bool asBool = form == EV_BOOL || form == EV_NOT || form == EV_TERMBOOL;
        if (asBool) {
            probe(P_VERIFY_BOOL);
            if (out.k != Outcome::RET) simFail(D_PHRASE, "a verification converted to bool %s", outcomeText(out).c_str());
            if (!S->events.empty()) simFail(D_PHRASE, "a verification converted to bool reported a failure");
            if (b != v.pass) simFail(src.unverified ? D_UNVERDICT : D_VERDICT, "verification gave %s: the pattern occurs %d times, requirement %d/%d", b ? "true" : "false", v.count, req, n);
        } else {
            ExpEvent x;
            x.type = 1;
            x.kind = req == RQ_DEFAULT || req == RQ_ATLEAST || req == RQ_ATLEASTQ || req == RQ_ATLEASTONCE ? 1 : 0;
            switch (req) { case RQ_EXACTLY: case RQ_EXACTLYQ: case RQ_ATLEAST: case RQ_ATLEASTQ: x.expected = n; break; case RQ_TWICE: x.expected = 2; break; case RQ_NEVER: x.expected = 0; break; default: x.expected = 1; }
            x.unverifiedOnly = src.unverified;
            for (int n : roots) x.pattern += (x.pattern.empty() ? "" : " ... ") + describe(n);
            x.actual = v.count; x.line = line; x.patterns = (int) pattern.size(); x.seq = seq;
            char what[120];
            snprintf(what, sizeof what, "a verification (pattern occurs %d times, requirement %d/%d)", v.count, req, n);
            checkVerifyOutcome(out, v.pass, x, what, src.unverified ? D_UNVERDICT : D_VERDICT);
        }
        probe(v.pass ? P_VERIFY_PASS : P_VERIFY_FAIL);
        if (v.pass) markUids(v.matched);
    };
    auto reqOf = [](int r) { return ((r % RQ_COUNT) + RQ_COUNT) % RQ_COUNT; };
    auto formOf = [](int f) { return ((f % EV_FORMS) + EV_FORMS) % EV_FORMS; };
    if (!built) {
        if (out.k == Outcome::FAULT && S->faultFired) { probe(P_INTERRUPT_VERIFY); countFault(FI_INTERRUPT); }
        else simFail(D_PHRASE, "naming the calls to verify %s", outcomeText(out).c_str());
        if (!S->events.empty()) simFail(D_PHRASE, "an interrupted verification phrase reported a failure");
    } else {
        round(reqOf(op.P(1)), op.P(2), formOf(op.P(3)), op.P(10) & 1, op.P(4) == 1, hold, predFault, cmpFault);
        int rounds = 1;
        for (auto &c : op.s) {
            if (c.k != O_AGAIN || rounds >= 3) continue;
            if (!c.s.empty() && S->depth < MAXDEPTH) { EventScope inner; runHeld(c); }
            if (!S->events.empty()) S->events.clear();
            out = Outcome();
            rounds++;
            probe(P_AGAIN);
            round(reqOf(c.P(0)), c.P(1), formOf(c.P(2)), c.P(3) >> 1 & 1, false, nullptr, false, false);
        }
    }
    { LibScope ls; kept.drop(); }
    for (int s : pinned) S->mocks[s].pins--;
    for (auto &l : leaves) { LibScope ls; delete l.box; l.box = nullptr; }
}

static void opVnoi(const Op &op) {
    if (S->unwinding) return;
    EventScope es;
    Sources src;
    std::vector<Leaf_> leaves;
    for (int i = 0; i < MAXSLOT && src.slots.size() < 8; i++) if (S->mocks[i].alive && (op.P(0) >> i & 1)) src.slots.push_back(i);
    bool held = false;
    for (auto &c : op.s) if (c.k == O_HOLD) held = true;
    for (auto &c : op.s) if (c.k == O_LEAF && src.slots.size() + leaves.size() < 8) buildLeaf(c, leaves, held);
    for (size_t i = 0; i < leaves.size(); i++) src.leaves.push_back((int) i);
    size_t n = src.slots.size() + leaves.size();
    if (!n) return;
    int form = ((op.P(1) % 3) + 3) % 3;
    bool interrupted = op.P(2) == 1;
    const Op *hold = nullptr;
    for (auto &c : op.s) if (c.k == O_HOLD && !c.s.empty() && S->depth < MAXDEPTH) hold = &c;
    std::set<int> pinned(src.slots.begin(), src.slots.end());
    for (auto &l : leaves) pinned.insert(l.slot);
    for (int s : pinned) S->mocks[s].pins++;
    Outcome out;
    bool b = false, evaluated = false;
    std::vector<Inv> all, unv;
    int line = 0;
    logText("vnoi sources=%zu form=%d", n, form);
    for (auto &l : leaves) {
        MMock &m = S->mocks[l.slot];
        l.box = l.method == DTOR ? m.box->dtorCtx(1) : CD(m).methods[l.method].ctx(*m.box, 1);
        l.box->match(l.m);
    }
    auto source = [&](size_t i) -> const ActualInvocationsSource & { return i < src.slots.size() ? S->mocks[src.slots[i]].box->src() : leaves[i - src.slots.size()].box->src(); };
    auto make = [&]() {
        switch (n) {
            case 1: S->expLine = __LINE__; return VerifyNoOtherInvocations(source(0));
            case 2: S->expLine = __LINE__; return VerifyNoOtherInvocations(source(0), source(1));
            case 3: S->expLine = __LINE__; return VerifyNoOtherInvocations(source(0), source(1), source(2));
            case 4: S->expLine = __LINE__; return VerifyNoOtherInvocations(source(0), source(1), source(2), source(3));
            case 5: S->expLine = __LINE__; return VerifyNoOtherInvocations(source(0), source(1), source(2), source(3), source(4));
            case 6: S->expLine = __LINE__; return VerifyNoOtherInvocations(source(0), source(1), source(2), source(3), source(4), source(5));
            case 7: S->expLine = __LINE__; return VerifyNoOtherInvocations(source(0), source(1), source(2), source(3), source(4), source(5), source(6));
            default: S->expLine = __LINE__; return VerifyNoOtherInvocations(source(0), source(1), source(2), source(3), source(4), source(5), source(6), source(7));
        }
    };
    try {
        LibScope ls;
        auto pr = make();
        line = S->expLine;
        if (hold) { HarnessScope h; runHeld(*hold); }
        if (interrupted) throw Interrupt{3};
        {
            HarnessScope h;
            all = consider(src, leaves);
            for (auto &i : all) if (!i.verified) unv.push_back(i);
            evaluated = true;
        }
        if (form == 1) b = (bool) pr;
        if (form == 2) b = !!pr;
    } catch (...) { out = currentExceptionOutcome(); }
    for (int s : pinned) S->mocks[s].pins--;
    for (auto &l : leaves) { LibScope ls; delete l.box; }
    logText("vnoi outcome %s bool=%d unverified=%zu", outcomeText(out).c_str(), (int) b, unv.size());
    if (!evaluated) {
        if (out.k != Outcome::INTERRUPT || !S->events.empty()) simFail(D_PHRASE, "an interrupted 'no other invocations' phrase %s", outcomeText(out).c_str());
        probe(P_INTERRUPT_VERIFY);
        countFault(FI_INTERRUPT);
        return;
    }
    bool pass = unv.empty();
    probe(pass ? P_VNOI_PASS : P_VNOI_FAIL);
    if (form) {
        if (out.k != Outcome::RET || !S->events.empty()) simFail(D_PHRASE, "'no other invocations' converted to bool %s", outcomeText(out).c_str());
        if (b != pass) simFail(D_MARK, "'no other invocations' gave %s although %zu of %zu calls are unverified", b ? "true" : "false", unv.size(), all.size());
        return;
    }
    ExpEvent x;
    x.type = 2; x.kind = 2; x.line = line; x.seq = all; x.unv = unv;
    char what[100];
    snprintf(what, sizeof what, "'no other invocations' (%zu of %zu unverified)", unv.size(), all.size());
    if (pass && out.k != Outcome::RET) simFail(D_MARK, "%s that has to pass %s", what, outcomeText(out).c_str());
    if (!pass && out.k == Outcome::RET && S->adapterMode == 0) simFail(D_MARK, "%s that has to fail passed", what);
    checkVerifyOutcome(out, pass, x, what, D_MARK);
}

static void opMember(const Op &op) {
    int s = slotOf(op.P(0));
    MMock &m = S->mocks[s];
    if (!m.alive || !CD(m).members || S->unwinding) return;
    int w = ((op.P(1) % 3) + 3) % 3, v = pkNorm(PK_INT, op.P(2));
    if (!m.mem[w].stubbed) { logText("stub member %d of %d", w, s); m.box->stubMember(w, v); m.mem[w].stubbed = true; m.mem[w].value = v; }
    else { logText("write member %d of %d", w, s); m.box->writeMember(w, v); m.mem[w].value = v; }
    probe(P_MEMBERS);
    int got = m.box->readMember(w);
    if (got != v) simFail(D_MEMBER, "data member %d reads %d instead of %d after being set", w, got, v);
}

static void execOp(const Op &op) {
    if (g_shared) g_shared->ops++;
    switch (op.k) {
        case O_NEWMOCK: if (!S->unwinding) opNewMock(op); break;
        case O_DELMOCK: { int s = slotOf(op.P(0)); if (S->mocks[s].alive && !S->mocks[s].pins && !S->unwinding) destroyMock(s); break; }
        case O_STUB: opStub(op); break;
        case O_GROUP: opGroup(op); break;
        case O_REAL: opReal(op); break;
        case O_CALL: case O_OBJCALL: opCall(op); break;
        case O_VERIFY: opVerify(op); S->anyVerification = true; break;
        case O_VNOI: opVnoi(op); break;
        case O_RESET: {
            int s = slotOf(op.P(0));
            MMock &m = S->mocks[s];
            if (!m.alive || m.pins) break;
            logText("reset %d", s);
            probe(P_RESET);
            m.box->reset();
            eraseMock(m.gen);
            m.m.assign(m.m.size(), MMethod());
            m.dtor = MMethod();
            for (auto &x : m.mem) x = MMember();
            m.wasReset = true;
            break;
        }
        case O_CLEAR: {
            int s = slotOf(op.P(0));
            MMock &m = S->mocks[s];
            if (!m.alive) break;
            // phrases that are being held keep no pointers to recorded calls, so this is allowed at any time
            logText("clear %d", s);
            probe(P_CLEAR);
            if (m.pins) probe(P_CLEAR_IN_ACTION);
            m.box->clear();
            eraseMock(m.gen);
            break;
        }
        case O_SETCELL: { // the caller changes its own variables after a call
            int t = ((op.P(0) % 3) + 3) % 3, i = ((op.P(1) % NCELL) + NCELL) % NCELL, v = pkNorm(PK_INT, op.P(2));
            S->cellCode[t][i] = v;
            if (t == CT_INT) S->cellInt[i] = v; else if (t == CT_VAL) S->cellVal[i].code = v;
            else { char b[64]; snprintf(b, sizeof b, v % 2 ? "s%07d_padded_beyond_the_small_buffer" : "s%07d", v); S->cellStr[i] = b; }
            probe(P_MUTATED);
            break;
        }
        case O_MEMBER: opMember(op); break;
        case O_DESTROY: opDestroy(op); break;
        case O_LISTEN: {
            if (g_threaded) break;
            LibScope l;
            if (op.P(0) == 1) { Fakeit.clearEventHandlers(); S->nlisteners = 0; for (auto &x : S->listenerThrows) x = 0; }
            else for (int i = 0; i <= op.P(2) && S->nlisteners < MAXLISTENERS; i++) { // several at once
                S->listenerThrows[S->nlisteners] = op.P(1) == 1 && i == 0;
                g_listeners[S->nlisteners].id = S->nlisteners;
                Fakeit.addEventHandler(g_listeners[S->nlisteners]);
                S->nlisteners++;
            }
            break;
        }
        case O_ADAPTER: if (g_threaded) break; S->adapterMode = ((op.P(0) % 3) + 3) % 3; applyAdapter(); break;
        case O_FORMATTER: { if (g_threaded) break; LibScope l; S->formatter = op.P(0) & 1; ownFormatter(S->formatter ? &g_formatter : nullptr); break; }
        case O_AUDIT: audit(); break;
        case O_NAME: {
            std::vector<Leaf_> l;
            if (S->unwinding || !buildLeaf(op, l)) break;
            MMock &m = S->mocks[l[0].slot];
            probe(P_NAMED_ONLY);
            CtxBox *c = l[0].method == DTOR ? m.box->dtorCtx(0) : CD(m).methods[l[0].method].ctx(*m.box, op.P(2));
            std::unique_ptr<CtxBox> owner(c);
            int savedFault = S->fault;
            S->fault = F_NONE; // armed for the phrase around this one
            c->match(l[0].m);
            S->fault = savedFault;
            LibScope ls;
            owner.reset();
            break;
        }
        default: break;
    }
}

void runOps(const std::vector<Op> &ops) {
    for (auto &o : ops) execOp(o);
}

static void noteState() {
    if (!g_shared || g_shared->nstates >= 512) return;
    uint64_t h = 7;
    for (auto &m : S->mocks) {
        if (!m.alive) { h = hashCombine(h, 1); continue; }
        h = hashCombine(h, m.cls * 2 + (m.obj >= 0));
        for (size_t k = 0; k <= m.m.size(); k++) {
            MMethod &mm = k == m.m.size() ? m.dtor : m.m[k];
            if (mm.stubs.empty()) continue;
            h = hashCombine(h, k * 64 + std::min<size_t>(mm.stubs.size(), 5));
            for (auto &s : mm.stubs) h = hashCombine(h, s.m.shape * 16 + std::min<long>(s.used[0], 6) + (s.actAt(s.used[0]) < 0 ? 8 : 0));
        }
        size_t n = 0, u = 0;
        for (auto &i : S->hist) if (i.gen == m.gen) { n++; u += !i.verified; }
        h = hashCombine(h, std::min<size_t>(n, 12) * 16 + std::min<size_t>(u, 12));
    }
    h = hashCombine(h, S->nlisteners * 8 + S->adapterMode * 2 + S->formatter);
    g_shared->stateHashes[g_shared->nstates++] = h;
}

static void teardown(const Trace &t, bool settings = true) {
    // the order in which mocks die is part of the run
    unsigned order = (unsigned) t.size() * 7u;
    for (int i = 0; i < MAXSLOT; i++) { int s = (int) ((i * ((order & 1) ? 3 : 1) + order / 2) % MAXSLOT); destroyMock(s); }
    for (int s = 0; s < MAXSLOT; s++) destroyMock(s);
    if (!settings) return;
    LibScope l;
    Fakeit.clearEventHandlers();
    ownAdapter();
    ownFormatter(nullptr);
}

static void runTop(const Trace &t, bool count);
static void checkObjects();
static void runOnce(const Trace &t, Sim *sim, bool count) {
    S = sim;
#ifdef SIM_CONFIGURATION
    ownAdapter();
#endif
    runTop(t, count);
    teardown(t);
    checkObjects();
}

static void runTop(const Trace &t, bool count) {
    S->ntop = (int) t.size();
    for (int i = 0; i < NCELL; i++) { char b[64]; snprintf(b, sizeof b, i % 2 ? "s%07d_padded_beyond_the_small_buffer" : "s%07d", i); S->cellStr[i] = b; }
    for (size_t i = 0; i < t.size(); i++) {
        S->top = (int) i;
        if (g_shared) g_shared->opIndex = (int) i;
        if (S->verbose) logText("-- op %zu %s", i, opName(t[i].k));
        execOp(t[i]);
        if (count) noteState();
    }
    S->top = (int) t.size();
    if (g_shared) g_shared->opIndex = S->top;
    audit();
}

static void checkObjects() {
    g_counting = false;
    for (int i = 0; i < NOBJ; i++) { // nothing is left of the mocks: own code again, with its own data
        std::vector<ArgVal> a(1);
        a[0].v = 2;
        checkedCall(-1, i, L_TWICE, a, F_NONE, 0);
        if (S->objs[i].state != S->objState[i]) simFail(D_STATE, "data of real object %d changed", i);
    }
    g_counting = true;
}

#ifdef SIM_THREADS
// each thread runs its own trace against its own mocks and its own model; the main thread only looks on afterwards
static void runThreads(const Trace &t, const RunCfg &cfg, Shared *sh) {
    static char store[MAXTHREADS][sizeof(Sim) + 64] __attribute__((aligned(64)));
    std::vector<const Op *> bodies;
    std::vector<SwitchPoint> points;
    int listeners = 0, mode = 1;
    bool apart = true, early = false;
    for (auto &o : t) {
        if (o.k == O_THREAD && bodies.size() < MAXTHREADS) { bodies.push_back(&o); if (o.P(0)) apart = false; if (o.P(1)) early = true; }
        if (o.k == O_SWITCH) points.push_back({o.P(0), o.P(1), (uint64_t) o.P(2), o.P(3)});
        if (o.k == O_LISTEN && listeners < 4) listeners++;
        if (o.k == O_ADAPTER) mode = 1 + (o.P(0) & 1);
    }
    int n = (int) bodies.size();
    sh->threads = n;
    if (!n) return;
    if (n > 1) probe(P_THREADS);
    g_threaded = true;
    {
        LibScope l;
        for (int i = 0; i < listeners; i++) { g_listeners[i].id = i; Fakeit.addEventHandler(g_listeners[i]); }
        Fakeit.setTestingFrameworkAdapter(g_router);
    }
    std::vector<Sim *> sims;
    for (int i = 0; i < n; i++) {
        Sim *s = new (store[i]) Sim();
        s->verbose = cfg.verbose;
        s->nlisteners = listeners;
        s->adapterMode = mode;
        s->thread = i;
        sims.push_back(s);
    }
    std::function<void(int)> body = [&](int i) {
        S = sims[i];
        runTop(bodies[i]->s, true);
        if (early) { teardown(bodies[i]->s, false); checkObjects(); }
        S = nullptr;
    };
    if (apart) {
        schedDeadlock = [] { simFail(D_HANG, "the threads wait for one another"); };
        schedRun(n, points, body);
        for (int i = 0; i < n; i++) for (int c = 0; c < AC_CLASSES; c++) sh->accesses[i][c] = schedAccesses(i, c);
        sh->faults[FI_PREEMPT] += schedSwitches();
        if (sh->nstates < 512) sh->stateHashes[sh->nstates++] = schedPathHash();
    } else for (int i = 0; i < n; i++) body(i);
    for (int i = 0; i < n; i++) sh->threadHash[i] = sims[i]->hash;
    // the threads have been joined: the calls of all of them, as one history
    std::vector<std::pair<int, int>> who;
    for (int i = 0; i < n; i++) for (int s = 0; s < MAXSLOT && who.size() < 8; s++) if (sims[i]->mocks[s].alive) who.push_back({i, s});
    sh->opIndex = (int) t.size();
    int occurrences = 0;
    auto collect = [&](const std::vector<std::pair<int, int>> &w, int method = 0) {
        S = sims[w[0].first];
        auto b = [&](size_t i) -> const ActualInvocationsSource & { return sims[w[i].first]->mocks[w[i].second].box->src(); };
        MMock &m = S->mocks[w[0].second];
        CtxBox *c = method == DTOR ? m.box->dtorCtx(0) : CD(m).methods[method].ctx(*m.box, 0);
        S->auditing = true;
        S->auditPtrs.clear();
        {
            LibScope l;
            switch (w.size()) {
                case 1: Using(b(0)).Verify(c->seq()).Exactly(1000000); break;
                case 2: Using(b(0), b(1)).Verify(c->seq()).Exactly(1000000); break;
                case 3: Using(b(0), b(1), b(2)).Verify(c->seq()).Exactly(1000000); break;
                case 4: Using(b(0), b(1), b(2), b(3)).Verify(c->seq()).Exactly(1000000); break;
                case 5: Using(b(0), b(1), b(2), b(3), b(4)).Verify(c->seq()).Exactly(1000000); break;
                case 6: Using(b(0), b(1), b(2), b(3), b(4), b(5)).Verify(c->seq()).Exactly(1000000); break;
                case 7: Using(b(0), b(1), b(2), b(3), b(4), b(5), b(6)).Verify(c->seq()).Exactly(1000000); break;
                default: Using(b(0), b(1), b(2), b(3), b(4), b(5), b(6), b(7)).Verify(c->seq()).Exactly(1000000); break;
            }
        }
        S->auditing = false;
        { LibScope l; delete c; }
        if (S->auditEvents.size() != 1) simFail(D_THREAD, "a failing verification delivered %zu reports to the adapter", S->auditEvents.size());
        occurrences = S->auditEvents[0].actual;
        S->auditEvents.clear();
        S->auditFlags.clear();
        return S->auditPtrs;
    };
    if (who.size() > 1 && who[0].first != who.back().first) {
        probe(P_JOINT);
        std::vector<const void *> all = collect(who);
        size_t total = 0;
        for (int i = 0; i < n; i++) {
            std::vector<std::pair<int, int>> mine;
            for (auto &w : who) if (w.first == i) mine.push_back(w);
            if (mine.empty()) continue;
            std::vector<const void *> part = collect(mine), found;
            size_t made = 0;
            for (auto &inv : sims[i]->hist) for (auto &w : mine) if (inv.gen == sims[i]->mocks[w.second].gen) made++;
            if (made != part.size()) simFail(D_THREAD, "%zu calls of thread %d are recorded instead of %zu", part.size(), i, made);
            for (auto p : all) if (std::find(part.begin(), part.end(), p) != part.end()) found.push_back(p);
            if (found.size() != part.size()) simFail(D_THREAD, "the joint history shows %zu calls of thread %d instead of %zu", found.size(), i, part.size());
            if (found != part) simFail(D_THREAD, "the joint history shows the calls of thread %d in another order than they were made", i);
            total += part.size();
        }
        if (all.size() != total) simFail(D_THREAD, "the joint history shows %zu calls instead of %zu", all.size(), total);
        // a pattern that names one method finds the calls of that method and no others
        for (size_t k = 0; k < who.size(); k++) {
            std::vector<std::pair<int, int>> order = who;
            std::swap(order[0], order[k]);
            Sim *sim = sims[order[0].first];
            MMock &m = sim->mocks[order[0].second];
            std::set<int> methods;
            for (auto &inv : sim->hist) if (inv.gen == m.gen && methods.size() < 3) methods.insert(inv.method);
            for (int method : methods) {
                int made = 0;
                for (auto &inv : sim->hist) if (inv.gen == m.gen && inv.method == method) made++;
                collect(order, method);
                if (occurrences != made) simFail(D_THREAD, "a verification over all threads finds %d calls of %s on mock %d of thread %d instead of %d", occurrences, methodName(m, method), order[0].second, order[0].first, made);
            }
        }
        S = sims[0];
        logText("joint history of %zu calls", total);
    }
    uint64_t h = 1;
    for (int i = 0; i < n; i++) {
        S = sims[i];
        if (!early) { teardown(bodies[i]->s, false); checkObjects(); }
        h = hashCombine(h, S->hash);
    }
    sh->logHash = h;
    {
        LibScope l;
        Fakeit.clearEventHandlers();
        ownAdapter();
    }
    sh->allocs = arenaStats().allocs;
    char msg[500];
    if (!arenaCheck(msg, sizeof msg)) simFail(D_MEM, "%s", msg);
    sh->done = 1;
}
#endif

void interpRun(const Trace &t, const RunCfg &cfg, Shared *sh) {
    g_shared = sh;
    arenaViolation = onArena;
    arenaStart(cfg.env);
#ifdef SIM_THREADS
    runThreads(t, cfg, sh);
    sh->done = 1;
    return;
#endif
    long live[4] = {0, 0, 0, 0}, vals[4] = {0, 0, 0, 0};
    uint64_t mark = 0;
    for (int r = 0; r < cfg.reps && r < 4; r++) {
        mark = arenaMark();
        // fixed address: pointers handed to mocked methods appear in messages
        static SIM_TLS char *mem = nullptr;
        if (!mem) { static char store[sizeof(Sim) + 64] __attribute__((aligned(64))); mem = store; }
        Sim *sim = new (mem) Sim();
        sim->verbose = cfg.verbose && r == 0;
        sim->joint = cfg.joint;
        runOnce(t, sim, r == 0);
        uint64_t h = sim->hash;
        if (r == 0) sh->logHash = h;
        sim->~Sim();
        S = nullptr;
        live[r] = (long) arenaLive();
        vals[r] = Val::live();
    }
    sh->allocs = arenaStats().allocs;
    char msg[500];
    if (!arenaCheck(msg, sizeof msg)) { Sim *sim = new Sim(); S = sim; S->top = (int) t.size(); simFail(D_MEM, "%s", msg); }
    if (cfg.reps >= 3) {
        int k = cfg.reps - 1;
        bool grows = live[k] > live[k - 1] && live[k - 1] > live[k - 2];
        bool vgrows = vals[k] > vals[k - 1] && vals[k - 1] > vals[k - 2];
        if (grows || vgrows) {
            char what[300] = "";
            arenaDescribeLive(mark, what, sizeof what);
            Sim *sim = new Sim();
            S = sim;
            S->top = (int) t.size();
            if (grows) simFail(D_LEAK, "every repetition leaves %ld more blocks allocated: %s", live[k] - live[k - 1], what);
            simFail(D_LEAK, "every repetition leaves %ld more captured user objects alive", vals[k] - vals[k - 1]);
        }
        if (vals[k] < vals[k - 1]) { Sim *sim = new Sim(); S = sim; simFail(D_MEM, "user objects are destroyed more often than created"); }
    }
    sh->done = 1;
}

static void (*g_add[GEN_FILES])(std::vector<ClassDesc> &);
AddClasses::AddClasses(int at, void (*add)(std::vector<ClassDesc> &)) { g_add[at] = add; }

const std::vector<ClassDesc> &classes() {
    static std::vector<ClassDesc> *all = [] {
        auto v = new std::vector<ClassDesc>();
        addSvc(*v); addMany(*v); addLeaf(*v); addSmall(*v); addQual(*v); addCond(*v); addWide(*v);
        for (auto add : g_add) if (add) add(*v);
        return v;
    }();
    return *all;
}

#ifdef SIM_CONFIGURATION
void frameworkFailure(const Failure &f) { fprintf(stderr, "%s\n", f.text().c_str()); abort(); } // the stand-in takes its place
#endif
