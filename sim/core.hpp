// Shared by the typed layer (templates over mocked classes) and the interpreter.
#pragma once
#include <string>
#include <vector>
#include <memory>
#include <map>
#include <set>
#include <functional>
#include <stdexcept>
#include <ostream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include "rng.hpp"
#include "arena.hpp"
#include "trace.hpp"

// ------------------------------------------------------------------------------------------------ faults
enum FaultKind { F_NONE, F_COPY, F_CMP, F_PRED, F_ALLOC, F_COUNT };

struct SimFault { int kind; };       // what injected faults throw; not a std::exception on purpose
struct Interrupt { int id; };        // leaves a phrase before it is complete
struct UserEx { int code; };
struct DerivedEx : std::exception { int code; explicit DerivedEx(int c) : code(c) {} const char *what() const noexcept override { return "derived"; } };

bool faultPoint(int kind);           // true: the armed fault of that kind fires now

// ------------------------------------------------------------------------------------------------ tracked value
struct Val {
    int code;
    unsigned magic;
    enum : unsigned { ALIVE = 0xA11FE5A1u, MOVED = 0x30CED001u, DEAD = 0xDEADDEADu };
    Val() : code(0), magic(ALIVE) { live()++; }
    explicit Val(int c) : code(c), magic(ALIVE) { live()++; }
    Val(const Val &o) : code(o.code), magic(o.magic) { o.check("copied"); if (faultPoint(F_COPY)) throw SimFault{F_COPY}; live()++; }
    Val(Val &&o) noexcept : code(o.code), magic(o.magic) { o.check("moved"); o.code = -7777; o.magic = MOVED; live()++; }
    Val &operator=(const Val &o) { o.check("assigned"); code = o.code; magic = o.magic; return *this; }
    Val &operator=(Val &&o) noexcept { o.check("assigned"); code = o.code; magic = o.magic; if (&o != this) { o.code = -7777; o.magic = MOVED; } return *this; }
    ~Val() { check("destroyed"); magic = DEAD; code = -9999; live()--; }
    void check(const char *what) const { if (magic != ALIVE && magic != MOVED) bad(what); }
    static void bad(const char *what);
    static long &live();
    static void cmp() { if (faultPoint(F_CMP)) throw SimFault{F_CMP}; }
    friend bool operator==(const Val &a, const Val &b) { a.check("compared"); b.check("compared"); cmp(); return a.code == b.code; }
    friend bool operator!=(const Val &a, const Val &b) { a.check("compared"); b.check("compared"); cmp(); return a.code != b.code; }
    friend bool operator<(const Val &a, const Val &b) { a.check("compared"); b.check("compared"); cmp(); return a.code < b.code; }
    friend bool operator>(const Val &a, const Val &b) { a.check("compared"); b.check("compared"); cmp(); return a.code > b.code; }
    friend bool operator<=(const Val &a, const Val &b) { a.check("compared"); b.check("compared"); cmp(); return a.code <= b.code; }
    friend bool operator>=(const Val &a, const Val &b) { a.check("compared"); b.check("compared"); cmp(); return a.code >= b.code; }
    friend std::ostream &operator<<(std::ostream &o, const Val &v) { o << "Val" << v.code; o.setf(std::ios::showpos | std::ios::boolalpha); o.precision(2); return o; } // leaves the stream changed, as such operators may
};
struct ValEx { Val v; };

enum class Color { Red, Green, Blue };

// ------------------------------------------------------------------------------------------------ discrepancies
enum DKind { D_NONE, D_DISPATCH, D_ACTION, D_RESULT, D_ARGS, D_HISTORY, D_VERDICT, D_MARK, D_EVENT, D_PHRASE, D_STATE, D_DTOR,
    D_CRASH, D_MEM, D_LEAK, D_LAYOUT, D_MEMBER, D_EXCEPTION, D_UNANSWERED, D_UNVERDICT, D_SILENT, D_HANG, D_THREAD, D_TEXT, D_COUNT };
inline const char *dName(int k) {
    static const char *n[] = {"none", "dispatch", "action", "result", "args", "history", "verdict", "mark", "event", "phrase", "state", "dtor",
                              "crash", "mem", "leak", "layout", "member", "exception", "unanswered", "verdict-of-unverified", "silent", "hang", "thread", "text"};
    return k >= 0 && k < D_COUNT ? n[k] : "?";
}

// ------------------------------------------------------------------------------------------------ arguments
enum { CT_INT, CT_STR, CT_VAL };
const int NCELL = 4;

struct ArgVal {              // what the model knows about one argument
    int v = 0;               // by value: the code; by reference: the cell number
    bool ref = false;
    int ctype = -1;
};
struct ArgRead { int code; const void *addr; };   // what user code called by the library sees

struct ActRet { int code; bool setOut; int outVal; };

enum RetKind { RK_VOID, RK_INT, RK_BOOL, RK_INTREF, RK_VALREF, RK_STR, RK_VAL, RK_DBL, RK_UP, RK_VEC };
enum { DBL_NAN = 3 };
enum ParKind { PK_INT, PK_STR, PK_VAL, PK_DBL, PK_ENUM, PK_UP, PK_VEC, PK_CSTR, PK_LONG, PK_CHAR, PK_BOOL, PK_NSTR, PK_INTREF, PK_CINTREF, PK_STRREF, PK_CSTRREF, PK_VALREF, PK_CVALREF, PK_VALRR, PK_INTPTR };

inline bool pkRef(int k) { return k >= PK_INTREF; }
inline int pkCell(int k) {
    switch (k) { case PK_INTREF: case PK_CINTREF: case PK_INTPTR: return CT_INT; case PK_STRREF: case PK_CSTRREF: return CT_STR; default: return CT_VAL; }
}
inline int pkNorm(int k, int v) { if (v < 0) v = -v; if (k == PK_ENUM) return v % 3; if (k == PK_BOOL) return v % 2; return v % 10; }
inline bool pkOut(int k) { return k == PK_INTREF || k == PK_STRREF || k == PK_INTPTR; }
// the value an action writes into out argument number i: different for each, so that values in wrong places show
inline int outAt(int base, int i) { return (base + 3 * i) % 10; }
inline int retSetMask(int npars, int variant) {
    if (npars != 4) return npars == 2 ? 3 : 0;
    static const int m[] = {15, 15, 7, 1, 10, 12, 5, 3};
    return m[variant & 7];
}
inline bool pkVal(int k) { return k == PK_VAL || k == PK_VALREF || k == PK_CVALREF || k == PK_VALRR; }
inline int rkNorm(int k, int c) {
    switch (k) { case RK_VOID: return 0; case RK_BOOL: return c & 1; case RK_INTREF: case RK_VALREF: return c % 8; default: return c; }
}
inline int rkDefault(int k) { return k == RK_STR || k == RK_VEC || k == RK_UP ? -1 : 0; }
inline bool rkHasDefault(int k) { return k != RK_INTREF && k != RK_VALREF && k != RK_UP; }

// matcher description, interpreted both by the typed layer (to build FakeIt conditions) and by the model
enum MatchShape { M_NONE, M_USING, M_CALLVALS, M_MATCHING, M_CALLPRED, M_ONE, M_ALLKIND, M_MIX, M_RICH, M_COUNT };
enum { MK_EQ, MK_GT, MK_GE, MK_LT, MK_LE, MK_NE, MK_ANY, MK_PLAIN, MK_COUNT };
const int NMIX = 8, AS_PRED = 100;
// the condition at each position of a list of different ones
constexpr int mixKind(int k, int i) {
    constexpr int t[NMIX][3] = {{MK_GT, MK_PLAIN, MK_ANY}, {MK_ANY, MK_NE, MK_LE}, {MK_PLAIN, MK_ANY, MK_GE}, {MK_LT, MK_GE, MK_EQ},
                                {MK_NE, MK_LE, MK_PLAIN}, {MK_PLAIN, MK_GT, MK_LT}, {MK_ANY, MK_EQ, MK_NE}, {MK_LE, MK_LT, MK_GT}};
    return t[k][i % 3];
}
// conditions particular to a type of argument (Rich<T> in typed.hpp makes them): how many, what each accepts, how it prints
int richCount(int pk);
bool richAccepts(int pk, int k, int a, int e);
std::string richText(int pk, int k, int e);
const int MAXARGS = 12;
struct MatchSpec {
    int shape = 0, kind = 0, pos = 0, pred = 0, serial = 0;
    int v[MAXARGS] = {0};
    bool asPred = false;       // stated as a predicate that accepts the same arguments
    bool hasPred() const { return shape == M_MATCHING || shape == M_CALLPRED || asPred; }
};
inline bool cmpKind(int kind, int a, int e) {
    switch (kind) { case MK_EQ: return a == e; case MK_GT: return a > e; case MK_GE: return a >= e; case MK_LT: return a < e; case MK_LE: return a <= e; case MK_NE: return a != e; default: return true; }
}
inline bool predEval(int pred, const int *c, int n) {
    int m = 1 + (pred & 3), r = (pred >> 2) & 3, s = (pred >> 4) & 1;
    for (int i = 0; i < n; i++) s += c[i] * (i + 1);
    return m == 1 ? true : (s % m) == (r % m);
}

enum ActForm { A_RET, A_RETQ, A_RETM, A_RETDEF, A_THROW, A_THROWQ, A_THROWM, A_DO, A_DOQ, A_DOM, A_RETSET, A_LASTFINITE = A_RETSET,
    A_ALWRET, A_ALWRETDEF, A_ALWTHROW, A_ALWDO, A_ALWRETSET, A_FORMS };
enum { EX_USER, EX_RUNTIME, EX_INT, EX_VAL, EX_DERIVED, EX_TYPES };

struct ActRT {                 // one action phrase, run-time form
    int form = 0, qty = 1, exType = 0;
    int tok[3] = {0, 0, 0};    // unique tokens of the model actions this phrase makes
    int out = 0;               // value for return-and-set
    int n = 1;
    int variant = 0;           // which of the forms of return-and-set
    int outMask = 0;           // the arguments it sets
};

enum PhraseStyle { ST_NAMED, ST_TEMP, ST_COPIES, ST_FAKE, ST_ASSIGN_FN, ST_ASSIGN_VAL, ST_SPY, ST_SPYWV, ST_STYLES };

struct PhraseRT {
    int style = 0;
    std::vector<ActRT> acts;
    int interruptAt = 0;       // 1..n+1: throw Interrupt before that action / before the end
    std::function<void()> hold; // runs between the last action and the end of the phrase
    std::function<void()> atEnd; // last harness statement before the phrase goes out of scope
};

struct Outcome {
    enum K { RET, EXC, UNEXPECTED, FAULT, BADALLOC, ADAPTER, LISTENER, VERIFYEX, INTERRUPT, OTHER } k = RET;
    int code = 0, sub = 0;
    bool ident = true;
    std::string text;
    int line = 0;
};
struct AdapterEx { int id; };
struct ListenerEx { int id; };

namespace fakeit { class Sequence; struct ActualInvocationsSource; }

struct CtxBox {               // a typed mocking context behind an untyped interface
    virtual ~CtxBox() {}
    virtual const fakeit::Sequence &seq() = 0;
    virtual const fakeit::ActualInvocationsSource &src() = 0;
    virtual void match(const MatchSpec &) = 0;
    virtual void when(const PhraseRT &) = 0;
    virtual bool capture(std::vector<std::vector<int>> &into, std::vector<const void *> *addrs) = 0; // install a predicate that records and rejects
};

struct MockBox;
struct MethodDesc {
    const char *name;
    int ret;
    std::vector<int> pars;
    unsigned caps;
    CtxBox *(*ctx)(MockBox &, int variant);
    Outcome (*call)(void *obj, const ArgVal *args);
};
enum { CAP_COPYABLE_RET = 1, CAP_SPY = 2, CAP_SPYWV = 4, CAP_RETSET = 8, CAP_NOMATCH = 16, CAP_VALARG = 32 };

struct ClassDesc {
    const char *name;
    std::vector<MethodDesc> methods;
    bool hasDtor, dtorMayThrow, members, spyable;
    MockBox *(*create)(void *spied);
    std::vector<std::vector<int>> groups{};                      // methods faked or spied on by one phrase
    void (*group)(MockBox &, int which, bool spy) = nullptr;
    void *(*real)(void *) = nullptr;                             // makes an object with code of its own, or destroys it
};
const std::vector<ClassDesc> &classes();
const int GEN_FILES = 16;
struct AddClasses { AddClasses(int at, void (*add)(std::vector<ClassDesc> &)); };   // classes drawn from a seed, added in this order

struct MockBox {
    virtual ~MockBox() {}
    virtual void *object() = 0;
    virtual const fakeit::ActualInvocationsSource &src() = 0;
    virtual void reset() = 0;
    virtual void clear() = 0;
    virtual CtxBox *dtorCtx(int variant) = 0;
    virtual void destroyObject(int how) = 0;
    virtual bool refusesDtor() = 0;
    virtual void stubMember(int which, int value) = 0;
    virtual int readMember(int which) = 0;
    virtual void writeMember(int which, int value) = 0;
};

// real objects that can be spied on
struct Spied {
    virtual ~Spied() {}
};

// ------------------------------------------------------------------------------------------------ callbacks into the interpreter
int simOwn(int method, int a, int b = 0);   // own code of a real object of a drawn class; -1: its destructor
ActRet simAction(int token, const Val &captured, const ArgRead *a, int n);
bool simPredicate(int serial, const Val &captured, int pred, const ArgRead *a, int n);
void *simCell(int ctype, int idx);
int simCellIndex(int ctype, const void *p);
int *simRetInt(int idx);
Val *simRetVal(int idx);
[[noreturn]] void simFail(int kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void throwToken(int exType, int code);
Outcome currentExceptionOutcome();   // call inside a catch block
