// Typed layer: everything that has to know the signature of a mocked method.  Only the library's public API is used.
#pragma once
#include <cstring>
#include <limits>
#include "core.hpp"
#include <tuple>
#include <utility>
#include "standalone.hpp"

// ------------------------------------------------------------------------------------------------ codecs
template<class T> struct Codec;
template<> struct Codec<int> { enum { kind = PK_INT }; static int make(int c) { return c; } static int read(const int &t) { return t; } };
template<> struct Codec<double> { // one code stands for the value that compares with nothing
    enum { kind = PK_DBL };
    static double make(int c) { return c == DBL_NAN ? std::numeric_limits<double>::quiet_NaN() : c * 0.5; }
    static int read(const double &t) { return t != t ? (int) DBL_NAN : (int) (t * 2); }
};
template<> struct Codec<bool> { enum { kind = PK_BOOL }; static bool make(int c) { return c & 1; } static int read(const bool &t) { return t; } };
template<> struct Codec<Color> { enum { kind = PK_ENUM }; static Color make(int c) { return (Color) c; } static int read(const Color &t) { return (int) t; } };
template<> struct Codec<Val> { enum { kind = PK_VAL }; static Val make(int c) { return Val(c); } static int read(const Val &t) { t.check("read"); return t.code; } };
template<> struct Codec<std::string> {
    enum { kind = PK_STR };
    static std::string make(int c) { char b[64]; snprintf(b, sizeof b, c % 2 ? "s%07d_padded_beyond_the_small_buffer" : "s%07d", c); return b; }
    static int read(const std::string &t) { if (t.empty()) return -1; if (t[0] != 's') return -2; return atoi(t.c_str() + 1); }
};
template<> struct Codec<std::vector<int>> {
    enum { kind = PK_VEC };
    static std::vector<int> make(int c) { return c % 2 ? std::vector<int>{c, c + 1, c + 2} : std::vector<int>{c}; }
    static int read(const std::vector<int> &t) { return t.empty() ? -1 : t.size() > 100 ? -2 : t[0]; }
};
template<> struct Codec<std::unique_ptr<Val>> {
    enum { kind = PK_UP };
    static std::unique_ptr<Val> make(int c) { return std::unique_ptr<Val>(new Val(c)); }
    static int read(const std::unique_ptr<Val> &t) { return t ? Codec<Val>::read(*t) : -1; }
};
template<> struct Codec<const char *> { // in ascending order, some the beginning of others
    enum { kind = PK_CSTR };
    static const char *make(int c) {
        static const char *t[] = {"", "k", "k1", "k12", "k2", "k22", "k3", "l", "l1", "l12"};
        return t[((c % 10) + 10) % 10];
    }
    static int read(const char *const &t) { if (t) for (int i = 0; i < 10; i++) if (!strcmp(t, make(i))) return i; return -1; }
};

template<> struct Codec<long> { enum { kind = PK_LONG }; static long make(int c) { return c * 3000000000L + 1; } static int read(const long &t) { return (int) (t / 3000000000L); } };
template<> struct Codec<char> { enum { kind = PK_CHAR }; static char make(int c) { return (char) ('a' + c); } static int read(const char &t) { return t - 'a'; } };
template<> struct Codec<char *> { // 0 stands for the null pointer
    enum { kind = PK_NSTR };
    static char *make(int c) { static char t[10][4] = {"", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9"}; return c ? t[((c % 10) + 10) % 10] : nullptr; }
    static int read(char *const &t) { return t ? t[1] - '0' : 0; }
};

template<class A> struct Param { // by value
    typedef typename std::remove_cv<A>::type T;
    static constexpr int kind = Codec<T>::kind;
    struct Slot {
        T t;
        explicit Slot(const ArgVal &a) : t(Codec<T>::make(a.v)) {}
        template<class U = T> typename std::enable_if<std::is_copy_constructible<U>::value, U &>::type pass() { return t; }
        template<class U = T> typename std::enable_if<!std::is_copy_constructible<U>::value, U &&>::type pass() { return std::move(t); }
        void scramble() { t = Codec<T>::make(7); } // the caller's variable changes after the call
    };
    static ArgRead read(const T &t) { return ArgRead{Codec<T>::read(t), nullptr}; }
    static void out(const T &, int) {}
};
template<class T, class Q, int CT, int K> struct RefParam {
    static constexpr int kind = K;
    struct Slot {
        int idx;
        explicit Slot(const ArgVal &a) : idx(a.v) {}
        Q &pass() { return *static_cast<T *>(simCell(CT, idx)); }
        void scramble() {}
    };
    static ArgRead read(const T &t) { return ArgRead{Codec<T>::read(t), &t}; }
    static void out(T &t, int v) { if (pkOut(K)) t = Codec<T>::make(v); }
    static void out(const T &, int) {}
};
template<> struct Param<int &> : RefParam<int, int, CT_INT, PK_INTREF> {};
template<> struct Param<const int &> : RefParam<int, const int, CT_INT, PK_CINTREF> {};
template<> struct Param<std::string &> : RefParam<std::string, std::string, CT_STR, PK_STRREF> {};
template<> struct Param<const std::string &> : RefParam<std::string, const std::string, CT_STR, PK_CSTRREF> {};
template<> struct Param<Val &> : RefParam<Val, Val, CT_VAL, PK_VALREF> {};
template<> struct Param<const Val &> : RefParam<Val, const Val, CT_VAL, PK_CVALREF> {};
template<> struct Param<Val &&> : RefParam<Val, Val, CT_VAL, PK_VALRR> {
    struct Slot {
        int idx;
        explicit Slot(const ArgVal &a) : idx(a.v) {}
        Val &&pass() { return std::move(*static_cast<Val *>(simCell(CT_VAL, idx))); }
        void scramble() {}
    };
};
template<> struct Param<int *> {
    static constexpr int kind = PK_INTPTR;
    struct Slot {
        int idx;
        explicit Slot(const ArgVal &a) : idx(a.v) {}
        int *pass() { return static_cast<int *>(simCell(CT_INT, idx)); }
        void scramble() {}
    };
    static ArgRead read(int *const &t) { return simCellIndex(CT_INT, t) < 0 ? ArgRead{-5, t} : ArgRead{*t, t}; }
    static void out(int *const &t, int v) { *t = v; }
};

template<class R> struct Ret {
    static constexpr int kind = std::is_same<R, int>::value ? RK_INT : std::is_same<R, bool>::value ? RK_BOOL : std::is_same<R, double>::value ? RK_DBL :
            std::is_same<R, std::string>::value ? RK_STR : std::is_same<R, Val>::value ? RK_VAL : std::is_same<R, std::unique_ptr<Val>>::value ? RK_UP : RK_VEC;
    static R make(int c) { return Codec<R>::make(c); }
    static int read(const R &r) { return Codec<R>::read(r); }
};
template<> struct Ret<int &> { static constexpr int kind = RK_INTREF; static int &make(int c) { return *simRetInt(c % 8); }
    static int read(int &r) { for (int i = 0; i < 8; i++) if (simRetInt(i) == &r) return i; return -1; } };
template<> struct Ret<const Val &> { static constexpr int kind = RK_VALREF; static const Val &make(int c) { return *simRetVal(c % 8); }
    static int read(const Val &r) { for (int i = 0; i < 8; i++) if (simRetVal(i) == &r) return i; return -1; } };
template<> struct Ret<void> { static constexpr int kind = RK_VOID; static void make(int) {} };

// ------------------------------------------------------------------------------------------------ user code handed to the library
template<class R, class ...A> struct DoFn {
    int token;
    Val cap;
    explicit DoFn(int t) : token(t), cap(t) {}
    R operator()(A &... a) const {
        HarnessScope h;
        ArgRead r[sizeof...(A) + 1] = {Param<A>::read(a)...};
        ActRet x = simAction(token, cap, r, (int) sizeof...(A));
        if (x.setOut) { int i = 0, d[] = {0, (Param<A>::out(a, outAt(x.outVal, i++)), 0)...}; (void) d; (void) i; }
        return Ret<R>::make(x.code);
    }
};
template<class ...A> struct PredFn {
    int serial, pred;
    Val cap;
    PredFn(int s, int p) : serial(s), pred(p), cap(s) {}
    bool operator()(A &... a) const {
        HarnessScope h;
        ArgRead r[sizeof...(A) + 1] = {Param<A>::read(a)...};
        return simPredicate(serial, cap, pred, r, (int) sizeof...(A));
    }
};
template<class ...A> struct CapFn {
    std::vector<std::vector<int>> *into;
    bool operator()(A &... a) const {
        HarnessScope h;
        ArgRead r[sizeof...(A) + 1] = {Param<A>::read(a)...};
        std::vector<int> v;
        for (unsigned i = 0; i < sizeof...(A); i++) v.push_back(r[i].code);
        into->push_back(v);
        return false;
    }
};

// ------------------------------------------------------------------------------------------------ conditions
template<class T> struct MatchArg { typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type N; };

// value for Using(v)/operator()(v): by-value types through the codec, pointers as cells
template<class A> struct ExpVal {
    typedef typename MatchArg<A>::N N;
    N n;
    explicit ExpVal(int c) : n(Codec<N>::make(c)) {}
    N &get() { return n; }
};
template<> struct ExpVal<int *> {
    int *p;
    explicit ExpVal(int c) : p(static_cast<int *>(simCell(CT_INT, c % NCELL))) {}
    int *&get() { return p; }
};
// the conditions on C strings take over a string, which has to live until the phrase is complete
template<> struct ExpVal<const char *> {
    std::string s;
    explicit ExpVal(int c) : s(Codec<const char *>::make(c)) {}
    std::string &get() { return s; }
};
template<> struct ExpVal<std::unique_ptr<Val>> { explicit ExpVal(int) {} int get() { return 0; } };

template<class A> struct Matchable { static constexpr bool value = !std::is_same<A, std::unique_ptr<Val>>::value; };
template<class ...A> struct AllMatchable;
template<> struct AllMatchable<> { static constexpr bool value = true; };
template<class H, class ...T> struct AllMatchable<H, T...> { static constexpr bool value = Matchable<H>::value && AllMatchable<T...>::value; };
template<class A> struct CallVal { static constexpr bool value = Matchable<A>::value && !std::is_rvalue_reference<A>::value && !std::is_same<A, const char *>::value; };
template<class ...A> struct AllCallVal;
template<> struct AllCallVal<> { static constexpr bool value = true; };
template<class H, class ...T> struct AllCallVal<H, T...> { static constexpr bool value = CallVal<H>::value && AllCallVal<T...>::value; };

template<int K, class A> struct MakeMatcher {
    template<class V> static auto make(V &v) {
        using namespace fakeit;
        if constexpr (std::is_same<A, const char *>::value) {
            if constexpr (K == MK_EQ) return StrEq(std::move(v)); else if constexpr (K == MK_GT) return StrGt(std::move(v)); else if constexpr (K == MK_GE) return StrGe(std::move(v));
            else if constexpr (K == MK_LT) return StrLt(std::move(v)); else if constexpr (K == MK_LE) return StrLe(std::move(v)); else return StrNe(std::move(v));
        } else if constexpr (std::is_same<A, int *>::value || std::is_same<A, char *>::value) {
            if constexpr (K == MK_NE) return Ne(v); else return Eq(v);
        } else {
            if constexpr (K == MK_EQ) return Eq(v); else if constexpr (K == MK_GT) return Gt(v); else if constexpr (K == MK_GE) return Ge(v);
            else if constexpr (K == MK_LT) return Lt(v); else if constexpr (K == MK_LE) return Le(v); else return Ne(v);
        }
    }
};
template<int K, int POS, int I, class A> struct Pick {
    template<class V> static auto make(V &v) {
        if constexpr (I == POS || POS < 0) {
            if constexpr (K == MK_ANY) return fakeit::_;
            else if constexpr (K == MK_PLAIN && CallVal<A>::value) return v;
            else return MakeMatcher<K == MK_PLAIN ? MK_EQ : K, A>::make(v);
        }
        else if constexpr (I % 2) return fakeit::Any();
        else return fakeit::_;
    }
};

// conditions that exist for one type only, or that compare with a value of another type
template<class N> struct Rich { enum { count = 0 }; };
template<> struct Rich<int> {
    enum { count = 5 };
    template<int K, class F> static void with(int v, F f) {
        using namespace fakeit;
        if constexpr (K == 0) f(ApproxEq(v, 1));
        else if constexpr (K == 1) { long e = v; f(Eq(e)); e = 77; }
        else if constexpr (K == 2) f(Gt(v - 0.5));
        else if constexpr (K == 3) f(Any<int>());
        else { const double e = v + 0.5; float margin = 1.5f; f(ApproxEq(e, margin)); margin = 0; }
    }
};
template<> struct Rich<double> {
    enum { count = 4 };
    template<int K, class F> static void with(int v, F f) {
        using namespace fakeit;
        if constexpr (K == 0) f(ApproxEq(v * 0.5, 0.5));
        else if constexpr (K == 1) f(Eq(v));
        else if constexpr (K == 2) f(Ge(v * 0.5f));
        else { int e = v; f(ApproxEq(e, 1)); e = -50; }
    }
};
template<> struct Rich<std::string> {
    enum { count = 4 };
    template<int K, class F> static void with(int v, F f) {
        using namespace fakeit;
        static const char *const kept[] = {"s0000000", "s0000001_padded_beyond_the_small_buffer", "s0000002", "s0000003_padded_beyond_the_small_buffer", "s0000004",
                                           "s0000005_padded_beyond_the_small_buffer", "s0000006", "s0000007_padded_beyond_the_small_buffer", "s0000008", "s0000009_padded_beyond_the_small_buffer"};
        if constexpr (K == 0) { char e[48] = {0}; strcpy(e, Codec<std::string>::make(v).c_str()); f(Eq(e)); memset(e, 'z', 47); }
        else if constexpr (K == 1) { char e[40] = {0}; strcpy(e, Codec<std::string>::make(v).c_str()); f(Lt(e)); memset(e, 0, 40); }
        else if constexpr (K == 2) { const char *e = kept[v]; f(Ne(e)); e = nullptr; }
        else f(Ge(Codec<std::string>::make(v)));
    }
};
template<> struct Rich<const char *> {
    enum { count = 5 };
    template<int K, class F> static void with(int v, F f) {
        using namespace fakeit;
        const char *c = Codec<const char *>::make(v);
        if constexpr (K == 0) { std::string e = c; f(StrEq(e)); e = "k"; }
        else if constexpr (K == 1) { const std::string e = c; f(StrGe(e)); }
        else if constexpr (K == 2) { std::string e = c; f(StrNe(std::move(e))); }
        else if constexpr (K == 3) f(Eq(c));
        else f(Ne(c));
    }
};
template<> struct Rich<int *> {
    enum { count = 2 };
    template<int K, class F> static void with(int, F f) { using namespace fakeit; if constexpr (K == 0) f(Eq(nullptr)); else f(Ne(nullptr)); }
};
template<> struct Rich<char *> {
    enum { count = 2 };
    template<int K, class F> static void with(int, F f) { using namespace fakeit; if constexpr (K == 0) f(Eq(nullptr)); else f(Ne(nullptr)); }
};
template<> struct Rich<long> {
    enum { count = 3 };
    template<int K, class F> static void with(int v, F f) {
        using namespace fakeit;
        if constexpr (K == 0) f(ApproxEq(Codec<long>::make(v), 2));
        else if constexpr (K == 1) f(Gt(v * 3e9));
        else f(Eq(1));
    }
};
template<> struct Rich<char> {
    enum { count = 2 };
    template<int K, class F> static void with(int v, F f) { using namespace fakeit; if constexpr (K == 0) f(Eq('a' + v)); else { char e = (char) ('a' + v); f(ApproxEq(e, 1)); } }
};
template<int POS, int I, class M> decltype(auto) richAt(M &m) {
    if constexpr (I == POS) return static_cast<M &&>(m);
    else if constexpr (I % 2) return fakeit::Any();
    else return fakeit::AnyMatcher(fakeit::_);
}

inline auto timesOf(int n) { using namespace fakeit; return operator""_Times((unsigned long long) n); }

template<class ...A> struct IdxSeq { typedef std::make_index_sequence<sizeof...(A)> type; };

template<class CTX, class R, class ...A> struct Matching_ {
    template<size_t ...I> static void values(CTX &c, const MatchSpec &m, bool call, std::index_sequence<I...>) {
        if constexpr (AllMatchable<A...>::value && sizeof...(A) > 0) {
            std::tuple<ExpVal<A>...> e(ExpVal<A>(m.v[I])...);
            (void) e;
            LibScope l;
            if constexpr (AllCallVal<A...>::value) {
                if (call) { c(std::get<I>(e).get()...); return; }
            }
            (void) call;
            c.Using(Pick<MK_EQ, -1, (int) I, A>::make(std::get<I>(e).get())...);
        }
    }
    template<size_t ...I> static void plain(CTX &c, const MatchSpec &m, std::index_sequence<I...>) {
        if constexpr (AllCallVal<A...>::value && sizeof...(A) > 0) {
            std::tuple<ExpVal<A>...> e(ExpVal<A>(m.v[I])...);
            (void) e;
            LibScope l;
            c.Using(std::get<I>(e).get()...);
        } else values(c, m, false, std::index_sequence<I...>());
    }
    template<int K, int POS, size_t ...I> static void one(CTX &c, const MatchSpec &m, std::index_sequence<I...>) {
        std::tuple<ExpVal<A>...> e(ExpVal<A>(m.v[I])...);
        (void) e;
        LibScope l;
        c.Using(Pick<K, POS, (int) I, A>::make(std::get<I>(e).get())...);
    }
    template<int POS> static void kinds(CTX &c, const MatchSpec &m) {
        typedef typename IdxSeq<A...>::type S;
        switch (m.kind) {
            case MK_EQ: one<MK_EQ, POS>(c, m, S()); break;
            case MK_GT: one<MK_GT, POS>(c, m, S()); break;
            case MK_GE: one<MK_GE, POS>(c, m, S()); break;
            case MK_LT: one<MK_LT, POS>(c, m, S()); break;
            case MK_LE: one<MK_LE, POS>(c, m, S()); break;
            default: one<MK_NE, POS>(c, m, S()); break;
        }
    }
    template<int POS> static void at(CTX &c, const MatchSpec &m) {
        if constexpr (POS < (int) sizeof...(A)) {
            if (m.pos == POS) kinds<POS>(c, m); else at<POS + 1>(c, m);
        } else { (void) c; (void) m; }
    }
    template<int K> static void mixed(CTX &c, const MatchSpec &m) { if (m.kind == K) mix<K>(c, m, typename IdxSeq<A...>::type()); else if constexpr (K + 1 < NMIX) mixed<K + 1>(c, m); }
    template<int K, size_t ...I> static void mix(CTX &c, const MatchSpec &m, std::index_sequence<I...>) {
        std::tuple<ExpVal<A>...> e(ExpVal<A>(m.v[I])...);
        LibScope l;
        c.Using(Pick<mixKind(K, (int) I), -1, (int) I, A>::make(std::get<I>(e).get())...);
    }
    template<int POS, int K, size_t ...I> static void rich(CTX &c, const MatchSpec &m, std::index_sequence<I...> s) {
        typedef Rich<typename MatchArg<typename std::tuple_element<POS, std::tuple<A...>>::type>::N> T;
        if constexpr (K < (int) T::count) {
            if (m.kind == K) T::template with<K>(m.v[POS], [&](auto &&mc) { LibScope l; c.Using(richAt<POS, (int) I>(mc)...); });
            else rich<POS, K + 1>(c, m, s);
        } else { (void) c; (void) m; (void) s; }
    }
    template<int POS> static void richest(CTX &c, const MatchSpec &m) {
        if constexpr (POS < (int) sizeof...(A)) {
            if (m.pos == POS) rich<POS, 0>(c, m, typename IdxSeq<A...>::type()); else richest<POS + 1>(c, m);
        } else { (void) c; (void) m; }
    }
    static void apply(CTX &c, const MatchSpec &m) {
        typedef typename IdxSeq<A...>::type S;
        switch (m.asPred ? (int) M_MATCHING : m.shape) {
            case M_USING: plain(c, m, S()); break;
            case M_CALLVALS: values(c, m, true, S()); break;
            case M_MATCHING: { PredFn<A...> p(m.serial, m.pred); LibScope l; c.Matching(p); break; }
            case M_CALLPRED: { PredFn<A...> p(m.serial, m.pred); LibScope l; c(std::function<bool(A &...)>(p)); break; }
            case M_ONE: if constexpr (AllMatchable<A...>::value && sizeof...(A) > 0) at<0>(c, m); break;
            case M_ALLKIND: if constexpr (AllMatchable<A...>::value && sizeof...(A) > 0) kinds<-1>(c, m); break;
            case M_MIX: if constexpr (AllMatchable<A...>::value && sizeof...(A) > 1) mixed<0>(c, m); break;
            case M_RICH: if constexpr (AllMatchable<A...>::value && sizeof...(A) > 0) richest<0>(c, m); break;
            default: break;
        }
    }
};

// ------------------------------------------------------------------------------------------------ stubbing
template<class R, class ...A> struct Stubber {
    static constexpr bool isVoid = std::is_void<R>::value;

    template<class F> static void withEx(int type, int code, F f) {
        switch (type) {
            case EX_USER: f(UserEx{code}); break;
            case EX_RUNTIME: { char b[32]; snprintf(b, sizeof b, "e%d", code); f(std::runtime_error(b)); break; }
            case EX_INT: f(code); break;
            case EX_VAL: f(ValEx{Val(code)}); break;
            default: f(DerivedEx(code)); break;
        }
    }

    template<class P> static void append(P &&p, const ActRT &a) {
        using namespace fakeit;
        const int t = a.tok[0];
        switch (a.form) {
            case A_RET:
                if constexpr (isVoid) p.Return();
                else if constexpr (std::is_reference<R>::value) p.Return(Ret<R>::make(t));
                else { R v = Ret<R>::make(t); if constexpr (std::is_copy_constructible<R>::value) p.Return(v); else p.Return(std::move(v)); }
                break;
            case A_RETQ:
                if constexpr (isVoid) { if (a.qty == 2 && (a.variant & 1)) p.Return(Times<2>::Void()); else p.Return(timesOf(a.qty)); }
                else if constexpr (!std::is_reference<R>::value && std::is_copy_constructible<R>::value) { R v = Ret<R>::make(t); if (a.qty == 2 && (a.variant & 1)) p.Return(Times<2>::of(v)); else p.Return(timesOf(a.qty)(v)); }
                else { DoFn<R, A...> d(t); p.Do(timesOf(a.qty)(std::function<R(A &...)>(d))); }
                break;
            case A_RETM:
                if constexpr (!isVoid && !std::is_reference<R>::value && std::is_copy_constructible<R>::value) {
                    R v0 = Ret<R>::make(a.tok[0]), v1 = Ret<R>::make(a.tok[1]);
                    if (a.n == 2) p.Return(v0, v1); else { R v2 = Ret<R>::make(a.tok[2]); p.Return(v0, v1, v2); }
                } else { for (int i = 0; i < a.n; i++) p.Do(DoFn<R, A...>(a.tok[i])); }
                break;
            case A_RETDEF: if constexpr (!std::is_same<R, std::unique_ptr<Val>>::value) p.Return(); else p.Do(DoFn<R, A...>(t)); break;
            case A_THROW: withEx(a.exType, t, [&](const auto &e) { p.Throw(e); }); break;
            case A_THROWQ: withEx(a.exType, t, [&](const auto &e) { p.Throw(timesOf(a.qty)(e)); }); break;
            case A_THROWM:
                if (a.n == 2) p.Throw(UserEx{a.tok[0]}, DerivedEx(a.tok[1])); else p.Throw(UserEx{a.tok[0]}, DerivedEx(a.tok[1]), a.tok[2]);
                break;
            case A_DO: p.Do(DoFn<R, A...>(t)); break;
            case A_DOQ: { std::function<R(A &...)> f = DoFn<R, A...>(t); p.Do(timesOf(a.qty)(f)); break; }
            case A_DOM:
                if (a.n == 2) p.Do(std::function<R(A &...)>(DoFn<R, A...>(a.tok[0])), std::function<R(A &...)>(DoFn<R, A...>(a.tok[1])));
                else p.Do(std::function<R(A &...)>(DoFn<R, A...>(a.tok[0])), std::function<R(A &...)>(DoFn<R, A...>(a.tok[1])), std::function<R(A &...)>(DoFn<R, A...>(a.tok[2])));
                break;
            case A_RETSET: RetSet<R, A...>::once(p, a); break;
            case A_ALWRET:
                if constexpr (isVoid) p.AlwaysReturn();
                else if constexpr (std::is_reference<R>::value) p.AlwaysReturn(Ret<R>::make(t));
                else if constexpr (std::is_copy_constructible<R>::value) { R v = Ret<R>::make(t); p.AlwaysReturn(v); }
                else p.AlwaysDo(DoFn<R, A...>(t));
                break;
            case A_ALWRETDEF: if constexpr (!std::is_same<R, std::unique_ptr<Val>>::value) p.AlwaysReturn(); else p.AlwaysDo(DoFn<R, A...>(t)); break;
            case A_ALWTHROW: withEx(a.exType, t, [&](const auto &e) { p.AlwaysThrow(e); }); break;
            case A_ALWDO: p.AlwaysDo(DoFn<R, A...>(t)); break;
            case A_ALWRETSET: RetSet<R, A...>::always(p, a); break;
            default: break;
        }
    }

    // return-and-set exists for the signatures with out arguments
    template<class RR, class ...AA> struct RetSet {
        template<class P> static void once(P &p, const ActRT &a) { p.Do(DoFn<RR, AA...>(a.tok[0])); }
        template<class P> static void always(P &p, const ActRT &a) { p.AlwaysDo(DoFn<RR, AA...>(a.tok[0])); }
    };
};

// the signatures with out arguments: positional and placeholder forms, complete and partial.  retSetMask says
// which arguments a variant sets.
template<> template<> struct Stubber<void, int, int *>::RetSet<void, int, int *> {
    template<class P> static void once(P &p, const ActRT &a) { using namespace fakeit::placeholders; p.ReturnAndSet(_2 <= outAt(a.out, 1)); }
    template<class P> static void always(P &p, const ActRT &a) { using namespace fakeit::placeholders; p.AlwaysReturnAndSet(_2 <= outAt(a.out, 1)); }
};
template<> template<> struct Stubber<int, int &, std::string &>::RetSet<int, int &, std::string &> {
    static std::string str(const ActRT &a, int i) { return Codec<std::string>::make(outAt(a.out, i)); }
    template<class P> static void once(P &p, const ActRT &a) {
        using namespace fakeit::placeholders;
        switch (a.variant & 3) {
            case 0: p.ReturnAndSet(int(a.tok[0]), _1 <= outAt(a.out, 0), _2 <= str(a, 1)); break;
            case 1: p.ReturnAndSet(int(a.tok[0]), _2 <= str(a, 1), _1 <= outAt(a.out, 0)); break;
            default: p.ReturnAndSet(int(a.tok[0]), outAt(a.out, 0), str(a, 1)); break;
        }
    }
    template<class P> static void always(P &p, const ActRT &a) {
        using namespace fakeit::placeholders;
        switch (a.variant & 3) {
            case 0: p.AlwaysReturnAndSet(int(a.tok[0]), _1 <= outAt(a.out, 0), _2 <= str(a, 1)); break;
            case 1: p.AlwaysReturnAndSet(int(a.tok[0]), _2 <= str(a, 1), _1 <= outAt(a.out, 0)); break;
            default: p.AlwaysReturnAndSet(int(a.tok[0]), outAt(a.out, 0), str(a, 1)); break;
        }
    }
};
template<> template<> struct Stubber<int, int &, int *, std::string &, int &>::RetSet<int, int &, int *, std::string &, int &> {
    static int num(const ActRT &a, int i) { return outAt(a.out, i); }
    static std::string str(const ActRT &a, int i) { return Codec<std::string>::make(outAt(a.out, i)); }
#define SIM_RETSET(NAME) \
        using namespace fakeit::placeholders; \
        int t = a.tok[0]; \
        switch (a.variant & 7) { \
            case 0: p.NAME(std::move(t), num(a, 0), num(a, 1), str(a, 2), num(a, 3)); break; \
            case 1: p.NAME(std::move(t), _4 <= num(a, 3), _2 <= num(a, 1), _1 <= num(a, 0), _3 <= str(a, 2)); break; \
            case 2: p.NAME(std::move(t), num(a, 0), num(a, 1), str(a, 2)); break; \
            case 3: p.NAME(std::move(t), num(a, 0)); break; \
            case 4: p.NAME(std::move(t), _4 <= num(a, 3), _2 <= num(a, 1)); break; \
            case 5: p.NAME(std::move(t), _3 <= str(a, 2), _4 <= num(a, 3)); break; \
            case 6: p.NAME(std::move(t), _1 <= 9 - num(a, 0), _3 <= str(a, 2), _1 <= num(a, 0)); break; \
            default: p.NAME(std::move(t), num(a, 0), num(a, 1)); break; \
        }
    template<class P> static void once(P &p, const ActRT &a) { SIM_RETSET(ReturnAndSet) }
    template<class P> static void always(P &p, const ActRT &a) { SIM_RETSET(AlwaysReturnAndSet) }
#undef SIM_RETSET
};

template<class ...A> constexpr bool allSpyable() {
    bool d[] = {true, (!std::is_same<A, std::unique_ptr<Val>>::value && !std::is_rvalue_reference<A>::value)...};
    bool r = true;
    for (bool b : d) r = r && b;
    return r;
}

template<class CTX, bool DTOR_CTX, class R, class ...A> struct CtxBoxT : CtxBox {
    CTX c;
    explicit CtxBoxT(CTX &&x) : c(std::move(x)) {}
    const fakeit::Sequence &seq() override { return c; }
    const fakeit::ActualInvocationsSource &src() override { return c; }
    void match(const MatchSpec &m) override { if constexpr (!DTOR_CTX) Matching_<CTX, R, A...>::apply(c, m); else (void) m; }
    bool capture(std::vector<std::vector<int>> &into, std::vector<const void *> *) override {
        if constexpr (!DTOR_CTX) { LibScope l; c.Matching(CapFn<A...>{&into}); return true; }
        else { (void) into; return false; }
    }
    void when(const PhraseRT &ph) override {
        using namespace fakeit;
        typedef Stubber<R, A...> St;
        LibScope l;
        switch (ph.style) {
            case ST_TEMP: // one full expression
                if (ph.acts.size() == 1 && !ph.hold && !ph.interruptAt) { if (ph.atEnd) { HarnessScope h; ph.atEnd(); } St::append(When(c), ph.acts[0]); break; }
                named(ph, 0);
                break;
            case ST_COPIES: named(ph, 2); break;
            case ST_FAKE:
                { HarnessScope h; if (ph.atEnd) ph.atEnd(); }
                if constexpr (!std::is_same<R, std::unique_ptr<Val>>::value) Fake(c);
                break;
            case ST_ASSIGN_FN: { { HarnessScope h; if (ph.atEnd) ph.atEnd(); } c = std::function<R(A &...)>(DoFn<R, A...>(ph.acts[0].tok[0])); break; }
            case ST_ASSIGN_VAL:
                { HarnessScope h; if (ph.atEnd) ph.atEnd(); }
                if constexpr (std::is_void<R>::value || std::is_reference<R>::value || !std::is_copy_constructible<R>::value) c = std::function<R(A &...)>(DoFn<R, A...>(ph.acts[0].tok[0]));
                else { R v = Ret<R>::make(ph.acts[0].tok[0]); c = v; }
                break;
            case ST_SPY:
                { HarnessScope h; if (ph.atEnd) ph.atEnd(); }
                if constexpr (allSpyable<A...>()) fakeit::Spy(c);
                break;
            case ST_SPYWV:
                { HarnessScope h; if (ph.atEnd) ph.atEnd(); }
                fakeit::SpyWithoutVerify(c);
                break;
            default: named(ph, 0); break;
        }
    }
    void named(const PhraseRT &ph, int copies) {
        using namespace fakeit;
        auto pr = When(c);
        int i = 0;
        for (; i < (int) ph.acts.size(); i++) {
            if (ph.interruptAt == i + 1) throw Interrupt{1};
            Stubber<R, A...>::append(pr, ph.acts[i]);
        }
        if (copies) {
            auto second = pr;
            { auto third = second; (void) third; }
            if (ph.hold) { HarnessScope h; ph.hold(); }
            if (ph.interruptAt == i + 1) throw Interrupt{1};
            if (ph.atEnd) { HarnessScope h; ph.atEnd(); }
            return;
        }
        if (ph.hold) { HarnessScope h; ph.hold(); }
        if (ph.interruptAt == i + 1) throw Interrupt{1};
        if (ph.atEnd) { HarnessScope h; ph.atEnd(); }
    }
};
// naming a method yields a context by value or by reference; its type is taken as it comes
template<class F> struct BoxCtx;
template<class C, class R, class ...A> struct BoxCtx<R (C::*)(A...)> {
    template<class CTX> static CtxBox *make(CTX &&c) { HarnessScope h; return new CtxBoxT<typename std::decay<CTX>::type, false, R, A...>(std::move(c)); }
};
#define SIM_QUALIFIED(Q) template<class C, class R, class ...A> struct BoxCtx<R (C::*)(A...) Q> : BoxCtx<R (C::*)(A...)> {};
SIM_QUALIFIED(const) SIM_QUALIFIED(volatile) SIM_QUALIFIED(const volatile) SIM_QUALIFIED(&) SIM_QUALIFIED(&&) SIM_QUALIFIED(const &) SIM_QUALIFIED(const &&)
#undef SIM_QUALIFIED
template<class CTX> CtxBox *boxDtor(CTX &&c) { HarnessScope h; return new CtxBoxT<typename std::decay<CTX>::type, true, void>(std::move(c)); }

// ------------------------------------------------------------------------------------------------ calling
template<class C, class R, class PM, bool RV, class ...A, size_t ...I>
Outcome doCall(C *o, PM pm, const ArgVal *args, std::index_sequence<I...>) {
    Outcome out;
    (void) args;
    auto invoke = [&](auto &&... a) -> R {
        if constexpr (RV) return (std::move(*o).*pm)(std::forward<decltype(a)>(a)...);
        else return (o->*pm)(std::forward<decltype(a)>(a)...);
    };
    try {
        std::tuple<typename Param<A>::Slot...> s{typename Param<A>::Slot(args[I])...};
        (void) s;
        if constexpr (std::is_void<R>::value) {
            { LibScope l; invoke(std::get<I>(s).pass()...); }
        } else {
            LibScope l;
            R r = invoke(std::get<I>(s).pass()...);
            HarnessScope h;
            out.code = Ret<R>::read(r);
        }
        int d[] = {0, (std::get<I>(s).scramble(), 0)...};
        (void) d;
    } catch (...) { out = currentExceptionOutcome(); }
    return out;
}
#define SIM_CALL(OBJ, Q, RV) \
    template<class C, class B, class R, class ...A> Outcome callPM(C *o, R (B::*pm)(A...) Q, const ArgVal *args) { \
        return doCall<OBJ, R, R (B::*)(A...) Q, RV, A...>(o, pm, args, std::make_index_sequence<sizeof...(A)>()); \
    }
SIM_CALL(B, , false) SIM_CALL(const B, const, false) SIM_CALL(volatile B, volatile, false) SIM_CALL(const volatile B, const volatile, false)
SIM_CALL(B, &, false) SIM_CALL(B, &&, true) SIM_CALL(const B, const &, false) SIM_CALL(const B, const &&, true)
#undef SIM_CALL

// ------------------------------------------------------------------------------------------------ mocks
template<class C> struct Members {
    static void stub(fakeit::Mock<C> &, int, int) {}
    static int read(C &, int) { return 0; }
    static void write(C &, int, int) {}
};

template<class C> struct MockBoxT : MockBox {
    fakeit::Mock<C> *mp;
    MockBoxT() { LibScope l; mp = new fakeit::Mock<C>(); }
    explicit MockBoxT(C &o) { LibScope l; mp = new fakeit::Mock<C>(o); }
    ~MockBoxT() override { LibScope l; delete mp; }
    void *object() override { LibScope l; return &mp->get(); }
    const fakeit::ActualInvocationsSource &src() override { return *mp; }
    void reset() override { LibScope l; mp->Reset(); }
    void clear() override { LibScope l; mp->ClearInvocationHistory(); }
    CtxBox *dtorCtx(int variant) override {
        (void) variant;
        if constexpr (std::has_virtual_destructor<C>::value) {
            fakeit::Mock<C> &m = *mp;
            LibScope l;
            if (variant & 1) return boxDtor(Dtor(m));
            return boxDtor(Dtor(m));
        } else return nullptr;
    }
    bool refusesDtor() override {
        if constexpr (!std::has_virtual_destructor<C>::value) {
            using namespace fakeit;
            Mock<C> &m = *mp;
            LibScope l;
            try { Fake(Dtor(m)); } catch (const std::runtime_error &) { return true; }
        }
        return false;
    }
    void destroyObject(int how) override {
        if constexpr (std::has_virtual_destructor<C>::value) {
            LibScope l;
            C *o = &mp->get();
            switch (how & 3) {
                case 0: delete o; break;
                case 1: { std::unique_ptr<C> u(o); break; }
                case 2: o->~C(); break;
                default: { std::shared_ptr<C> s(o); break; }
            }
        } else (void) how;
    }
    void stubMember(int w, int v) override { LibScope l; Members<C>::stub(*mp, w, v); }
    int readMember(int w) override { return Members<C>::read(mp->get(), w); }
    void writeMember(int w, int v) override { LibScope l; Members<C>::write(mp->get(), w, v); }
};
template<class C> MockBox *createMock(void *spied) {
    if (spied) return new MockBoxT<C>(*static_cast<C *>(spied));
    return new MockBoxT<C>();
}

template<class F> struct SigOf;
template<class C, class R, class ...A> struct SigOf<R (C::*)(A...)> {
    static constexpr bool copyArgs() { return allSpyable<A...>(); }
    static void fill(MethodDesc &d) {
        d.ret = Ret<R>::kind;
        d.pars = std::vector<int>{Param<A>::kind...};
        d.caps = 0;
        if (std::is_void<R>::value || std::is_reference<R>::value || std::is_copy_constructible<R>::value) d.caps |= CAP_COPYABLE_RET;
        d.caps |= copyArgs() ? CAP_SPY : CAP_SPYWV;
        if (copyArgs()) d.caps |= CAP_SPYWV;
        if (!AllMatchable<A...>::value) d.caps |= CAP_NOMATCH;
        for (int k : d.pars) { if (pkVal(k)) d.caps |= CAP_VALARG; }
    }
};
#define SIM_QUALIFIED(Q) template<class C, class R, class ...A> struct SigOf<R (C::*)(A...) Q> : SigOf<R (C::*)(A...)> {};
SIM_QUALIFIED(const) SIM_QUALIFIED(volatile) SIM_QUALIFIED(const volatile) SIM_QUALIFIED(&) SIM_QUALIFIED(&&) SIM_QUALIFIED(const &) SIM_QUALIFIED(const &&)
#undef SIM_QUALIFIED

// NAME: text of the method name, EXPR: expression naming it on mock m, PM: typed member pointer.  EXPR is expanded
// twice so that each method is named from two places of the program, as user code does.
#define SIM_METHOD(C, NAME, EXPR, ...) \
    { MethodDesc d; d.name = NAME; typedef decltype(__VA_ARGS__) PMT; SigOf<PMT>::fill(d); \
      d.ctx = [](MockBox &b, int variant) -> CtxBox * { fakeit::Mock<C> &m = *static_cast<MockBoxT<C> &>(b).mp; LibScope l; \
          if (variant & 1) { return BoxCtx<PMT>::make(EXPR); } \
          return BoxCtx<PMT>::make(EXPR); }; \
      d.call = [](void *o, const ArgVal *a) -> Outcome { return callPM((C *) o, __VA_ARGS__, a); }; \
      cd.methods.push_back(d); }
#define SIM_PLAIN(C, F) SIM_METHOD(C, #F, Method(m, F), &C::F)
