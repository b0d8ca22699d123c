// A run is a tree of operations.  The tree is generated up front from the seed, so the same tree can be
// executed again under another memory environment, shrunk, written to a replay file and read back.
#pragma once
#include <vector>
#include <string>
#include <sstream>
#include <cstring>

enum OpKind : int {
    O_NONE, O_NEWMOCK, O_DELMOCK, O_STUB, O_CALL, O_VERIFY, O_VNOI, O_RESET, O_CLEAR, O_SETCELL,
    O_MEMBER, O_DESTROY, O_LISTEN, O_ADAPTER, O_FORMATTER, O_AUDIT, O_NAME, O_OBJCALL,
    O_ACT, O_SEQ, O_LEAF, O_HOLD, O_COND, O_THREAD, O_SWITCH, O_GROUP, O_AGAIN, O_REAL, O_COUNT
};

inline const char *opName(int k) {
    static const char *n[] = {"NONE", "NEWMOCK", "DELMOCK", "STUB", "CALL", "VERIFY", "VNOI", "RESET", "CLEAR", "SETCELL",
                              "MEMBER", "DESTROY", "LISTEN", "ADAPTER", "FORMATTER", "AUDIT", "NAME", "OBJCALL",
                              "ACT", "SEQ", "LEAF", "HOLD", "COND", "THREAD", "SWITCH", "GROUP", "AGAIN", "REAL"};
    return k >= 0 && k < O_COUNT ? n[k] : "?";
}

struct Op {
    int k = O_NONE;
    std::vector<int> p;
    std::vector<Op> s;
    Op() {}
    Op(int kind, std::vector<int> params = {}, std::vector<Op> sub = {}) : k(kind), p(std::move(params)), s(std::move(sub)) {}
    int P(unsigned i) const { return i < p.size() ? p[i] : 0; }
    void set(unsigned i, int v) { if (p.size() <= i) p.resize(i + 1, 0); p[i] = v; }
};

typedef std::vector<Op> Trace;

inline void writeOp(std::ostream &o, const Op &op, int ind) {
    for (int i = 0; i < ind; i++) o << ' ';
    o << '(' << opName(op.k);
    size_t n = op.p.size();
    while (n && op.p[n - 1] == 0) n--;
    for (size_t i = 0; i < n; i++) o << ' ' << op.p[i];
    if (!op.s.empty()) {
        o << '\n';
        for (auto &c : op.s) writeOp(o, c, ind + 2);
        for (int i = 0; i < ind; i++) o << ' ';
    }
    o << ")\n";
}

inline std::string writeTrace(const Trace &t) {
    std::ostringstream o;
    for (auto &op : t) writeOp(o, op, 0);
    return o.str();
}

struct TraceParser {
    const std::string &t;
    size_t i = 0;
    explicit TraceParser(const std::string &s) : t(s) {}
    void ws() { while (i < t.size() && isspace((unsigned char) t[i])) i++; }
    bool op(Op &out) {
        ws();
        if (i >= t.size() || t[i] != '(') return false;
        i++;
        std::string name;
        while (i < t.size() && isalpha((unsigned char) t[i])) name += t[i++];
        for (int k = 0; k < O_COUNT; k++) if (name == opName(k)) out.k = k;
        for (;;) {
            ws();
            if (i >= t.size()) return false;
            if (t[i] == ')') { i++; return true; }
            if (t[i] == '(') { Op c; if (!op(c)) return false; out.s.push_back(c); continue; }
            char *e;
            long v = strtol(t.c_str() + i, &e, 10);
            if (e == t.c_str() + i) return false;
            i = e - t.c_str();
            out.p.push_back((int) v);
        }
    }
    Trace all() { Trace r; for (;;) { Op o; if (!op(o)) break; r.push_back(o); } return r; }
};

inline int traceSize(const Trace &t) { int n = 0; for (auto &o : t) n += 1 + traceSize(o.s); return n; }

inline bool anyOp(const Trace &t, bool (*f)(const Op &)) {
    for (auto &o : t) if (f(o) || anyOp(o.s, f)) return true;
    return false;
}
inline int countOp(const Trace &t, int k) {
    int n = 0;
    for (auto &o : t) n += (o.k == k) + countOp(o.s, k);
    return n;
}
