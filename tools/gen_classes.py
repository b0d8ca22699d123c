#!/usr/bin/env python3
"""Writes C++ classes drawn from a seed, with their descriptions for the simulator: gen_classes.py SEED DIRECTORY.

Every class stays within what the library supports: one base at most per class, no virtual inheritance, no more than 1000
entries in the virtual table.  The first three are plain and fixed; discrepancies are attributed by running on them instead.
"""
import random
import sys

FILES = 12
SIG = {"p": "int %s(int)", "c": "int %s(int) const", "q": "int %s(int, int)"}
CAST = {"p": "int (%s::*)(int)", "c": "int (%s::*)(int) const", "q": "int (%s::*)(int, int)"}
NAMED = {"p": "OverloadedMethod(m, %s, int(int))", "c": "ConstOverloadedMethod(m, %s, int(int))", "q": "OverloadedMethod(m, %s, int(int, int))"}
BODY = {"p": "{ return -77777; }", "c": "{ return -77777; }", "q": "{ return -77777; }"}


class Class:
    def __init__(self, name):
        self.name = name
        self.text = []
        self.methods = []       # (kind, name, overloaded)
        self.dtor = False
        self.throws = False
        self.fields = []

    def describe(self, first, last, methods):
        out = []
        if first:
            out.append('    { ClassDesc cd{"%s", {}, %s, %s, %s, false, createMock<%s>}; all.push_back(cd); }' % (
                self.name, *(str(x).lower() for x in (self.dtor, self.throws, bool(self.fields))), self.name))
        out.append("    { ClassDesc &cd = all.back();")
        if first:
            out.append("    cd.real = [](void *o) -> void * { if (!o) return static_cast<%s *>(new %s_real()); delete static_cast<%s_real *>(static_cast<%s *>(o)); return nullptr; };" % ((self.name,) * 4))
        for kind, name, over in methods:
            if over:
                out.append('    SIM_METHOD(%s, "%s", %s, static_cast<%s>(&%s::%s))' % (self.name, name, NAMED[kind] % name, CAST[kind] % self.name, self.name, name))
            else:
                out.append("    SIM_PLAIN(%s, %s)" % (self.name, name))
        out.append("    }")
        return out


    def real(self):
        """A class derived from it that implements everything."""
        out = ["struct %s_real : %s {" % (self.name, self.name)]
        for i, (kind, name, _) in enumerate(self.methods):
            sig = {"p": "int %s(int a)", "c": "int %s(int a) const", "q": "int %s(int a, int b)"}[kind] % name
            out.append("    %s override { return simOwn(%d, a%s); }" % (sig, i, ", b" if kind == "q" else ""))
        return out + ["    ~%s_real()%s { simOwn(-1, 0); }" % (self.name, " noexcept(false)" if self.throws else ""), "};"]


def plain(name, dtor):
    c = Class(name)
    ms = ["    virtual int f%d(int) = 0;" % i for i in range(8)]
    d = "    virtual ~%s() {}" % name
    c.text = ["struct %s {" % name] + ([d] if dtor == "first" else []) + ms + ([d] if dtor == "last" else []) + ["    int m0, m1, m2;", "};"]
    c.fields = ["m0", "m1", "m2"]
    c.methods = [("p", "f%d" % i, False) for i in range(8)]
    c.dtor = dtor is not None
    return c


def data(r, level, pick):
    lines = []
    for _ in range(r.randrange(3)):
        lines.append("    " + r.choice(["char pad%d_%d[%d];" % (level, len(lines), r.choice([1, 3, 7, 13, 64, 300])), "double d%d_%d;" % (level, len(lines)),
                                          "short s%d_%d;" % (level, len(lines)), "long double ld%d_%d;" % (level, len(lines))]))
    for f in pick:
        lines.insert(r.randrange(len(lines) + 1), "    int %s;" % f)
    return lines


def drawn(r, name, total=None):
    c = Class(name)
    levels = r.choice([1, 1, 1, 2, 2, 2, 3, 3, 4])
    fields = [] if r.random() < 0.5 else ["m0", "m1", "m2"]
    c.fields = fields
    where = sorted(r.randrange(levels) for _ in fields)
    base = None
    if r.random() < 0.15:
        base = name + "_data"
        c.text += ["struct %s {" % base, "    int nothing[%d];" % r.choice([1, 2, 5]), "    int plainMethod(int a) { return a + nothing[0]; }", "};"]
    dtorMode = r.choice(["none", "none", "root", "root", "later"]) if total is None else r.choice(["none", "root", "root"])
    dtorLevel = {"none": -1, "root": 0, "later": r.randrange(levels)}[dtorMode]
    c.dtor = dtorLevel >= 0
    c.throws = c.dtor and r.random() < 0.25
    if total is not None:
        total = total - (2 if c.dtor else 0)
        cuts = sorted(r.randrange(total + 1) for _ in range(levels - 1))
        counts = [b - a for a, b in zip([0] + cuts, cuts + [total])]
    else:
        counts = [r.choice([0, 1, 1, 2, 3, 4, 5, 6, 9, r.randrange(12, 40)]) for _ in range(levels)]
        if not sum(counts):
            counts[-1] = 1
    n = 0
    known = []          # (kind, name) in the order of the table
    declared = False
    for lv in range(levels):
        cls = name if lv == levels - 1 else "%s_%d" % (name, lv)
        lines = []
        own = []
        for _ in range(counts[lv]):
            kind = r.choice("pppppppcq") if total is None else "p"
            fname = "f%d" % n
            n += 1
            over = False
            twins = [k for k in own if k[0] != kind and k[2] != "used" and sum(x[1] == k[1] for x in own) == 1]
            if total is None and twins and r.random() < 0.25:
                fname = r.choice(twins)[1]
            own.append([kind, fname, over])
        for k in own:
            k[2] = sum(x[1] == k[1] for x in own) > 1
        for k in own:
            impl = r.random() < 0.4
            lines.append("    virtual %s %s" % (SIG[k[0]] % k[1], BODY[k[0]] if impl else "= 0;"))
        # redeclared below: the entry stays where it was
        again = [k for k in known if not k[2] and r.random() < (0.25 if total is None else 0.01)]
        for k in again:
            at = r.randrange(len(lines) + 1)
            lines.insert(at, "    %s%s override %s" % (r.choice(["virtual ", ""]), SIG[k[0]] % k[1], BODY[k[0]] if r.random() < 0.6 else "= 0;"))
        if lv == dtorLevel or (declared and r.random() < 0.4):
            lines.insert(r.choice([0, len(lines), r.randrange(len(lines) + 1)]), "    %s~%s()%s {}" % ("" if declared and r.random() < 0.5 else "virtual ", cls, " noexcept(false)" if c.throws else ""))
            declared = True
        if r.random() < 0.3:
            lines.insert(r.randrange(len(lines) + 1), "    int aside%d(int a) { return a; }" % lv)
        if r.random() < 0.2:
            lines.insert(r.randrange(len(lines) + 1), "    static int fixed%d(int a) { return a; }" % lv)
        for d in data(r, lv, [f for f, w in zip(fields, where) if w == lv]):
            lines.insert(r.randrange(len(lines) + 1), d)
        c.text += ["struct %s%s {" % (cls, " : " + base if base else "")] + lines + ["};"]
        known += own
        base = cls
    c.methods = [tuple(k) for k in known]
    return c


def main():
    seed, where = int(sys.argv[1]), sys.argv[2]
    r = random.Random("classes %d" % seed)
    classes = [plain("P0", None), plain("P1", "first"), plain("P2", "last")]
    for i in range(14):
        classes.append(drawn(r, "G%d" % i))
    classes.append(drawn(r, "Mid", r.choice([120, 127, 128, 129, 255, 256, 257, 260])))
    classes.append(drawn(r, "Huge", 1000))
    head = ["#pragma once"]
    for c in classes:
        head += c.text + c.real()
    with open(where + "/gen_classes.hpp", "w") as f:
        f.write("\n".join(head) + "\n")
    # descriptions in order, cut into files of about the same length
    items = []
    for c in classes:
        for i in range(0, len(c.methods), 60):
            part = c.methods[i:i + 60]
            items.append((c, i == 0, part))
    cost = [45 + len(p) if first else len(p) for _, first, p in items]
    total = sum(cost)
    files = [[] for _ in range(FILES)]
    run = 0
    for it, k in zip(items, cost):
        files[min(FILES - 1, run * FILES // total)].append(it)
        run += k
    for n, its in enumerate(files):
        out = ['#include "mocked.hpp"', '#include "typed.hpp"', '#include "gen_classes.hpp"']
        for c, first, _ in its:
            if first and c.fields:
                out += ["template<> struct Members<%s> {" % c.name,
                        "    static void stub(fakeit::Mock<%s> &m, int w, int v) { switch (w) { case 0: m.Stub(static_cast<int %s::*>(&%s::m0), v); break; case 1: m.Stub(static_cast<int %s::*>(&%s::m1), v + 1); break; default: m.Stub(static_cast<int %s::*>(&%s::m2), v); break; } }" % ((c.name,) * 7),
                        "    static int read(%s &s, int w) { return w == 0 ? s.m0 : w == 1 ? s.m1 - 1 : s.m2; }" % c.name,
                        "    static void write(%s &s, int w, int v) { (w == 0 ? s.m0 : w == 1 ? s.m1 : s.m2) = w == 1 ? v + 1 : v; }" % c.name, "};"]
        out.append("static void add(std::vector<ClassDesc> &all) {")
        for c, first, part in its:
            out += c.describe(first, False, part)
        out += ["}", "static AddClasses registered(%d, add);" % n]
        with open(where + "/cls_gen%d.cpp" % n, "w") as f:
            f.write("\n".join(out) + "\n")


main()
