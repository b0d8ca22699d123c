#!/usr/bin/env python3
"""Decides one property by deterministic simulation.

    run.py C04 [--tier quick|thorough]   run the check (VERIF_SEED, VERIF_TIER are honoured)
    run.py --build                       build the simulators only
    run.py --replay FILE                 re-execute a replay file in a fresh process
    run.py --determinism C04             run seeds twice, in different processes and worker counts, compare

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.  Anything else is an error of the check.
"""
import concurrent.futures
import difflib
import glob
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
GEN_CLASSES = os.path.join(HERE, "tools", "gen_classes.py")
WORKERS = max(1, min(8, os.cpu_count() or 1))

FLAGS = ["-std=c++17", "-O1", "-g1", "-fno-pie", "-w"]
TARGETS = {
    # name: (sources, extra compile flags, extra link flags)
    "sim": (["arena", "cls_svc1", "cls_svc2", "cls_svc3", "cls_many", "cls_small", "cls_leaf", "cls_qual", "cls_cond", "cls_wide", "interp", "gen", "main"], [], []),
    # the same with threads: memory accesses are instrumented by the compiler and reported to the scheduler in sched.cpp
    "simt": (["arena", "cls_svc1", "cls_svc2", "cls_svc3", "cls_many", "cls_small", "cls_leaf", "cls_qual", "cls_cond", "cls_wide", "interp", "gen", "main", "sched"], ["-DSIM_THREADS"], ["-ldl"]),
    # the same with mocked classes drawn from a seed as well
    "simg": (["arena", "cls_svc1", "cls_svc2", "cls_svc3", "cls_many", "cls_small", "cls_leaf", "cls_qual", "cls_cond", "cls_wide", "interp", "gen", "main"], [], []),
}
GENERATED = ["cls_gen%d" % i for i in range(12)]
# one simulator per bundled configuration: name, directory under config/
CONFIGURATIONS = {"standalone": "standalone", "gtest": "gtest", "catch": "catch", "catch_old": "catch", "boost": "boost", "boost_old": "boost", "cute": "cute",
                  "doctest": "doctest", "mettle": "mettle", "mstest": "mstest", "nunit": "nunit", "qtest": "qtest", "tpunit": "tpunit"}
for c in CONFIGURATIONS:
    TARGETS["conf_" + c] = (["conf", "main", "arena"], ["-DCONF=" + c, "-DCONF_" + c, "-I" + os.path.join(SIM, "frameworks")], [])

    # the first simulator, built with the single header of a configuration
    if CONFIGURATIONS[c] == c:
        TARGETS["as_" + c] = (TARGETS["sim"][0], ["-DSIM_CONFIGURATION", "-DCONF=" + c, "-DCONF_" + c, "-I" + os.path.join(SIM, "frameworks")], [])

# ways of compiling a program that uses the library: flags after FLAGS
SETTINGS = {
    "gcc_11": ["-std=c++14", "-DSIM_STANDARD=201103L", "-O0"],
    "gcc_14": ["-std=c++14", "-fno-elide-constructors"],
    "gcc_17": ["-std=c++17", "-O0"],
    "clang_14": ["-std=c++14", "-O0"],
    "clang_17": ["-std=c++17", "-O1"],
}
for c in SETTINGS:
    TARGETS["set_" + c] = (TARGETS["sim"][0], SETTINGS[c], [])

INSTRUMENTED = ("cls_svc1", "cls_svc2", "cls_svc3", "cls_many", "cls_small", "cls_leaf", "cls_qual", "cls_cond", "cls_wide", "interp")

# runs per tier: (quick, thorough)
RUNS = {"C23": (160000, 1600000), "C24": (240000, 2400000), "C11": (120000, 1600000), "C12": (240000, 2400000), "C13": (120000, 1600000), "C14": (240000, 2400000), "C17": (240000, 2400000),
        "C21": (200000, 1600000), "C22": (260000, 2600000)}
DEFAULT_RUNS = (400000, 4000000)


def log(msg):
    print(msg, flush=True)


def fail(msg):
    log("CHECK-ERROR " + msg)
    sys.exit(2)


def configuration(target):
    return CONFIGURATIONS[target[5:]] if target.startswith("conf_") else target[3:] if target.startswith("as_") else "standalone"


def compiler(target):
    return "clang++" if target.startswith("set_clang") else "g++"


class CannotBuild(Exception):
    pass


def headers(target, form):
    """The directories the library is included from.  form: none for the sources, else where the single headers are."""
    if form:
        return [os.path.join(form, configuration(target))]
    return [os.path.join(REPO, "include"), os.path.join(REPO, "config", configuration(target))]


def tree_key(target, seed, form):
    h = hashlib.sha256()
    files = sorted(glob.glob(os.path.join(SIM, "**"), recursive=True))
    if form: # equal texts need one simulator only; when they were generated does not matter
        with open(os.path.join(form, configuration(target), "fakeit.hpp"), errors="replace") as f:
            h.update("".join(l for l in f if not l.startswith(" *  Generated: ")).encode())
    if target == "simg":
        files.append(GEN_CLASSES)
        h.update(b"classes %d" % seed)
    for root in () if form else headers(target, form):
        for d, _, names in sorted(os.walk(root)):
            files += [os.path.join(d, n) for n in sorted(names)]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    h.update(repr((TARGETS[target], FLAGS)).encode())
    return h.hexdigest()[:20]


def build(target, seed=1, form=None):
    """Compiles the simulator against the headers of the working tree; cached by content."""
    sources, extra, link = TARGETS[target]
    key = tree_key(target, seed, form)
    family = ("one_" if form else "") + target + "-"
    out = os.path.join(BUILD, family + key)
    exe = os.path.join(out, target)
    if os.path.exists(exe):
        os.utime(out)   # in use: not among those removed below
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=family, dir=BUILD)
    inc = ["-I" + SIM] + ["-I" + d for d in headers(target, form)]
    if target == "simg":
        subprocess.run([sys.executable, GEN_CLASSES, str(seed), tmp], check=True)
        sources = GENERATED[::-1] + sources

    def one(s):
        instrument = ["-fsanitize=thread"] if target == "simt" and s in INSTRUMENTED else []
        cmd = [compiler(target)] + FLAGS + extra + instrument + inc + ["-c", os.path.join(tmp if s in GENERATED else SIM, s + ".cpp"), "-o", os.path.join(tmp, s + ".o")]
        return s, subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=SIM)
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        for s, r in ex.map(one, sources):
            if r.returncode:
                subprocess.run(["rm", "-rf", tmp])
                raise CannotBuild("cannot compile %s of %s: %s" % (s, target, r.stdout.decode(errors="replace")[-3000:]))
    cmd = [compiler(target), "-no-pie"] + [os.path.join(tmp, s + ".o") for s in sources] + ["-o", os.path.join(tmp, target), "-lpthread"] + link
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        subprocess.run(["rm", "-rf", tmp])
        raise CannotBuild("cannot link %s: %s" % (target, r.stdout.decode(errors="replace")[-3000:]))
    for s in sources:
        os.unlink(os.path.join(tmp, s + ".o"))
    try:
        os.rename(tmp, out)
    except OSError:
        subprocess.run(["rm", "-rf", tmp])
    old = sorted(glob.glob(os.path.join(BUILD, family + "*")), key=os.path.getmtime)[:-4]
    for d in old:
        if d != out and not (target == "simg" and time.time() - os.path.getmtime(d) < 900):
            subprocess.run(["rm", "-rf", d])
    return exe


def target_of(prop):
    return {"C11": "simt", "C21": "simg"}.get(prop, "sim")


class Differs(Exception):
    """A single header that cannot be used where the sources can."""


def generated(scratch):
    """Single headers made by the repository's generator, in a copy."""
    for d in ("include", "config"):
        subprocess.run(["cp", "-r", os.path.join(REPO, d), os.path.join(scratch, d)], check=True)
    script = os.path.join(scratch, "generate_fakeit_single_header.py")
    subprocess.run(["cp", os.path.join(REPO, os.path.basename(script)), script], check=True)
    r = subprocess.run([sys.executable, script, "-a"], cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise Differs("the generator of the single headers ends with %d: %s" % (r.returncode, r.stdout.decode(errors="replace")[-1500:]))
    return os.path.join(scratch, "single_header")


def pair(form, target, where):
    """The simulator built from the sources and from a single header."""
    try:
        sources = build("sim" if target.startswith("as_") else target)
    except CannotBuild as e:
        log("NOT-SIMULATED %s: %s" % (target, str(e)[-400:]))
        return None
    if not os.path.exists(os.path.join(where, configuration(target), "fakeit.hpp")):
        raise Differs("there is no %s single header for configuration %s" % (form, configuration(target)))
    try:
        return sources, build(target, 1, where)
    except CannotBuild as e:
        if target.startswith("as_"):
            log("NOT-SIMULATED %s: %s" % (target, str(e)[-400:]))
            return None
        raise Differs("%s single header: %s" % (form, e))


def forms(scratch):
    return {"distributed": os.path.join(REPO, "single_header"), "generated": generated(scratch)}


def changes(a, b):
    """The lines in which two single headers differ, wherever they are."""
    def lines(f):
        if not os.path.exists(f):
            return []
        with open(f, errors="replace") as fh:
            return [l for l in fh if not l.startswith(" *  Generated: ")]
    return [l for l in difflib.unified_diff(lines(a), lines(b), n=0) if not l.startswith("@@")]


def deviating(form):
    """Configurations whose single header differs from what the generator makes, one for each way of differing that the standalone one has not."""
    seen, out = [[], changes(*[os.path.join(w, "standalone", "fakeit.hpp") for w in form.values()])], []
    for c in sorted(set(CONFIGURATIONS.values())):
        d = changes(*[os.path.join(w, c, "fakeit.hpp") for w in form.values()])
        if d not in seen and len(out) < 3:
            seen.append(d)
            out.append("as_" + c)
    return out


def units(prop, seed, tier, total):
    """What a check runs: (label, executable, seed, runs, other executable).  More than one where classes, configurations or forms differ."""
    if prop == "C23":
        scratch = tempfile.mkdtemp(prefix="verif-")
        try:
            todo, seen = [], set()
            both = forms(scratch)
            for form, where in both.items():
                work = [(form, target, where) for target in ["sim"] + (deviating(both) if form == "distributed" else []) + ["conf_" + c for c in CONFIGURATIONS]]
                n = len(work) - len(CONFIGURATIONS)
                with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
                    pairs = [pair(*w) for w in work[:n]]   # each builds with all workers itself
                    pairs += ex.map(lambda w: pair(*w), work[n:])
                for (_, target, _), p in zip(work, pairs):
                    if p and p not in seen:
                        seen.add(p)
                        todo += [("%s %s single" % (form, target), p[1], seed, target, p[0]), ("%s %s sources" % (form, target), p[0], seed, target, p[1])]
        finally:
            subprocess.run(["rm", "-rf", scratch])
        if not todo:
            raise CannotBuild("neither form can be built")
        conf = sum(1 for u in todo if u[3].startswith("conf_"))
        sim = len(todo) - conf
        return [u[:3] + ((total // 4 // conf if u[3].startswith("conf_") else total * 3 // 4 // sim), u[4]) for u in todo]
    if prop == "C24":
        usual, todo = build("sim"), []
        for c in SETTINGS:
            try:
                todo.append((c, build("set_" + c), seed, total // len(SETTINGS), usual))
            except CannotBuild as e:
                raise Differs("a program that compiles with the usual settings does not with %s %s: %s" % (compiler("set_" + c), " ".join(SETTINGS[c]), e))
        return todo
    if prop == "C22":
        def one(c):
            try:
                return c, build("conf_" + c), None
            except CannotBuild as e:
                return c, None, str(e)
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            built = list(ex.map(one, CONFIGURATIONS))
        for c, exe, error in built:
            if not exe:
                # the stand-in lacks something the configuration now uses: nothing is said about that configuration
                log("NOT-SIMULATED configuration %s: %s" % (c, error[-400:]))
        built = [b for b in built if b[1]]
        if not built:
            raise CannotBuild("no configuration can be built")
        return [(c, exe, seed, total // len(built)) for c, exe, _ in built]
    if prop == "C21":
        seeds = [seed] if tier == "quick" else [seed + 1000 * i for i in range(4)]
        return [("classes of seed %d" % s, build("simg", s), s, total // len(seeds)) for s in seeds]
    return [("", build(target_of(prop)), seed, total)]


def batch(prop, todo, workers, scratch):
    """Runs the units, each split so that all workers are busy; returns per job its unit and the worker's report."""
    runs = sum(u[3] for u in todo)
    splits = [max(1, -(-workers * u[3] // runs)) for u in todo]
    jobs = [(u, (w, split)) for u, split in zip(todo, splits) for w in range(split)]

    def one(j):
        n, (u, (w, split)) = j
        out = os.path.join(scratch, "w%d.json" % n)
        cmd = [u[1], "batch", "--prop", prop, "--seed", str(u[2]), "--from", str(w), "--step", str(split), "--to", str(u[3]), "--out", out, "--bits", os.path.join(scratch, "w%d.bits" % n)] + other(u)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return u, None, "worker ended with %d: %s" % (r.returncode, r.stdout.decode(errors="replace")[-1000:])
        with open(out) as f:
            return u, json.load(f), ""
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        res = list(ex.map(one, enumerate(jobs)))
    for u, r, error in res:
        if r is None:
            fail(error)
    return [(u, r) for u, r, _ in res]


def other(unit):
    return ["--other", unit[4]] if len(unit) > 4 else []


def merge(res, key):
    m = {}
    for r in res:
        for k, v in r[key].items():
            m[k] = m.get(k, 0) + v
    return m


def distinct(scratch, workers):
    import array
    states = 0
    acc = None
    paths = set()
    for w in range(workers):
        with open(os.path.join(scratch, "w%d.bits" % w), "rb") as f:
            v = int.from_bytes(f.read(), "little")
        acc = v if acc is None else acc | v
        a = array.array("Q")
        with open(os.path.join(scratch, "w%d.bits.paths" % w), "rb") as f:
            a.frombytes(f.read())
        paths.update(a)
    if acc is not None:
        ones = bin(acc).count("1")
        nb = 1 << 24
        # linear counting: estimates the number of distinct hashes from the share of bits set
        import math
        states = int(round(-nb * math.log(1 - ones / nb))) if ones < nb else nb
    return states, len(paths)


ASSUMPTIONS = [
    "the reference model in sim/interp.cpp states the intended behaviour",
    "mocks are used within the documented limits: no multiple or virtual inheritance, no reset or destruction of a mock from inside its own calls, no phrases written while the stack is being unwound",
    "g++ with -O1 on x86-64; other compilers and optimisation levels are not simulated",
]
ASSUMPTIONS_THREADS = [
    "threads are switched at accesses to static and heap memory made by library code, one thread at a time; memory is sequentially consistent",
    "listeners, adapter and formatter are set before the threads start",
]
STUBS_THREADS = "; threads are real, but the simulator decides which one runs, and locks, guards of static variables and once-flags are its own"
STUBS = "the library runs unmodified; stubbed by the simulator: operator new/delete, user actions, conditions, copy and comparison of argument types, original methods of spied objects, event listeners, testing-framework adapter"


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    total = RUNS.get(prop, DEFAULT_RUNS)[1 if tier == "thorough" else 0]
    if "VERIF_RUNS" in os.environ:
        total = int(os.environ["VERIF_RUNS"])
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    try:
        todo = units(prop, seed, tier, total)
    except Differs as e:
        return not_alike(prop, tier, seed, str(e), t0)
    built = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="verif-")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    violations = []
    try:
        t1 = time.time()
        done = batch(prop, todo, WORKERS, scratch)
        res = [r for _, r in done]
        simwall = time.time() - t1
        states, paths = distinct(scratch, len(done))
        found = sorted([(r["found"], u) for u, r in done if r["found"] >= 0], key=lambda x: x[0])
        code = 0
        if found:
            index, unit = found[0]
            label, exe, seed = unit[:3]
            path = os.path.join(HERE, "replays", "%s-%d-%d.replay" % (prop, seed, index))
            m = subprocess.run([exe, "minimise", "--prop", prop, "--seed", str(seed), "--index", str(index), "--out", path] + other(unit), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            text = m.stdout.decode(errors="replace")
            if m.returncode:
                fail("the discrepancy of run %d does not repeat: %s" % (index, text[-1500:]))
            if label:
                with open(path) as f:
                    lines = f.readlines()
                with open(path, "w") as f:
                    f.writelines(lines[:2] + ["unit %s\n" % label] + lines[2:])
            r = subprocess.run([exe, "replay", "--file", path] + other(unit), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 1:
                fail("the minimised trace %s does not reproduce in a fresh process: %s" % (path, r.stdout.decode(errors="replace")[-1500:]))
            log(text.strip()[:1500])
            log("seed %d, run %d; replay with: python3 %s --replay %s" % (seed, index, os.path.join(HERE, "run.py"), path))
            log("VIOLATION property=%s replay=%s" % (prop, path))
            violations.append(text.strip()[:500])
            code = 1
        runs = sum(r["runs"] for r in res)
        exe, seed = todo[0][1], todo[0][2]
        s = subprocess.run([exe, "gen", "--prop", prop, "--seed", str(seed), "--index", "7"], stdout=subprocess.PIPE)
        sample = s.stdout.decode(errors="replace")[:1500]
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": runs,
                "distinct_nontrivial": paths,
                "rule": "one evaluation is one simulated run: a tree of operations drawn from the seed, executed against the real library in lock step with the reference model, with the faults of the run injected. Non-trivial: the run reached a situation the property is about (reached() in sim/gen.cpp). Distinct: by the sequence of abstract model states after its operations, concrete values left out.",
                "nontrivial_runs": sum(r["nontrivial"] for r in res),
                "samples": [{"index": 7, "trace": sample}],
                "operations": sum(r["ops"] for r in res),
                "mocked_calls": sum(r["calls"] for r in res),
                "library_allocations": sum(r["allocs"] for r in res),
                "distinct_model_states": states,
                "distinct_model_states_measure": "abstract state after each top-level operation (mock classes, stubbing shapes and how far used, bounded history and mark counts, listeners and adapter), linear counting over 2^24 bits",
                "runs_per_hour": int(runs / simwall * 3600) if simwall > 0 else 0,
                "simulated_time": "the library has no clock; simulated time is counted in operations",
                "faults_injected": merge(res, "faults"),
                "reach": merge(res, "probes"),
                "foreign_discrepancies": sum(r["foreign"] for r in res),
                "foreign_kinds": merge(res, "foreign_kinds"),
                "real_and_stubbed": STUBS + (STUBS_THREADS if prop == "C11" else ""),
                "build_s": round(built, 1),
                **extra(prop, done),
            },
            "assumptions": ASSUMPTIONS + (ASSUMPTIONS_THREADS if prop == "C11" else []),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(violations),
        }
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        known_findings(prop)
        foreign = sum(r["foreign"] for r in res)
        if foreign: # none on a tree where all properties hold: otherwise the simulator is wrong and these runs decide nothing
            log("NOT-DECIDED %d of %d runs show a discrepancy that another property has to report: %s" % (foreign, runs, merge(res, "foreign_kinds")))
        log("%s %s: %d runs, %d distinct paths, %d states, %d violations, %.1f s" % (prop, tier, runs, paths, states, len(violations), time.time() - t0))
        return code
    finally:
        subprocess.run(["rm", "-rf", scratch])


def not_alike(prop, tier, seed, what, t0):
    """A program that one form of the library takes and the other does not."""
    path = os.path.join(HERE, "replays", "%s-%d-build.replay" % (prop, seed))
    with open(path, "w") as f:
        f.write("property %s\nseed %d\nunit build\n%s\n" % (prop, seed, what))
    log(what[-1500:])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration",
                   "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the simulators themselves, compiled from the sources and from the single headers", "samples": [what[-300:]]},
                   "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": 1}, f, indent=1)
    log("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def extra(prop, done):
    if prop == "C22":
        per = {}
        for u, r in done:
            p = per.setdefault(u[0], {"runs": 0, "reports": 0, "failures_of_the_framework": 0})
            for k in p:
                p[k] += r["runs"] if k == "runs" else r["probes"][k]
        return {"configurations": per, "configurations_not_simulated": sorted(set(CONFIGURATIONS) - set(per))}
    if prop == "C24":
        per = {}
        for u, r in done:
            per[u[0]] = per.get(u[0], 0) + r["runs"]
        return {"runs_by_setting": per, "settings": {c: compiler("set_" + c) + " " + " ".join(FLAGS + SETTINGS[c]) for c in SETTINGS}}
    if prop == "C23":
        per = {}
        for u, r in done:
            per[u[0]] = per.get(u[0], 0) + r["runs"]
        return {"runs_by_form": per, "forms": "distributed: files under single_header; generated: made by the repository's generator in a scratch copy, left out where the text is the same"}
    if prop == "C21":
        per = {}
        for u, r in done:
            per[u[0]] = per.get(u[0], 0) | int.from_bytes(bytes.fromhex(r["positions"]), "little")
        return {"method_positions_used": {k: bin(v).count("1") for k, v in per.items()},
                "method_positions_measure": "distinct (mocked class, method) pairs called, stubbed or verified, classes drawn from the seed"}
    return {}


def known_findings(prop):
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.startswith("KNOWN-FINDING: property=%s " % prop):
                    log(line.strip())


def determinism(prop, n):
    seed = os.environ.get("VERIF_SEED", "1")
    exe = units(prop, int(seed), "quick", n)[0][1]

    def hashes(workers):
        ps = [subprocess.Popen([exe, "hash", "--prop", prop, "--seed", seed, "--from", str(w), "--step", str(workers), "--to", str(n)], stdout=subprocess.PIPE) for w in range(workers)]
        d = {}
        for p in ps:
            for line in p.communicate()[0].decode().splitlines():
                i, rest = line.split(" ", 1)
                d[int(i)] = rest
        return d
    a, b, c = hashes(1), hashes(8), hashes(3)
    bad = [i for i in a if a[i] != b.get(i) or a[i] != c.get(i)]
    log("%s: %d runs, %d distinct hashes, %d differ between processes or worker counts" % (prop, len(a), len(set(a.values())), len(bad)))
    return 1 if bad or len(a) != n else 0


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build":
        for t in ("sim", "simt", "simg"):
            build(t, int(os.environ.get("VERIF_SEED", "1")))
        units("C22", 1, "quick", 1)
        for p in ("C23", "C24"):
            try:
                units(p, 1, "quick", 100)
            except Differs:
                pass
        return 0
    if len(args) > 1 and args[0] == "--replay":
        with open(args[1]) as f:
            prop = f.readline().split()[1]
            seed = int(f.readline().split()[1])
            third = f.readline().split()
        if prop in ("C23", "C24"):
            try:
                todo = units(prop, seed, "quick", 100)
            except Differs as e:
                log(str(e)[-1500:])
                return 1
            if third[1] == "build":
                return 0
            unit = [u for u in todo if u[0].split() == third[1:]]
            return subprocess.run([unit[0][1], "replay", "--file", args[1], "--log", "1"] + other(unit[0])).returncode if unit else 0
        target = "conf_" + third[1] if prop == "C22" else target_of(prop)
        return subprocess.run([build(target, seed), "replay", "--file", args[1], "--log", "1"]).returncode
    if len(args) > 1 and args[0] == "--determinism":
        return determinism(args[1], int(args[2]) if len(args) > 2 else 2000)
    if not args:
        print(__doc__)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    return check(args[0], tier)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CannotBuild as e:
        fail(str(e))
