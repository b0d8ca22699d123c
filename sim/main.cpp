// Command line: batches of runs, minimisation, replay.
#include "gen.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <fstream>
#include <iostream>
#include <algorithm>

static Shared *sh;
static uint64_t g_forks;

struct Result { int d = D_NONE; int op = -1; std::string msg; uint64_t hash = 0; };

static void clearShared() {
    sh->done = 0; sh->dkind = D_NONE; sh->opIndex = -1; sh->msg[0] = 0; sh->logHash = 0; sh->loglen = 0; sh->nstates = 0; sh->threads = 0;
    memset(sh->accesses, 0, sizeof sh->accesses);
    memset(sh->threadHash, 0, sizeof sh->threadHash);
    memset(sh->positions, 0, sizeof sh->positions);
    sh->ops = sh->calls = sh->allocs = sh->steps = 0;
    memset(sh->probes, 0, sizeof sh->probes);
    memset(sh->faults, 0, sizeof sh->faults);
}

static std::string g_other;   // C23, C24: the same simulator, built from the other form of the library or with other settings

static Result runForked(const Trace &t, const RunCfg &cfg) {
    clearShared();
    g_forks++;
    fflush(nullptr);
    bool burst = anyOp(t, [](const Op &o) { return (o.k == O_CALL || o.k == O_OBJCALL) && o.P(10) > 1; });
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        rlimit rl{burst ? 30u : 6u, burst ? 32u : 8u};
        setrlimit(RLIMIT_CPU, &rl);
        rlimit core{0, 0};
        setrlimit(RLIMIT_CORE, &core);
        rlimit st{8 << 20, 8 << 20};
        setrlimit(RLIMIT_STACK, &st);
        alarm(burst ? 240 : 60); // also when it only waits
        int nul = open("/dev/null", O_WRONLY);
        if (nul >= 0) { dup2(nul, 1); dup2(nul, 2); }
        interpRun(t, cfg, sh);
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    Result r;
    r.hash = sh->logHash;
    if (sh->dkind != D_NONE) { r.d = sh->dkind; r.op = sh->opIndex; r.msg = sh->msg; return r; }
    if (!sh->done) {
        // a long run may need more than the simulated heap has: says nothing about the library
        if (WIFEXITED(status) && WEXITSTATUS(status) == 79) { fprintf(stderr, "cannot create threads\n"); exit(3); }
        if (WIFEXITED(status) && WEXITSTATUS(status) == 77 && (burst || traceSize(t) > 100)) { sh->probes[P_ABANDONED]++; return Result(); }
        r.op = sh->opIndex;
        bool hang = WIFSIGNALED(status) && (WTERMSIG(status) == SIGXCPU || WTERMSIG(status) == SIGALRM || WTERMSIG(status) == SIGKILL);
        r.d = hang ? D_HANG : D_CRASH;
        char b[100];
        if (hang) snprintf(b, sizeof b, "the process did not come to an end");
        else if (WIFSIGNALED(status)) snprintf(b, sizeof b, "the process died of signal %d", WTERMSIG(status));
        else snprintf(b, sizeof b, "the process ended with status %d", WEXITSTATUS(status));
        r.msg = b;
        sh->dkind = r.d;
    }
    return r;
}

static int topKind(const Trace &t, int op) { return op >= 0 && op < (int) t.size() ? t[op].k : op == (int) t.size() ? (int) O_AUDIT : (int) O_NONE; }

// executes a plan, with all memory environments of a layout run
static Result execPlan(const Plan &p, uint64_t envSeed, bool verbose) {
    RunCfg c;
    c.env = p.env;
    c.reps = p.reps;
    c.joint = p.joint;
    c.verbose = verbose;
    if (p.envs <= 1) return runForked(p.t, c);
    Result first;
    std::string firstLog;
    uint64_t probes[P_COUNT], faults[16], calls = 0, ops = 0;
    memset(probes, 0, sizeof probes);
    memset(faults, 0, sizeof faults);
    c.verbose = true;
    for (int e = 0; e < p.envs; e++) {
        c.env = envNumber(envSeed, e);
        Result r = runForked(p.t, c);
        for (int i = 0; i < P_COUNT; i++) probes[i] += sh->probes[i];
        for (int i = 0; i < 16; i++) faults[i] += sh->faults[i];
        faults[FI_GARBAGE]++;
        calls += sh->calls; ops += sh->ops;
        std::string log(sh->log, sh->loglen);
        if (e == 0) { first = r; firstLog = log; continue; }
        bool same = r.d == first.d && r.op == first.op && log == firstLog && (r.d == D_MEM || r.msg == first.msg);
        if (!same) {
            size_t i = 0;
            while (i < log.size() && i < firstLog.size() && log[i] == firstLog[i]) i++;
            auto line = [&](const std::string &s) { size_t b = s.rfind('\n', i ? i - 1 : 0); b = b == std::string::npos ? 0 : b + 1; size_t en = s.find('\n', i); return b >= s.size() ? std::string("end") : s.substr(b, std::min<size_t>(300, (en == std::string::npos ? s.size() : en) - b)); };
            Result x;
            x.d = D_LAYOUT;
            x.op = r.op >= 0 ? r.op : first.op;
            x.msg = "memory environment " + std::to_string(e) + " gives '" + line(log) + "' and environment 0 gives '" + line(firstLog) + "'";
            x.hash = hashCombine(r.hash, first.hash);
            sh->dkind = D_LAYOUT;
            snprintf(sh->msg, sizeof sh->msg, "%s", x.msg.c_str());
            return x;
        }
    }
    memcpy(sh->probes, probes, sizeof probes);
    memcpy(sh->faults, faults, sizeof faults);
    sh->calls = calls; sh->ops = ops;
    return first;
}

// threads are interrupted at accesses counted in a run of the same operations without interruptions
static Plan planFor(const std::string &prop, uint64_t seed, uint64_t index) {
    Plan p = generate(prop, seed, index);
    if (prop != "C11") return p;
    Result r = execPlan(p, mix64(seed + index), false);
    if (r.d == D_NONE) addSwitches(p, mix64(seed + index), sh->threads, sh->accesses);
    return p;
}

static void writeReplay(const std::string &file, const std::string &prop, uint64_t seed, uint64_t index, const Plan &p, uint64_t envSeed, const Result &r, const std::string &log);
// does the other simulator execute this without a discrepancy?
static bool byComparison(const std::string &prop) { return prop == "C23" || prop == "C24"; }
static bool cleanInOther(const std::string &prop, const Plan &p, uint64_t envSeed, const Result &r) {
    char file[] = "/tmp/verif-other-XXXXXX";
    int fd = mkstemp(file);
    if (fd < 0) { perror("mkstemp"); exit(3); }
    close(fd);
    writeReplay(file, prop, 0, 0, p, envSeed, r, "");
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        int nul = open("/dev/null", O_WRONLY);
        if (nul >= 0) { dup2(nul, 1); dup2(nul, 2); }
        execl(g_other.c_str(), g_other.c_str(), "replay", "--file", file, (char *) nullptr);
        _exit(9);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    unlink(file);
    if (WIFEXITED(status) && WEXITSTATUS(status) == 9) { fprintf(stderr, "cannot execute %s\n", g_other.c_str()); exit(3); }
    return WIFEXITED(status) && WEXITSTATUS(status) == 0;
}

static bool owned(const std::string &prop, const Plan &p, uint64_t envSeed, const Result &r) {
    if (r.d == D_NONE) return false;
    if (byComparison(prop)) return g_other.empty() || cleanInOther(prop, p, envSeed, r);
    int k = topKind(p.t, r.op);
    if (ownsDirectly(prop, r.d, k)) return true;
    if (!mayOwnByFeature(prop, r.d, k)) return false;
    bool any = oneCleanIsEnough(prop);
    for (auto &n : neutralise(prop, p.t)) {
        Plan q = p;
        q.t = n;
        Result x = execPlan(q, envSeed, false);
        if (any ? x.d == D_NONE : x.d != D_NONE) return any;
    }
    return !any;
}

// ------------------------------------------------------------------------------------------------ minimisation
// keeps the kind of discrepancy; whether it belongs to the property is asked of the minimal trace, which contains
// nothing the discrepancy does not need
struct Minimiser {
    uint64_t envSeed;
    Plan best;
    Result bestR;
    int evals = 0, limit = 2500;
    double deadline = 0;
    static double now() { timeval tv; gettimeofday(&tv, nullptr); return tv.tv_sec + tv.tv_usec * 1e-6; }
    bool tryTrace(const Trace &t) {
        if (evals >= limit) return false;
        evals++;
        Plan p = best;
        p.t = t;
        Result r = execPlan(p, envSeed, false);
        if (r.d != bestR.d) return false;
        best = p;
        bestR = r;
        return true;
    }
    static Op *locate(Trace &t, const std::vector<int> &path) {
        Trace *cur = &t;
        Op *o = nullptr;
        for (int i : path) { if (i >= (int) cur->size()) return nullptr; o = &(*cur)[i]; cur = &o->s; }
        return o;
    }
    static void paths(const Trace &t, std::vector<int> &pre, std::vector<std::vector<int>> &out) {
        for (size_t i = 0; i < t.size(); i++) { pre.push_back((int) i); out.push_back(pre); paths(t[i].s, pre, out); pre.pop_back(); }
    }
    void run() {
        // chunks of top level operations first
        for (size_t chunk = best.t.size() / 2; chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i < best.t.size();) {
                Trace t = best.t;
                size_t e = std::min(t.size(), i + chunk);
                t.erase(t.begin() + i, t.begin() + e);
                if (!tryTrace(t)) i += chunk;
            }
        }
        bool progress = true;
        while (progress && evals < limit) {
            progress = false;
            std::vector<std::vector<int>> all;
            std::vector<int> pre;
            paths(best.t, pre, all);
            for (size_t n = all.size(); n-- > 0 && evals < limit;) {
                Trace t = best.t;
                std::vector<int> parent(all[n].begin(), all[n].end() - 1);
                Trace *list = parent.empty() ? &t : nullptr;
                if (!list) { Op *po = locate(t, parent); if (!po) continue; list = &po->s; }
                int at = all[n].back();
                if (at >= (int) list->size()) continue;
                Op o = (*list)[at];
                list->erase(list->begin() + at);
                if (tryTrace(t)) { progress = true; continue; }
                if (!o.s.empty() && (o.k == O_HOLD || o.k == O_ACT || o.k == O_AGAIN)) { // keep what it contains
                    list->insert(list->begin() + at, o.s.begin(), o.s.end());
                    if (tryTrace(t)) { progress = true; continue; }
                }
                for (size_t q = 0; q < o.p.size() && evals < limit; q++) {
                    if (o.p[q] == 0) continue;
                    Trace t2 = best.t;
                    Op *x = locate(t2, all[n]);
                    if (!x || q >= x->p.size() || x->p[q] == 0) continue;
                    x->p[q] = 0;
                    if (tryTrace(t2)) progress = true;
                    else if (x->p.size() > q && o.p[q] > 1) { x->p[q] = 1; if (o.p[q] != 1 && tryTrace(t2)) progress = true; }
                }
            }
        }
        if (best.envs <= 1) { // the plainest memory environment that still shows it
            for (int pl = 0; pl < 2; pl++) { Plan p = best; p.env.placement = pl ? p.env.placement : PL_ASC; p.env.fill = FM_ZERO; p.env.seed = 0; Result r = execPlan(p, envSeed, false); if (r.d == bestR.d) { best = p; bestR = r; break; } }
            if (best.reps > 1) { Plan p = best; p.reps = 1; Result r = execPlan(p, envSeed, false); if (r.d == bestR.d) { best = p; bestR = r; } }
        }
    }
};

static std::string oneLine(const std::string &s) { std::string r; for (char c : s) if (c == '\n') r += "\\n"; else r += c; return r; }
static void writeReplay(const std::string &file, const std::string &prop, uint64_t seed, uint64_t index, const Plan &p, uint64_t envSeed, const Result &r, const std::string &log) {
    std::ofstream o(file);
    o << "property " << prop << "\nseed " << seed << "\nindex " << index << "\nenvseed " << envSeed << "\nplacement " << p.env.placement << "\nfill " << p.env.fill << "\nmemseed " << p.env.seed
      << "\nreps " << p.reps << "\njoint " << p.joint << "\nenvs " << p.envs << "\nkind " << dName(r.d) << "\nhash " << r.hash << "\nmessage " << oneLine(r.msg) << "\ntrace\n" << writeTrace(p.t) << "log\n" << log;
}

static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char) c; } else if (c < 32) r += ' '; else if (c < 127) r += (char) c; else r += '?'; } return r; }

int main(int argc, char **argv) {
    // one address space layout for every process
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
        if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1 && !getenv("SIM_REEXEC")) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
    std::string mode = argc > 1 ? argv[1] : "";
    std::map<std::string, std::string> a;
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i] + 2] = argv[i + 1];
    auto num = [&](const char *k, uint64_t d) { return a.count(k) ? strtoull(a[k].c_str(), nullptr, 10) : d; };
    sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    arenaReserve();
    classes();
    std::string prop = a["prop"];
    uint64_t seed = num("seed", 1);
    g_other = a["other"];
    if (mode == "batch" || mode == "hash") {
        uint64_t from = num("from", 0), to = num("to", 1000), step = num("step", 1);
        double t0 = Minimiser::now(), limit = (double) num("seconds", 0);
        uint64_t probes[P_COUNT] = {0}, faults[16] = {0}, runs = 0, ops = 0, calls = 0, allocs = 0, foreign = 0, nontrivial = 0;
        std::map<std::string, uint64_t> foreignKinds;
        const size_t NB = 1 << 24;
        std::vector<uint64_t> bits(NB / 64), paths;
        long found = -1;
        int asked = 0;
        std::vector<unsigned char> positions(sizeof sh->positions);
        Result fr;
        std::string foreignSample;
        for (uint64_t i = from; i < to; i += step) {
            Plan p = planFor(prop, seed, i);
            Result r = execPlan(p, mix64(seed + i), false);
            if (mode == "hash") { printf("%llu %016llx %s\n", (unsigned long long) i, (unsigned long long) r.hash, dName(r.d)); continue; }
            runs++;
            for (int k = 0; k < P_COUNT; k++) probes[k] += sh->probes[k];
            for (int k = 0; k < 16; k++) faults[k] += sh->faults[k];
            for (size_t k = 0; k < positions.size(); k++) positions[k] |= sh->positions[k];
            ops += sh->ops; calls += sh->calls; allocs += sh->allocs;
            bool nt = reached(prop, sh->probes);
            nontrivial += nt;
            uint64_t path = 11;
            for (uint32_t k = 0; k < sh->nstates; k++) path = hashCombine(path, sh->stateHashes[k]);
            if (nt) paths.push_back(path);
            for (uint32_t k = 0; k < sh->nstates; k++) { uint64_t h = sh->stateHashes[k] % NB; bits[h / 64] |= 1ull << (h % 64); }
            if (r.d != D_NONE) {
                bool mine = !byComparison(prop) && ownsDirectly(prop, r.d, topKind(p.t, r.op));
                if (byComparison(prop)) mine = owned(prop, p, mix64(seed + i), r);
                else if (!mine && mayOwnByFeature(prop, r.d, topKind(p.t, r.op)) && asked < 25) {
                    asked++;
                    Minimiser m{mix64(seed + i), p, r};
                    m.limit = 700;
                    m.run();
                    mine = owned(prop, m.best, mix64(seed + i), m.bestR);
                }
                if (mine) { found = (long) i; fr = r; break; }
                foreign++;
                foreignKinds[dName(r.d)]++;
                if (foreignSample.empty()) { foreignSample = "index " + std::to_string(i) + ": " + dName(r.d) + ": " + r.msg; }
            }
            if (limit > 0 && Minimiser::now() - t0 > limit) break;
        }
        if (mode == "hash") return 0;
        FILE *f = a.count("out") ? fopen(a["out"].c_str(), "w") : stdout;
        fprintf(f, "{\"runs\":%llu,\"ops\":%llu,\"calls\":%llu,\"allocs\":%llu,\"nontrivial\":%llu,\"foreign\":%llu,\"found\":%ld,\"kind\":\"%s\",\"msg\":\"%s\",\"foreign_sample\":\"%s\",\"wall\":%.3f,", (unsigned long long) runs, (unsigned long long) ops, (unsigned long long) calls,
                (unsigned long long) allocs, (unsigned long long) nontrivial, (unsigned long long) foreign, found, dName(fr.d), jesc(fr.msg).c_str(), jesc(foreignSample).c_str(), Minimiser::now() - t0);
        fprintf(f, "\"probes\":{");
        for (int k = 0; k < P_COUNT; k++) fprintf(f, "%s\"%s\":%llu", k ? "," : "", probeName(k), (unsigned long long) probes[k]);
        fprintf(f, "},\"faults\":{");
        for (int k = 1; k < FI_COUNT; k++) fprintf(f, "%s\"%s\":%llu", k > 1 ? "," : "", faultName(k), (unsigned long long) faults[k]);
        fprintf(f, "},\"foreign_kinds\":{");
        bool c = false;
        for (auto &k : foreignKinds) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", k.first.c_str(), (unsigned long long) k.second); c = true; }
        std::sort(paths.begin(), paths.end());
        paths.erase(std::unique(paths.begin(), paths.end()), paths.end());
        std::string pos;
        for (size_t k = 0; k < positions.size(); k++) { char b[3]; snprintf(b, sizeof b, "%02x", positions[k]); pos += b; }
        while (pos.size() > 1 && pos.compare(pos.size() - 2, 2, "00") == 0) pos.resize(pos.size() - 2);
        fprintf(f, "},\"positions\":\"%s\",\"distinct\":%zu}\n", pos.c_str(), paths.size());
        if (f != stdout) fclose(f);
        if (a.count("bits")) {
            // histories and states, for joining across workers
            std::ofstream b(a["bits"], std::ios::binary);
            b.write((const char *) bits.data(), (std::streamsize) (bits.size() * 8));
            std::ofstream l(a["bits"] + ".paths", std::ios::binary);
            l.write((const char *) paths.data(), (std::streamsize) (paths.size() * 8));
        }
        return 0;
    }
    if (mode == "minimise") {
        uint64_t index = num("index", 0);
        Plan p = planFor(prop, seed, index);
        uint64_t es = mix64(seed + index);
        Result r = execPlan(p, es, false), r2 = execPlan(p, es, false);
        if (r.d != r2.d || r.hash != r2.hash || r.msg != r2.msg) { printf("NONDETERMINISTIC\n"); return 4; }
        Minimiser m{es, p, r};
        bool direct = ownsDirectly(prop, r.d, topKind(p.t, r.op));
        m.limit = (int) num("evals", direct ? 2500 : 700);
        m.run();
        if (!owned(prop, m.best, es, m.bestR)) {
            if (!owned(prop, p, es, r)) { printf("NOT-OWNED %s %s\n", dName(r.d), r.msg.c_str()); return 5; }
            m.best = p; m.bestR = r;
        }
        std::string written = writeTrace(m.best.t);
        m.best.t = TraceParser(written).all(); // exactly what a replay reads
        Result fin = execPlan(m.best, es, true);
        std::string log(sh->log, sh->loglen);
        writeReplay(a["out"], prop, seed, index, m.best, es, fin, log);
        printf("MINIMISED size=%d from=%d evals=%d kind=%s %s\n", traceSize(m.best.t), traceSize(p.t), m.evals, dName(fin.d), fin.msg.c_str());
        return 0;
    }
    if (mode == "replay") {
        std::ifstream in(a["file"]);
        if (!in) { fprintf(stderr, "cannot read %s\n", a["file"].c_str()); return 3; }
        Plan p;
        uint64_t es = 0, hash = 0;
        std::string line, kind, text;
        bool tr = false;
        while (std::getline(in, line)) {
            if (line == "trace") { tr = true; continue; }
            if (line == "log") break;
            if (tr) { text += line + "\n"; continue; }
            std::istringstream is(line);
            std::string k;
            is >> k;
            if (k == "property") is >> prop; else if (k == "envseed") is >> es; else if (k == "placement") is >> p.env.placement; else if (k == "fill") is >> p.env.fill; else if (k == "memseed") is >> p.env.seed;
            else if (k == "reps") is >> p.reps; else if (k == "joint") is >> p.joint; else if (k == "envs") is >> p.envs; else if (k == "kind") is >> kind; else if (k == "hash") is >> hash;
        }
        p.t = TraceParser(text).all();
        Result r = execPlan(p, es, true);
        std::string log(sh->log, sh->loglen);
        if (a.count("log")) fputs(log.c_str(), stdout);
        bool own = owned(prop, p, es, r);
        printf("REPLAY kind=%s hash=%llu owned=%d %s\n", dName(r.d), (unsigned long long) r.hash, own, r.msg.c_str());
        if (r.d == D_NONE) return 0;
        return std::string(dName(r.d)) == kind && r.hash == hash && own ? 1 : 6;
    }
    if (mode == "inline") { // for a debugger: the run in this process
        Plan p = planFor(prop, seed, num("index", 0));
        RunCfg c;
        c.env = p.env; c.reps = p.reps; c.joint = p.joint; c.verbose = true;
        if (p.envs > 1) c.env = envNumber(mix64(seed + num("index", 0)), (int) num("env", 0));
        clearShared();
        interpRun(p.t, c, sh);
        return 0;
    }
    if (mode == "gen") {
        Plan p = planFor(prop, seed, num("index", 0));
        fputs(writeTrace(p.t).c_str(), stdout);
        return 0;
    }
    fprintf(stderr, "usage: sim batch|hash|minimise|replay|gen ...\n");
    return 2;
}
