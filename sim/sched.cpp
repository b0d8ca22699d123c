#include "sched.hpp"
#include "arena.hpp"
#include "rng.hpp"
#include <pthread.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <dlfcn.h>
#include <errno.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>

extern "C" char __data_start, _end;
void (*schedDeadlock)() = nullptr;

namespace {
    const int MAIN = MAXTHREADS;
    volatile int turn = MAIN;
    struct T {
        pthread_t id;
        bool live = false, done = false;
        uintptr_t lo = 0, hi = 0;
        uint64_t count[AC_CLASSES] = {0, 0};
        std::vector<std::pair<uint64_t, int>> sw[AC_CLASSES];
        size_t pos[AC_CLASSES] = {0, 0};
        const void *lastAtomic = nullptr;
        int spins = 0;
    } th[MAXTHREADS];
    int nth = 0;
    uint64_t switches, pathHash;
    const std::function<void(int)> *job;
    thread_local int me = -1;

    void waitTurn(int who) { for (;;) { int t = turn; if (t == who) return; syscall(SYS_futex, &turn, FUTEX_WAIT, t, nullptr, nullptr, 0); } }
    void give(int who) { __atomic_store_n(&turn, who, __ATOMIC_SEQ_CST); syscall(SYS_futex, &turn, FUTEX_WAKE, 1000, nullptr, nullptr, 0); }

    void switchTo(int target) {
        int self = me;
        if (target == self || target < 0 || target >= nth || th[target].done) return;
        switches++;
        pathHash = hashCombine(pathHash, hashCombine((uint64_t) self * 8 + target, th[self].count[AC_GLOBAL]));
        give(target);
        waitTurn(self);
    }
    // the thread cannot go on: some other thread has to
    void giveWay(int &tries) {
        if (me < 0) return;
        int other = -1;
        for (int k = 1; k < nth; k++) { int c = (me + k) % nth; if (!th[c].done) { other = c; break; } }
        if (other < 0 || ++tries > 1000) { if (schedDeadlock) schedDeadlock(); _exit(78); }
        switchTo(other);
    }

    inline void access(const void *p, bool atomic) {
        if (me < 0 || !g_lib) return;
        T &t = th[me];
        uintptr_t a = (uintptr_t) p;
        if (a >= t.lo && a < t.hi) return;
        int cls = a >= (uintptr_t) &__data_start && a < (uintptr_t) &_end ? AC_GLOBAL : AC_HEAP;
        uint64_t n = t.count[cls]++;
        size_t &k = t.pos[cls];
        auto &sw = t.sw[cls];
        while (k < sw.size() && sw[k].first < n) k++;
        if (k < sw.size() && sw[k].first == n) { int target = sw[k].second; k++; switchTo(target); }
        if (atomic) { // a thread that spins waits for another one
            if (t.lastAtomic == p) { if (++t.spins > 5000) { t.spins = 0; int tries = 0; giveWay(tries); } }
            else { t.lastAtomic = p; t.spins = 0; }
        } else t.lastAtomic = nullptr;
    }

    void *threadMain(void *arg) {
        int i = (int) (intptr_t) arg;
        pthread_attr_t at;
        pthread_getattr_np(pthread_self(), &at);
        void *lo; size_t sz;
        pthread_attr_getstack(&at, &lo, &sz);
        pthread_attr_destroy(&at);
        th[i].lo = (uintptr_t) lo;
        th[i].hi = (uintptr_t) lo + sz;
        waitTurn(i);
        me = i;
        (*job)(i);
        me = -1;
        th[i].done = true;
        give(MAIN);
        return nullptr;
    }
}

void schedRun(int threads, const std::vector<SwitchPoint> &points, const std::function<void(int)> &body) {
    nth = threads;
    job = &body;
    switches = 0;
    pathHash = 0x5eed;
    for (int i = 0; i < nth; i++) th[i] = T();
    for (auto &p : points) if (p.thread >= 0 && p.thread < nth && p.cls >= 0 && p.cls < AC_CLASSES) th[p.thread].sw[p.cls].push_back({p.n, p.target});
    for (int i = 0; i < nth; i++) for (auto &v : th[i].sw) std::stable_sort(v.begin(), v.end());
    turn = MAIN;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 4 << 20);
    for (int i = 0; i < nth; i++) {
        if (pthread_create(&th[i].id, &at, threadMain, (void *) (intptr_t) i)) { perror("pthread_create"); _exit(79); }
        th[i].live = true;
    }
    pthread_attr_destroy(&at);
    for (;;) {
        int next = -1;
        for (int i = 0; i < nth && next < 0; i++) if (!th[i].done) next = i;
        if (next >= 0) { give(next); waitTurn(MAIN); }
        // the storage of a finished thread goes while all others stand still
        for (int i = 0; i < nth; i++) if (th[i].done && th[i].live) { pthread_join(th[i].id, nullptr); th[i].live = false; }
        if (next < 0) break;
    }
}

uint64_t schedAccesses(int t, int cls) { return th[t].count[cls]; }
uint64_t schedSwitches() { return switches; }
uint64_t schedPathHash() { return pathHash; }

// ------------------------------------------------------------------------------------------------ locks
// a real lock would block the only thread that may run
extern "C" {
int __cxa_guard_acquire(uint64_t *g) {
    volatile unsigned char *b = (volatile unsigned char *) g;
    int tries = 0;
    for (;;) {
        if (b[0]) return 0;
        if (!b[1]) { b[1] = 1; return 1; }
        if (me < 0) { fprintf(stderr, "recursive initialisation\n"); abort(); }
        giveWay(tries);
    }
}
void __cxa_guard_release(uint64_t *g) { volatile unsigned char *b = (volatile unsigned char *) g; b[0] = 1; b[1] = 0; }
void __cxa_guard_abort(uint64_t *g) { ((volatile unsigned char *) g)[1] = 0; }

#define REAL(name, type) ([] { static type f; if (!f) f = (type) dlsym(RTLD_NEXT, #name); return f; }())
int pthread_mutex_lock(pthread_mutex_t *m) {
    typedef int (*F)(pthread_mutex_t *);
    if (me < 0) return REAL(pthread_mutex_lock, F)(m);
    int tries = 0;
    for (;;) { int r = pthread_mutex_trylock(m); if (r != EBUSY) return r; giveWay(tries); }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    typedef int (*F)(pthread_rwlock_t *);
    if (me < 0) return REAL(pthread_rwlock_rdlock, F)(m);
    int tries = 0;
    for (;;) { int r = pthread_rwlock_tryrdlock(m); if (r != EBUSY) return r; giveWay(tries); }
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    typedef int (*F)(pthread_rwlock_t *);
    if (me < 0) return REAL(pthread_rwlock_wrlock, F)(m);
    int tries = 0;
    for (;;) { int r = pthread_rwlock_trywrlock(m); if (r != EBUSY) return r; giveWay(tries); }
}
int pthread_once(pthread_once_t *o, void (*f)(void)) {
    typedef int (*F)(pthread_once_t *, void (*)(void));
    if (me < 0) return REAL(pthread_once, F)(o, f);
    int tries = 0;
    volatile int *s = (volatile int *) o;
    for (;;) {
        if (*s == 2) return 0;
        if (*s == 0) { *s = 1; try { f(); } catch (...) { *s = 0; throw; } *s = 2; return 0; }
        giveWay(tries);
    }
}

// ------------------------------------------------------------------------------------------------ instrumentation
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define ACC(n) void __tsan_read##n(void *p) { access(p, false); } void __tsan_write##n(void *p) { access(p, false); } \
    void __tsan_unaligned_read##n(void *p) { access(p, false); } void __tsan_unaligned_write##n(void *p) { access(p, false); } \
    void __tsan_volatile_read##n(void *p) { access(p, false); } void __tsan_volatile_write##n(void *p) { access(p, false); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, unsigned long) { access(p, false); }
void __tsan_write_range(void *p, unsigned long) { access(p, false); }
void __tsan_vptr_update(void **p, void *) { access(p, false); }
void __tsan_vptr_read(void **p) { access(p, false); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define ATOM(n, T) \
    T __tsan_atomic##n##_load(const volatile T *p, int) { access((const void *) p, true); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##n##_store(volatile T *p, T v, int) { access((const void *) p, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_exchange(volatile T *p, T v, int) { access((const void *) p, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int) { access((const void *) p, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int) { access((const void *) p, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int) { access((const void *) p, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int) { access((const void *) p, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int) { access((const void *) p, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_nand(volatile T *p, T v, int) { access((const void *) p, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { access((const void *) p, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { access((const void *) p, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int, int) { access((const void *) p, true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
}
