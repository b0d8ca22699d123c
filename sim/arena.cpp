#include "arena.hpp"
#include "rng.hpp"
#include <sys/mman.h>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <new>

SIM_TLS int g_lib = 0;
void (*arenaViolation)(const char *what) = nullptr;

namespace {
    const uintptr_t BASE = 0x200000000000ull;
    const size_t SMALL = 1024u << 20;         // bump / scatter / lifo area
    const size_t GUARDSZ = 64u << 20;        // one object per page pair
    const size_t TOTAL = SMALL + GUARDSZ;
    const size_t REDZONE = 16;
    const unsigned char POISON = 0xDB, CANARY = 0xA7;
    const size_t PAGE = 4096;
    const unsigned MAXBLK = 1u << 22;

    struct Block { uintptr_t addr; uint32_t size; uint32_t cap; uint8_t state; uint8_t guard; uint8_t dirty; uint8_t cls; uint32_t nextFree; };
    // metadata lives outside of the simulated heap
    Block *blk;
    uint32_t nblk;
    uint32_t *index_; // (addr - BASE) / 16 -> block number + 1
    MemEnv env;
    Rng rng(0);
    uintptr_t lo, hi, guardNext;
    uint32_t freeList[40];
    uint64_t live;
    long armed;
    bool fired;
    ArenaStats stats;
    // scatter: permuted slots of 256 bytes
    const size_t SLOT = 256, NSLOT = 1024;
    uint32_t slotPos;
    uint32_t slotMul, slotAdd;

    int classOf(size_t cap) { int c = 0; while (((size_t) 16 << c) < cap) c++; return c; }

    void violation(const char *w) {
        if (arenaViolation) arenaViolation(w);
        fprintf(stderr, "arena violation: %s\n", w);
        abort();
    }

    void fill(unsigned char *p, size_t n) {
        switch (env.fill) {
            case FM_ZERO: memset(p, 0, n); break;
            case FM_ONES: memset(p, 0xFF, n); break;
            case FM_CD: memset(p, 0xCD, n); break;
            default: {
                size_t i = 0;
                for (; i + 8 <= n; i += 8) { uint64_t v = rng.next(); memcpy(p + i, &v, 8); }
                for (; i < n; i++) p[i] = (unsigned char) rng.next();
            }
        }
    }

    void *place(size_t size) {
        size_t cap = (size + REDZONE + 15) & ~(size_t) 15;
        if (nblk >= MAXBLK) return nullptr;
        int pl = env.placement;
        uintptr_t a = 0;
        bool guard = false;
        int cls = -1;
        if (pl == PL_GUARD) {
            size_t pages = (size + PAGE - 1) / PAGE;
            if (pages == 0) pages = 1;
            if (guardNext + (pages + 1) * PAGE <= BASE + TOTAL) {
                uintptr_t page = guardNext;
                guardNext += (pages + 1) * PAGE; // one unmapped page in between
                if (mprotect((void *) page, pages * PAGE, PROT_READ | PROT_WRITE) != 0) return nullptr;
                a = (page + pages * PAGE - size) & ~(uintptr_t) 15;
                cap = page + pages * PAGE - a;
                guard = true;
            } else pl = PL_ASC;
        }
        if (pl == PL_LIFO) {
            cls = classOf(cap);
            cap = (size_t) 16 << cls;
            if (freeList[cls]) {
                uint32_t b = freeList[cls] - 1;
                freeList[cls] = blk[b].nextFree;
                Block &k = blk[b];
                k.size = (uint32_t) size; k.state = 1; k.dirty = 1;
                stats.reused++;
                fill((unsigned char *) k.addr, size);
                memset((unsigned char *) k.addr + size, CANARY, k.cap - size);
                live++; stats.allocs++;
                return (void *) k.addr;
            }
            pl = PL_ASC;
        }
        if (pl == PL_SCATTER) {
            if (cap <= SLOT && slotPos < NSLOT) {
                uint32_t s = (uint32_t) (((uint64_t) slotPos * slotMul + slotAdd) % NSLOT);
                slotPos++;
                a = BASE + (SMALL / 2) + s * SLOT + 16 * (rng.next() % ((SLOT - cap) / 16 + 1));
            } else pl = (rng.next() & 1) ? PL_ASC : PL_DESC;
        }
        if (!a) {
            if (lo + cap > hi) return nullptr;
            if (pl == PL_DESC) { hi -= cap; a = hi; } else { a = lo; lo += cap; }
        }
        Block &k = blk[nblk];
        k.addr = a; k.size = (uint32_t) size; k.cap = (uint32_t) cap; k.state = 1; k.guard = guard; k.dirty = 0; k.nextFree = 0;
        k.cls = (uint8_t) (cls < 0 ? 0 : cls);
        index_[(a - BASE) / 16] = nblk + 1;
        nblk++;
        fill((unsigned char *) a, size);
        memset((unsigned char *) a + size, CANARY, cap - size);
        live++; stats.allocs++;
        return (void *) a;
    }

    void release(void *p, size_t sized) {
        uintptr_t a = (uintptr_t) p;
        if (a % 16) violation("free of a pointer that was never returned by the allocator");
        uint32_t b = index_[(a - BASE) / 16];
        if (!b) violation("free of a pointer that was never returned by the allocator");
        Block &k = blk[b - 1];
        if (k.state != 1) violation("double free");
        if (sized && sized != k.size) violation("sized delete with a wrong size");
        for (size_t i = k.size; i < k.cap; i++)
            if (((unsigned char *) a)[i] != CANARY) violation("write past the end of a block");
        k.state = 2;
        live--; stats.frees++;
        if (k.guard) {
            uintptr_t page = a & ~(uintptr_t) (PAGE - 1);
            mprotect((void *) page, (a + k.cap - page), PROT_NONE);
        } else {
            memset((void *) a, POISON, k.size);
            if (env.placement == PL_LIFO) { k.nextFree = freeList[k.cls]; freeList[k.cls] = b; }
        }
    }

    void *libAlloc(size_t n) {
        if (armed > 0 && --armed == 0) { fired = true; stats.failed++; return nullptr; }
        void *p = place(n ? n : 1);
        if (!p) { fprintf(stderr, "simulated heap exhausted\n"); _Exit(77); }
        return p;
    }
}

void arenaReserve() {
    void *m = mmap((void *) BASE, SMALL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    void *g = mmap((void *) (BASE + SMALL), GUARDSZ, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    index_ = (uint32_t *) mmap(nullptr, TOTAL / 16 * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    blk = (Block *) mmap(nullptr, MAXBLK * sizeof(Block), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED || g == MAP_FAILED || index_ == MAP_FAILED || blk == MAP_FAILED) { perror("mmap"); _Exit(76); }
    arenaStart(MemEnv());
}

void arenaStart(const MemEnv &e) {
    // a run starts in a fresh process image or with an empty heap that continues to grow: blocks are never recycled
    // between runs except by the placement under test
    env = e;
    rng = Rng(e.seed);
    if (!lo) { lo = BASE; hi = BASE + SMALL / 2; guardNext = BASE + SMALL; }
    slotPos = 0;
    slotMul = (uint32_t) (rng.next() | 1);
    slotAdd = (uint32_t) rng.next();
    memset(freeList, 0, sizeof freeList);
    armed = 0; fired = false;
    memset(&stats, 0, sizeof stats);
}

void arenaArm(long nth) { armed = nth; if (nth) fired = false; }
long arenaArmed() { return armed; }
bool arenaFired() { return fired; }
uint64_t arenaLive() { return live; }
uint64_t arenaMark() { return nblk; }
const ArenaStats &arenaStats() { return stats; }
bool arenaOwns(const void *p) { return (uintptr_t) p >= BASE && (uintptr_t) p < BASE + TOTAL; }

bool arenaCheck(char *msg, size_t n) {
    for (uint32_t b = 0; b < nblk; b++) {
        Block &k = blk[b];
        unsigned char *a = (unsigned char *) k.addr;
        if (k.guard && k.state == 2) continue;
        if (k.state == 2)
            for (size_t i = 0; i < k.size; i++)
                if (a[i] != POISON) { snprintf(msg, n, "write to freed memory (block %u, size %u, offset %zu)", b, k.size, i); return false; }
        for (size_t i = k.size; i < k.cap; i++)
            if (a[i] != CANARY) { snprintf(msg, n, "write past the end of block %u (size %u)", b, k.size); return false; }
    }
    return true;
}

void arenaDescribeLive(uint64_t since, char *msg, size_t n) {
    size_t used = 0;
    int shown = 0;
    for (uint32_t b = (uint32_t) since; b < nblk && used + 32 < n && shown < 8; b++)
        if (blk[b].state == 1) { used += snprintf(msg + used, n - used, "%s#%u(%u bytes)", shown ? ", " : "", b, blk[b].size); shown++; }
}

// ------------------------------------------------------------------------------------------------ global operators
static void *doNew(size_t n) {
    if (g_lib) {
        void *p = libAlloc(n);
        if (!p) throw std::bad_alloc();
        return p;
    }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void *doNewNothrow(size_t n) noexcept { return g_lib ? libAlloc(n) : malloc(n ? n : 1); }
static void doDelete(void *p, size_t sized) {
    if (!p) return;
    if (arenaOwns(p)) release(p, sized); else free(p);
}

void *operator new(size_t n) { return doNew(n); }
void *operator new[](size_t n) { return doNew(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return doNewNothrow(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return doNewNothrow(n); }
void operator delete(void *p) noexcept { doDelete(p, 0); }
void operator delete[](void *p) noexcept { doDelete(p, 0); }
void operator delete(void *p, size_t s) noexcept { doDelete(p, s); }
void operator delete[](void *p, size_t) noexcept { doDelete(p, 0); }
void operator delete(void *p, const std::nothrow_t &) noexcept { doDelete(p, 0); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { doDelete(p, 0); }
