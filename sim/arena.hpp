// Simulated allocator.  While a thread is inside library code (g_lib > 0) operator new is served from here;
// harness allocations go to malloc and never perturb the simulation.
#pragma once
#include <cstddef>
#include <cstdint>

#ifdef SIM_THREADS
#define SIM_TLS thread_local
#else
#define SIM_TLS
#endif

extern SIM_TLS int g_lib;

struct LibScope { int old; LibScope() : old(g_lib) { g_lib = 1; } ~LibScope() { g_lib = old; } };
struct HarnessScope { int old; HarnessScope() : old(g_lib) { g_lib = 0; } ~HarnessScope() { g_lib = old; } };

enum Placement { PL_ASC, PL_DESC, PL_SCATTER, PL_LIFO, PL_GUARD, PL_COUNT };
enum FillMode { FM_ZERO, FM_ONES, FM_CD, FM_RANDOM, FM_COUNT };

struct MemEnv {
    int placement = PL_ASC;
    int fill = FM_ZERO;
    uint64_t seed = 0;
};

struct ArenaStats { uint64_t allocs, frees, failed, reused; };

void arenaReserve();                       // map the address range, once, before any fork
void arenaStart(const MemEnv &env);        // start of a run
void arenaArm(long nth);                   // the nth library allocation from now fails (0: disarm)
long arenaArmed();                         // allocations left until the fault, 0 if disarmed
bool arenaFired();                         // a fault was delivered since arenaArm
uint64_t arenaLive();                      // live library blocks
uint64_t arenaMark();                      // sequence number of the next block
bool arenaCheck(char *msg, size_t n);      // canaries and quarantined memory intact?
void arenaDescribeLive(uint64_t sinceMark, char *msg, size_t n);
const ArenaStats &arenaStats();
bool arenaOwns(const void *p);
// called on a detected violation (double free, wild free, overrun); never returns in practice
extern void (*arenaViolation)(const char *what);
