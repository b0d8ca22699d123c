// Threads of a simulated run.  Exactly one thread runs at a time; it hands over at the accesses to shared memory
// named by the plan, and nowhere else.
#pragma once
#include <vector>
#include <functional>
#include <cstdint>

const int MAXTHREADS = 4;
enum { AC_GLOBAL, AC_HEAP, AC_CLASSES };   // accesses to static storage; to everything else that is not the thread's own stack

struct SwitchPoint { int thread, cls; uint64_t n; int target; };

void schedRun(int threads, const std::vector<SwitchPoint> &points, const std::function<void(int)> &body);
uint64_t schedAccesses(int thread, int cls);
uint64_t schedSwitches();
uint64_t schedPathHash();
extern void (*schedDeadlock)();            // all threads wait for one another
