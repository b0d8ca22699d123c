#pragma once
#include "core.hpp"
#include "mocked.hpp"

enum Probe {
    P_CALL, P_ANSWERED, P_UNMOCKED, P_UNMATCHED, P_EXHAUSTED, P_OLDER_STUB, P_MULTI_ACT, P_QTY, P_REENTRANT, P_NESTED, P_ALWAYS,
    P_EXC_ACT, P_UNWIND_CALL, P_VERIFY_PASS, P_VERIFY_FAIL, P_VERIFY_BOOL, P_MULTI_PATTERN, P_CONCAT, P_REPEAT, P_MULTI_MOCK, P_USING, P_UNVERIFIED,
    P_VNOI_PASS, P_VNOI_FAIL, P_PARTIAL, P_INTERRUPT_STUB, P_INTERRUPT_VERIFY, P_HELD, P_COPIES, P_EVENTS, P_LISTENERS, P_ADAPTER_THROW, P_ADAPTER_RETURN, P_FORMATTER,
    P_RESET, P_RESTUB, P_CLEAR, P_MEMBERS, P_SPY_CALL, P_SPY_DIRECT, P_SPY_SELFCALL, P_SPY_RECURSE, P_SPY_EXC, P_RESTORED, P_MOCKS2, P_MOCKS3, P_DESTROY, P_DTOR_ACT,
    P_DTOR_RESET, P_OUT, P_REFARG, P_MOVEONLY, P_REFRET, P_FAULT_PRED, P_FAULT_COPY, P_FAULT_CMP, P_FAULT_ALLOC, P_FAULT_VERIFY, P_LISTENER_THROW, P_NAMED_ONLY,
    P_AUDIT, P_LONGHIST, P_MANYSTUBS, P_MOCKDEL, P_QTY0, P_MUTATED, P_ATLEAST0, P_CALL_AFTER_VERIFY, P_CLEAR_IN_ACTION, P_STUB_IN_ACTION, P_CALL_IN_CONDITION, P_BURST, P_ABANDONED, P_THREADS, P_JOINT, P_GROUP, P_AGAIN, P_TEXT, P_TEXT_LONG, P_CONDITION, P_DRAWN, P_DRAWN_REAL, P_SAME_PATTERN, P_EXPRESSION, P_REPEAT_MANY, P_REFUSED, P_DESTROY_SPIED, P_CROWD, P_WIDE, P_COUNT
};
const char *probeName(int p);

struct Shared {                 // written by the run, read by its parent
    volatile int done;
    volatile int dkind;
    volatile int opIndex;       // top level operation at which a discrepancy was seen
    char msg[2000];
    uint64_t logHash;
    uint64_t ops, calls, allocs, steps;
    uint64_t probes[P_COUNT];
    uint64_t faults[16];
    uint64_t stateHashes[512];
    uint32_t nstates;
    uint64_t accesses[4][2];    // shared accesses per thread and class
    uint64_t threadHash[4];     // what each thread observed
    int threads;
    unsigned char positions[4096]; // methods of generated classes that answered a call
    uint32_t loglen;
    char log[1 << 19];
};
enum { FI_ACTION_THROW = F_COUNT, FI_INTERRUPT, FI_LISTENER, FI_ADAPTER, FI_UNWIND, FI_GARBAGE, FI_REENTRY, FI_PREEMPT, FI_COUNT };
inline const char *faultName(int f) {
    static const char *n[] = {"none", "copy_throws", "comparison_throws", "condition_throws", "allocation_fails", "action_throws", "phrase_interrupted",
                              "listener_throws", "adapter_throws", "call_during_unwinding", "memory_environment", "reentrant_call", "thread_preempted"};
    return f < FI_COUNT ? n[f] : "?";
}

struct RunCfg {
    MemEnv env;
    bool verbose = false;       // also write the text log
    int reps = 1;               // repetitions in one process for the leak oracle
    bool joint = true;          // audits also compare the joint history of all mocks
};

void interpRun(const Trace &t, const RunCfg &cfg, Shared *sh); // runs in the current process; never returns normally on a discrepancy
extern Shared *g_shared;
