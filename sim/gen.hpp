// Workload generation and attribution, per property.
#pragma once
#include "interp.hpp"

struct Plan {              // everything that fixes one run
    Trace t;
    MemEnv env;
    int reps = 1;
    bool joint = true;
    int envs = 1;          // layout runs: the trace is executed under this many memory environments
};

bool knownProperty(const std::string &id);
Plan generate(const std::string &prop, uint64_t seed, uint64_t index);
void addSwitches(Plan &p, uint64_t seed, int threads, const uint64_t (*accesses)[2]);
bool ownsDirectly(const std::string &prop, int dkind, int opKind);
// traces with the feature a property is about taken out; a discrepancy belongs to the property if all of these are clean
std::vector<Trace> neutralise(const std::string &prop, const Trace &t);
bool oneCleanIsEnough(const std::string &prop); // or one of them
bool mayOwnByFeature(const std::string &prop, int dkind, int opKind);
MemEnv envNumber(uint64_t seed, int n);
// whether a run reached something the property is about
bool reached(const std::string &prop, const uint64_t *probes);
