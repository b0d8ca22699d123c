#!/usr/bin/env python3
"""Writes MANIFEST.json.  CLAIMED and NOT_APPLICABLE together cover properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "deterministic simulation: seeded operation histories and injected faults against a lock-step reference model"
CLAIMED = {
    "C01": (SIM, "which stubbing answers is decided for every call of every simulated history"),
    "C02": (SIM, "the model keeps how far each stubbing's actions are used; nested and throwing actions included"),
    "C03": (SIM, "the complete recorded history, order and contents are audited against the model after operations and inside actions"),
    "C04": (SIM, "verdicts and counts compared with the model's own matcher on generated patterns, sources and requirements"),
    "C05": (SIM, "marks are read back call by call and through VerifyNoOtherInvocations"),
    "C06": ("deterministic simulation: exceptions injected at every step of a phrase, phrases held and copied", "interruption points, copies and held phrases are drawn from the seed"),
    "C07": ("deterministic simulation: event history of listeners and adapter compared with the model", "listeners and adapter are stubs of the simulator and see every report"),
    "C08": (SIM, "runs continue after resets and clears; discrepancies count for this property when they vanish without them"),
    "C09": ("deterministic simulation: spied real objects against the model of their own code, exceptions injected", "real objects are simulator classes of one hierarchy"),
    "C10": ("deterministic simulation: several mocks, audited per mock; a discrepancy counts when the run is clean with one mock alone", "up to eight mocks at a time"),
    "C11": ("deterministic simulation: threads under a simulated scheduler that preempts at seeded shared-memory accesses", "each thread is compared with its own reference model, the joint history after joining with all of them; sequentially consistent memory"),
    "C12": ("deterministic simulation: simulated allocator with use-after-free, double-free and leak oracle, injected exceptions", "allocator metadata, poisoning and quarantine instead of a sanitizer; growth over repetitions decides leaks"),
    "C13": ("deterministic simulation: the same run under several simulated memory layouts and fills, logs compared", "four layouts per run"),
    "C14": ("deterministic simulation: destructions by four routes against the reference model, leak oracle", "destructor at first, middle and last position, and absent"),
    "C15": (SIM, "all argument and result kinds of the simulator classes; cells of the caller compared after each call"),
    "C16": ("deterministic simulation: exceptions injected into actions, conditions, copies, comparisons and listeners", "nth evaluation of the chosen kind throws"),
    "C17": ("deterministic simulation: failing nth allocation inside mocked calls", "one failing allocation per call"),
    "C18": (SIM, "a discrepancy counts when the run is clean with verifications and namings taken out"),
    "C19": ("deterministic simulation: text of every message of a history compared with the model's text", "stream state, list lengths, patterns and argument kinds are drawn from the seed"),
    "C20": ("deterministic simulation: conditions in stubbings and verifications over histories; a discrepancy counts when the run is clean with the same comparisons written as predicates", "sixteen argument kinds, ordered and unordered values, expected values changed after the phrase"),
    "C21": ("deterministic simulation: classes and histories drawn from the seed; a discrepancy counts when the run is clean on a plain class", "one set of drawn classes per quick run, four per thorough run; single inheritance"),
    "C23": ("deterministic simulation: the same histories and faults on simulators built from the sources and from the single headers; a discrepancy counts when the other form executes the run without one", "the headers under single_header and those the generator makes are compiled with g++ only"),
    "C24": ("deterministic simulation: the same histories and faults on simulators built with five settings of compiler, language standard and optimisation; a discrepancy counts when the usual build executes the run without one", "g++ 13 and clang 18 only; C++11 is simulated by compiling the library with the language version it tests for set to C++11, the simulator needs C++14"),
    "C22": ("deterministic simulation: histories under each bundled configuration with simulated testing frameworks, faults in user code injected", "the frameworks are stand-ins written from their documented interfaces"),
}
NOT_APPLICABLE = {
}


def main():
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        ids = [json.loads(l)["id"] for l in f if l.strip()]
    assert sorted(ids) == sorted(list(CLAIMED) + list(NOT_APPLICABLE)), "properties and manifest differ"
    m = {"version": 1, "setup_cmd": "python3 run.py --build", "checks": [], "not_applicable": []}
    for i in ids:
        if i in CLAIMED:
            t, note = CLAIMED[i]
            m["checks"].append({
                "property": i, "quick_cmd": "python3 run.py %s" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration",
                "level_note": "Seeded search, not exhaustive: " + note + ". Trusts the reference model in sim/interp.cpp.",
            })
        else:
            m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE[i]})
    m["notes"] = "No hooks in /repo: every source of nondeterminism is reachable from outside the library. Repairs of defects found are the fix: commits listed in KNOWN_FINDINGS.txt."
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
