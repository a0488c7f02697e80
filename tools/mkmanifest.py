#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after the set of checks changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": ("online membership monitor over recorded insert histories",),
 "C02": ("model-based runtime monitor: reference multiset keyed by probed indistinguishability classes",),
 "C03": ("model-based runtime monitor: per-level replica filters run in lock-step",),
 "C04": ("model-based runtime monitor: reference set of fingerprints, enumerated small tables and random histories",),
 "C05": ("statistical runtime monitor: measured false positive rates against exact tail bounds",),
 "C06": ("trace-specification monitor of the growth rule plus measured compound error",),
 "C07": ("runtime monitor of estimated_fpp against occupancy and measured rates",),
 "C08": ("runtime monitor: counters against bit occupancy reconstructed by probing hashers",),
 "C09": ("runtime monitor: step-wise bit differences of stream filters reconstructed by probing hashers",),
 "C10": ("statistical runtime monitor of long streams against the Markov chain of the replacement rule",),
 "C11": ("runtime monitor: exact counts kept beside the sketch, statistical monitor of (epsilon, delta)",),
 "C12": ("differential runtime monitor: equivalent histories and a reference counter matrix",),
 "C13": ("statistical runtime monitor of estimates at controlled cardinalities",),
 "C14": ("algebraic-law runtime monitor over sketches of random sets",),
 "C15": ("law and statistics runtime monitor against exact Jaccard similarity",),
 "C16": ("runtime monitor against a reference majority vote and a reference rotation window",),
 "C17": ("runtime monitor against exact set and window computations, small cases enumerated",),
 "C18": ("lock-step twin monitor: original and deserialized copy",),
 "C19": ("lock-step twin monitor: cleared and fresh structure",),
 "C20": ("lock-step twin monitor: original, clone and untouched clone",),
 "C21": ("serialized-state monitor around queries; concurrent readers under ThreadSanitizer and Miri",),
 "C22": ("lock-step twin monitor over rebuilt builders, borrowed forms and separate processes",),
 "C23": ("runtime monitor of constructor contracts with an allocation meter",),
 "C24": ("lock-step monitor of hooked containers against Vec, boundaries enumerated",),
 "C25": ("hostile workloads under overflow checks, allocation and CPU watchdogs, AddressSanitizer and Miri",),
 "C26": ("runtime monitor of equality against serialized contents, over pairs of states",),
 "C27": ("differential runtime monitor across platforms (Miri as i686 and s390x) with a reference SipHash",),
 "C28": ("statistical runtime monitor of the load at first overflow and of churn",),
 "C29": ("fault injection (panicking Hash, rejected calls) with a lock-step twin monitor",),
 "C31": ("runtime monitor of the heap through a counting allocator, over histories",),
 "C32": ("runtime monitor of instruction counts per operation under valgrind (callgrind)",),
 "C30": ("differential runtime monitor over different histories with the same contents",),
}
NOTE = {
 "default": "Real code, built from /repo with overflow checks and debug assertions, driven by seeded workloads; the monitor judges only what the public interface answers. Assurance is that of the executions observed (counts in the evidence); trusts the harness's reference models and the compiler.",
 "stat": "Real code under seeded workloads; a rate is reported as wrong only when the exact tail bound of its model is below e^-34, so chance does not raise alarms, and deviations smaller than the sample resolves are missed. Trusts the independence of the SipHash-based builders used for the measured runs.",
 "C21": "States are compared through complete serialization, so a hidden change that is not serialized is only seen through later answers. Data races are judged by ThreadSanitizer (instrumented std) and by Miri on the executions made; a leg that cannot be built is named in the output and counts no cases.",
 "C24": "Runs the internal containers through a re-export guarded by cfg(verif_hooks); boundaries up to two blocks are enumerated, longer histories sampled.",
 "C25": "Decided by overflow checks, debug assertions, std's unsafe preconditions, a cap on single allocations, a CPU watchdog per step, AddressSanitizer and Miri on the executions made.",
 "C27": "The same seeded cases run natively and, interpreted by Miri, on i686 and on big-endian s390x; answers and serialized data are compared value by value (floats to 1e-9). A platform leg that cannot be built is named in the output and counts no cases. Trusts Miri's model of these targets.",
 "C32": "Costs are instructions counted by callgrind in separate processes running the real code, small against large, so they do not depend on load or timing; a cost that grows by less than 1.6 times plus 200 instructions between the two sizes is missed. Sizes and streams are those listed in the evidence.",
}
STAT = {"C05", "C06", "C07", "C10", "C11", "C13", "C15", "C28"}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "python3 setup.py",
 "hooks": {"guard": "cfg(verif_hooks)", "enable": "RUSTFLAGS=\"--cfg verif_hooks\" (check.py does this for C24 only; every other check builds /repo with the guard off)",
           "source_commits": ["a7b63f1318cca871dd915e33e713ae95031d08df"]},
 "checks": [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
             "technique": TECH[p][0], "level": "exploration",
             "level_note": NOTE.get(p) or NOTE["stat" if p in STAT else "default"]} for p in props],
 "not_applicable": [],
 "notes": "check.py <ID> --replay <file> re-runs the single case of a replay file. Known findings and repairs: known-findings.txt.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
