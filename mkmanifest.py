#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": ("model-based monitor of stores and servers: every answer compared with exact (big.Float) statistics", "Random schemas and histories of observations; every reported value is compared with exact arithmetic within the rounding bound of the algorithm. Trusts the monitor's model; values beyond 1e150 are not judged for sum, mean and variance."),
 "C02": ("model-based routing monitor over hostile key values, direct and over HTTP", "Each observation must change exactly the instances of the model. Known findings: keys whose concatenation coincides, and values made to have the same 64-bit hash."),
 "C03": ("stress with injected delays at hooked steps; conservation check of all acknowledged observations", "Samples schedules, steered by yield points; final state compared exactly."),
 "C04": ("online snapshot checker over concurrent reads: values decode to the set of observations they contain; operations stopped before any statement while others run", "Samples schedules; every read is decoded and checked for consistency, freshness and monotonicity."),
 "C05": ("Go race detector (-race) under unsynchronised concurrent workloads with injected delays", "Any report is a violation. The detector judges the schedules that occur."),
 "C06": ("state comparison around rejected observations and failing updates", "All measures of all instances are read before and after each rejection."),
 "C07": ("statistical monitor of unique counts against exact sets over structured value families", "Error bounds of several standard errors, tuned to never fire on the ideal estimator; fixed by the seed."),
 "C08": ("metamorphic monitor: permutations, repeats, partitions, concurrent writers, save and restore", "Compares estimates of equal sets bit by bit."),
 "C09": ("model-based monitor and linearizability check of histories recorded under injected delays", "Sequential histories are exact; concurrent ones sample schedules."),
 "C10": ("model-based monitor of overfilled stores, direct and over HTTP", "Refused observations must change nothing, accepted keys stay accepted."),
 "C11": ("increments by distinct powers of two under injected delays: each read decodes to a set of increments", "Sequential histories are exact; concurrent ones sample schedules."),
 "C12": ("linearizability check of recorded register histories under injected delays, also with operations stopped before any statement", "Sequential histories are exact; concurrent ones sample schedules."),
 "C13": ("generate-render-parse oracle and an independent recogniser of malformed queries", "The oracle is the query the text was written from. Names without blanks, commas, quotes, parentheses and =."),
 "C14": ("metamorphic monitor: the same observations in many encodings, compared with the model", "All encodings of a batch must give the values of the model."),
 "C15": ("request fuzzer with a specification of statuses, headers and bodies; state compared after refusals", "Random methods, paths, media types and queries over a real listener."),
 "C16": ("model-based monitor of bit buckets, including neighbours and sizes", "Every operation is followed by comparison with an array."),
 "C17": ("monitor of all items ever added, across save and restore", "No false negative may ever be seen."),
 "C18": ("statistical monitor of false positives, counts and error rates against measured truth", "Bounds are wide enough for the ideal filter at the sizes used; populations of several hundred items or more."),
 "C19": ("round trips through arbitrarily chunked streams, compared by behaviour and bytes", "Restored objects are operated in lockstep with the original."),
 "C20": ("fault injection: every truncation, failing readers and writers at each byte, corruption; panics and allocation monitored", "Every truncation and failure point of each generated object is tried; corruptions are sampled."),
 "C21": ("differential monitor against hash/fnv of the standard library", "All chunkings are random; the reference is the Go standard library."),
 "C22": ("differential monitor against exact big.Float statistics", "Tolerance is the error bound of the streaming algorithm."),
 "C23": ("differential monitor: each measure alone against all schemas, with guarded buffers", "Records are compared with those of single-measure schemas, buffers have canaries and random initial contents."),
 "C24": ("black-box monitor of the built program under the airport data", "Runs the real binary on loopback port 2525 and compares every answer with the data."),
 "C25": ("fault injection: connections cut at every byte; the state must be that of a line prefix", "Cut points of generated uploads are enumerated; which of the allowed prefixes is stored is free."),
 "C27": ("process monitor of running servers under hostile clients and signals, with a delay injected into the signal handling", "Samples client behaviours and moments of signals; the step between asking for signals and waiting for them is held open by a hook. Promptness is 20 s."),
 "C28": ("model-based monitor of stores over adversarial backends that retry, discard, overwrite and fail", "The backends are the monitor's own and keep the contract of storage.Backend; all values are compared with the model."),
 "C29": ("heap and peak memory of server processes monitored over rounds of requests and huge uploads", "Growth is measured over tens of thousands of requests of each kind after a warm-up; small or very slow growth is not seen."),
 "C30": ("watchdog on every operation beside unceasing readers and writers, in full stores, and for megabyte requests", "Bounded means 20 s, of which a small fraction is needed; schedules are sampled."),
 "C31": ("differential monitor against an independent implementation of the stored form", "Bytes written and contents read are compared with the monitor's own encoder for random parameters, items and histories."),
 "C32": ("interference monitor: machines on separate objects run alone, interleaved, side by side and stopped before any statement, with guarded and overwritten arguments", "Random scripts for eleven kinds of objects; what each sees must be identical."),
 "C26": ("repeat and interference monitor: byte-identical answers with and without other queries", "Response bodies are compared byte by byte around storms of other queries."),
}
fault = {"C20", "C25"}
checks = []
for p in sorted(T):
    t, n = T[p]
    checks.append({"property": p, "quick_cmd": "./run.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + p,
        "technique": "runtime monitoring: " + t, "level": "fault_enumeration" if p in fault else "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "./setup.sh",
 "hooks": {"guard": "Go build tag verif", "enable": "go build -tags verif (run.sh)", "source_commits": ["69b577d3ebaa7c555c20f0a3422f0c4a9280ce99", "f1625c103b2d561a50ff1d5f28210ac63fa74432"]},
 "checks": checks, "not_applicable": [],
 "notes": "run.sh lays mon/ over the module as internal/verifmon with go build -overlay, builds it from the working tree of /repo and runs it. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
