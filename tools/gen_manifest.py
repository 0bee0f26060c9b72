#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
M = "stateful property-based testing: random concurrent programs and schedules under a deterministic scheduler, every history checked against a reference model, failures shrunk"
S = "stateful model-based property testing: random configurations and operation sequences against a reference model and an auditing allocator, failures shrunk"
T = "generated programs (exhaustive product plus seeded random compositions) given to the compiler, against an accept/reject oracle"
SEQ = {"C01", "C02", "C15", "C16", "C17", "C19", "C21"}
BOTH = {"C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C13", "C18", "C22"}
TYPE = {"C20", "C23"}
NOTE = {
 "M": "Explores hundreds of thousands of generated (configuration, program, schedule) cases on the real compiled code; no absence claim beyond them. Interleavings at every atomic access, fence and futex call; memory model per case sequentially consistent, with store buffers, or weak (a load may return an older store its happens-before order allows), and a vector-clock race check of the declared orderings. Trusts the runtime in mharness/core/rt and the oracle.",
 "S": "Explores tens to hundreds of thousands of generated cases on the real compiled code, single-threaded; no absence claim beyond them. Trusts the reference model.",
 "T": "The marker-type grid and the API x guard x misuse product are complete; random compositions sample beyond them. Trusts rustc and the soundness table.",
}
checks = []
for p in P:
    i = p["id"]
    k = "T" if i in TYPE else "S" if i in SEQ else "M"
    note = NOTE[k]
    if i in BOTH:
        note += " A fixed share of the cases is sequential (reference model), the others are concurrent."
    checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough", evidence_file=f"evidence/{i}.json", technique={"M": M, "S": S, "T": T}[k], level="exploration", level_note=note))
m = dict(version=1, setup_cmd="./build_m.sh >/dev/null && python3 typecheck/typecheck.py build", checks=checks, not_applicable=[],
         notes="No hooks in /repo: the concurrent engine instruments the compiled code (ThreadSanitizer calls) and links its own runtime. Findings are in known-findings.txt; replay with ./replay.sh <file>.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
