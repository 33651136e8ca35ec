#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the catalogue."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
RACE = {"C01", "C05", "C08", "C09", "C11", "C12"} | {"C%02d" % i for i in range(19, 31)}
CODEC = {"C16", "C17"}
T = {
 "seq": "bounded exhaustive enumeration of inputs and operation histories on the real code (stateless model checking, in-memory network, virtual time) against a reference model; conformance replay over real TCP",
 "sched": "stateless model checking of the real code: all schedules up to a deviation (preemption) bound under a controlled scheduler, on an in-memory network in virtual time, against a reference model",
 "race": "; the same schedules under a happens-before race detector",
 "codec": "bounded exhaustive enumeration on the real codec: all values of bounded domains against an independent encoder, and all arrival states (prefixes) of each",
}
SCHED = {"C04", "C05", "C08", "C13", "C14", "C19", "C20", "C21", "C22", "C23", "C25", "C26", "C27", "C28", "C29", "C01", "C09", "C11", "C12", "C24", "C30", "C15"}
checks = []
for p in P:
    i = p["id"]
    if i in CODEC:
        t = T["codec"]
        note = "Exhaustive over the stated value domains (all 8/16-bit numbers, bit-length and byte-pattern boundaries of wider ones, all short strings, every combination of field types to depth 2-3), every placement and every prefix; values outside the domains are not covered."
    else:
        t = (T["sched"] if i in SCHED else T["seq"]) + (T["race"] if i in RACE else "")
        note = ("Real code, every input of the job alphabets" + (" and every schedule up to the deviation bound reported in the evidence" if i in SCHED else "") +
                "; assumes the in-memory TCP and clock behave like the real ones (jobs are replayed on the unmodified build over real loopback TCP) and says nothing beyond the alphabets and bounds.")
    checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "chmod +x check && go version", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: instrumentation is generated from the working tree into a build overlay by instr/. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
