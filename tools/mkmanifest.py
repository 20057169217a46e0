#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from profiles import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {
    "C17": "A pure function of the schema text: no schedule, clock, fault or history enters the verdict on a schema, so there is nothing for a simulator to decide; generating invalid schemas would be input fuzzing. I/O faults of the same program are decided by C14 and C15.",
    "C18": "A pure function of the schema text: permuting definitions is input generation (a metamorphic test), with no nondeterminism or fault in it. What does vary between runs of the compiler (memory layout, hash seeds, kills, I/O) is decided by C15.",
    "C19": "Concerns which compilers and language modes accept the source; it is decided by compiling, not by executing anything under a simulator.",
    "C20": "Concerns real time and allocation cost, about which deterministic simulation decides nothing (simulated time is not real time). The step and memory bounds on corrupted input are part of C05, and the absence of allocations when encoding of C11.",
}
checks = []
for p in ids:
    if p in PROPS:
        c = PROPS[p]
        checks.append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
                           technique=c.get("technique", "deterministic simulation: seeded search over messages, schedules and injected faults, judged by a reference model"),
                           level="exploration", level_note=c.get("note", "Sampled, not exhaustive: every run is one seed and replays exactly. Trusts " + "; ".join(c["assumptions"]) + ".")))
    elif p not in NA:
        NA[p] = "Not built yet."
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks,
         not_applicable=[dict(property=p, reason=NA[p]) for p in ids if p in NA],
         notes="No hooks in /repo: all nondeterminism is controlled through seams which exist (buffers, spans, streams, operator new, libc entry points interposed by the harness). Replay a violation with: python3 check.py replay FILE [-v]")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
