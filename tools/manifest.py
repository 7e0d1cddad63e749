#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a module in mc/src/props is claimed."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl") if l.strip()]
have = set(re.findall(r'"(C\d\d)"', open(f"{root}/mc/src/props/mod.rs").read()))
INPUT = "bounded exhaustive enumeration of inputs on the real code against an executable reference model"
HIST = "stateless model checking: all operation histories up to a depth on the real code against a reference state machine"
FAULT = "stateless model checking: every environment answer (short, interrupted, failed operation) enumerated under a deviation bound on the real code"
TECH = {
 "C09": INPUT.replace("against an executable reference model", "with panic, abort and termination monitoring in supervised processes"),
 "C11": "bounded exhaustive enumeration of declared sizes on the real code with a counting allocator",
 "C12": HIST, "C13": HIST, "C14": HIST + "; hash seeds enumerated", "C15": HIST,
 "C16": FAULT, "C17": FAULT, "C18": FAULT,
 "C19": HIST, "C20": HIST, "C21": HIST + "; stream faults enumerated",
 "C24": HIST, "C26": "stateless model checking: all interleavings of real threads at callbacks, allocations, atomic and lock operations up to a preemption bound under a controlled scheduler; all reentrant calls and operation histories",
 "C27": FAULT, "C28": "bounded exhaustive enumeration of nesting shapes on the real code with step counting",
}
TRUST = ("Holds for every execution inside the stated bounds (listed per space in the evidence file); nothing is sampled. "
         "Trusted: rustc, std, the explorer and the reference model in /verif/mc (written from the specification, sharing no code with the crate).")
NOTE = {
 "C09": " Termination is judged by a 60 s limit per execution; stack exhaustion beyond 1000 nesting levels is a recorded finding.",
 "C11": " Memory is what the global allocator hands out.",
 "C14": " The randomness of std's HashMap is owned by the harness (getrandom is interposed).",
 "C26": " The crate is compiled with thread instrumentation, so atomic operations and accesses to static memory are scheduling points besides callbacks, allocations and std's futex calls. Sequential consistency is assumed; preemptions between these points are not explored.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in have:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh {i} quick",
        "thorough_cmd": f"./run.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH.get(i, INPUT),
        "level": "model_checking",
        "level_note": TRUST + NOTE.get(i, ""),
    })
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks: everything is observed through the public API, so /repo carries fix commits only. Replay a violation with ./run.sh replay FILE."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
