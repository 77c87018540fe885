#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the harnesses present and the reasons below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "M01": "schedules over real threads, static initialisation and dynamic loading (dlopen of annotators) are outside what the symbolic executor encodes (it follows one thread); no weaker solver-based statement would decide it",
}
PENDING = "no check yet: the harness for this property is not built"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    h = os.path.join(V, "harness", i + ".cpp")
    if os.path.exists(h) and i not in NA:
        b = [l[len("// BOUND: "):].strip() for l in open(h) if l.startswith("// BOUND: ")]
        o = [l[len("// OUTSIDE: "):].strip() for l in open(h) if l.startswith("// OUTSIDE: ")]
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s" % i, "thorough_cmd": "python3 bin/check.py %s --thorough" % i,
          "technique": "symbolic execution of the compiled code (LLVM IR) with z3 deciding every branch and assertion",
          "level": "model_checking",
          "level_note": "Bounded: " + "; ".join(b) + (". Outside: " + "; ".join(o) if o else "") + ". Trusted: z3, the IR instrumentation and the ICU/libc string models (validated on every run by replaying explored paths natively); counterexamples are reported only when the native ASan build reproduces them."})
    else:
        na.append({"property": i, "reason": NA.get(i, PENDING)})
m = {"version": 1, "setup_cmd": "python3 bin/symxbuild.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. known_findings.txt lists recorded findings and the fix: commits."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
