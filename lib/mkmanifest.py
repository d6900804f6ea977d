#!/usr/bin/env python3
"""Writes MANIFEST.json from the job tables and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import jobs as J
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in J.PROPS:
        na.append({"property": i, "reason": J.NOT_APPLICABLE.get(i, "no check built yet")})
        continue
    d = J.PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "technique": "symbolic execution of the compiled crate (LLVM IR) with Z3, differential against a reference specification" if i not in ("C01", "C02", "C03", "C04") else "symbolic execution of the compiled crate (LLVM IR) with Z3: no reachable panic, overflow, bad memory access or endless loop",
        "level": "model_checking",
        "level_note": "Exhaustive within the bounds, inputs symbolic: " + d["bounds"] + ". Outside the bounds nothing is claimed. Trusts rustc, LLVM's O1 passes, the engine's memory and libc models, and Z3; every counterexample and a sample of the explored paths are replayed natively.",
    })
m = {"version": 1, "setup_cmd": "python3 check.py build", "checks": checks}
if na:
    m["not_applicable"] = na
m["notes"] = "No hooks in /repo: the harness crate (harness/) uses the public API through a path dependency. See DESIGN.md."
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
