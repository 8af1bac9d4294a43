#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "P30": "Type traits, constant evaluation and ill-formedness are decided by the compiler's front end: there is no execution whose inputs could be symbolic, so no solver query over the code's behaviour expresses it.",
}
TECH = ("solver-based symbolic execution of the real headers: clang LLVM IR of the library instantiated in harness/{pid}_*.cpp is executed "
        "path by path with symbolic inputs (engine/vfx.cpp), every assertion, memory access and undefined-behaviour trap is an SMT query (Z3, QF_BV) "
        "decided for all values within the bounds, counterexamples are replayed natively under ASan/UBSan/MSan")
m = {"version": 1, "setup_cmd": "python3 /verif/run.py setup", "checks": [], "not_applicable": []}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    pid = p["id"]
    hs = sorted(glob.glob(os.path.join(V, "harness", pid + "_*.cpp")))
    if pid in NA or not hs:
        m["not_applicable"].append({"property": pid, "reason": NA.get(pid, "no check yet")})
        continue
    note = " ".join(x[len("// BOUNDS:"):].strip() for h in hs for x in open(h).read().splitlines() if x.startswith("// BOUNDS:"))
    m["checks"].append({
        "property": pid,
        "quick_cmd": "python3 /verif/run.py check %s --tier quick" % pid,
        "thorough_cmd": "python3 /verif/run.py check %s --tier thorough" % pid,
        "technique": TECH.format(pid=pid),
        "level": "model_checking",
        "level_note": "Bounded: every path and every symbolic value within these bounds is decided by the solver. " + note,
        "evidence_file": "evidence/%s.json" % pid,
    })
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
