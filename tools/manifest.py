"""Regenerate MANIFEST.json from the specs present."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
FLOW = ("The compiler's MIR of the functions behind the property is turned into closed forms by a value-flow analysis "
        "(gated merges, summarised loops, inductive summaries for the recursive kernels). A form identical to the "
        "required one holds for every dimension, signature and coefficient; otherwise the two forms are compared as "
        "polynomials at random field points in every signature model up to the stated dimensions, so a difference "
        "is always real and agreement is up to those bounds. Trusted: rustc's MIR, the library models in "
        "an/models.py, coefficients treated as an exact ring. Code the analysis does not model is reported as undecided "
        "in the evidence, not as a violation.")
NA = {}
TOTAL = sum(1 for x in open(os.path.join(ROOT, "properties.jsonl")) if x.strip())


def main():
    checks = []
    for i in range(1, 1 + TOTAL):
        pid = "C%02d" % i
        if pid in NA or not os.path.exists(os.path.join(ROOT, "an", "specs", pid + ".py")):
            continue
        m = importlib.import_module("an.specs." + pid)
        checks.append({
            "property": pid,
            "quick_cmd": "python3 -m an.check %s quick" % pid,
            "thorough_cmd": "python3 -m an.check %s thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": getattr(m, "TECH", "value-flow analysis of the compiler's MIR against closed-form rules"),
            "level": "other",
            "level_note": getattr(m, "NOTE", FLOW)})
    claimed = {c["property"] for c in checks}
    na = [{"property": p, "reason": r} for p, r in sorted(NA.items())]
    for i in range(1, 1 + TOTAL):
        pid = "C%02d" % i
        if pid not in claimed and pid not in NA:
            na.append({"property": pid, "reason": "no check built yet"})
    man = {"version": 1, "setup_cmd": "python3 -m an.dump", "checks": checks, "not_applicable": na,
           "notes": "All checks analyse /repo's source through a rustc wrapper (driver/); none executes repository code. "
                    "No hooks are added to /repo."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(checks), "checks")


main()
