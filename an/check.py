"""Entry point: python3 -m an.check <property> <tier>"""
import importlib
import json
import os
import sys
import time

sys.setrecursionlimit(20000)

from . import dump as D          # noqa: E402
from .ctx import Ctx             # noqa: E402
from .mir import Prog            # noqa: E402

ROOT = D.ROOT
FINDINGS = os.path.join(ROOT, "known_findings.txt")


def known():
    out = []
    if os.path.exists(FINDINGS):
        for ln in open(FINDINGS):
            ln = ln.strip()
            if ln.startswith("known:"):
                out.append(ln[6:].strip())
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    t0 = time.time()
    spec = importlib.import_module("an.specs." + prop)
    path = None
    try:
        path = D.dump()
        prog = Prog(path)
    except D.BuildError as e:
        print("ERROR: %s" % e)
        return 2
    finally:
        if path and os.path.exists(path):
            os.unlink(path)
    cx = Ctx(prop, tier, seed, prog)
    try:
        spec.run(cx)
    except Exception as e:
        import traceback
        cx.undecided.append({"clause": "(between clauses)", "why": "%s: %s" % (type(e).__name__, e)})
        print("undecided: analysis stopped early\n" + traceback.format_exc()[-1500:])
    cx.finish()
    cov = {"explanation": spec.EXPLAIN,
           "rule": getattr(spec, "RULE", ""),
           "bodies_analysed": sorted(prog.bodies[k]["path"] for k in cx.analysed if k in prog.bodies),
           "bodies_analysed_count": len(cx.analysed),
           "loops_summarised": cx.nloops, "calls_resolved": cx.ncalls,
           "clauses": [{k: v for k, v in c.items() if k != "trace"} for c in cx.clauses],
           "clauses_total": len(cx.clauses),
           "clauses_undecided": len(cx.undecided),
           "normal_forms_compared": sum(c.get("compared", 0) for c in cx.clauses),
           "normal_forms_identical": sum(c.get("identical", 0) for c in cx.clauses),
           "model_points_compared": cx.points,
           "summaries_assumed_and_verified": sorted(cx.contracts),
           "samples": cx.samples}
    cov.update(getattr(cx, "extra", {}))
    floor = getattr(spec, "FLOOR", None)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(spec, "LEVEL", "other"), "coverage": cov,
          "assumptions": getattr(spec, "ASSUME", []), "violations": cx.violations,
          "wall_s": round(time.time() - t0, 3)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    out = os.path.join(ROOT, "evidence", prop + ".json")
    with open(out + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(out + ".tmp", out)
    for c in cx.clauses:
        print("  [%s] %s%s" % (c["verdict"], c["name"], "" if c["verdict"] != "undecided" else "  -- " + c["why"]))
        if c.get("trace") and os.environ.get("VERIF_TRACE"):
            print(c["trace"])
    print("%s: %d clauses, %d bodies, %d forms compared (%d identical), %d model points, %d undecided, %.1f s" % (
        prop, len(cx.clauses), len(cx.analysed), cov["normal_forms_compared"], cov["normal_forms_identical"],
        cx.points, len(cx.undecided), time.time() - t0))
    kn = known()
    real = []
    for v in cx.violations:
        key = "property=%s %s %s" % (v["property"], v["clause"], v["kind"])
        hit = [k for k in kn if key.startswith(k.split(" -- ")[0].strip())]
        if hit:
            print("KNOWN-FINDING: %s: %s" % (key, v["message"]))
        else:
            real.append(v)
    if floor is not None and not real and len(cx.clauses) < floor:
        print("ERROR: only %d clauses were formed (floor %d)" % (len(cx.clauses), floor))
        return 2
    if real:
        for v in real[:8]:
            print("violation: clause=%s kind=%s %s" % (v["clause"], v["kind"], v["message"]))
            if v.get("where"):
                print("  at %s" % v["where"])
            if v.get("detail"):
                print("  " + json.dumps(v["detail"], default=str)[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, out))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
