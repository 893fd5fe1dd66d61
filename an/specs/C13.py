"""C13: equality, zero test, approximate equality, clone."""
from .common import *

EXPLAIN = ("the truth value of ==, !=, is_zero and approx_eq is derived from the MIR as a closed condition over all "
           "coefficients of both operands and compared with the coefficientwise definition; the operands are "
           "arbitrary, partly equal and equal coefficient families; clone is compared coefficient by coefficient")
RULE = "a == b iff a[k] == b[k] for all k; is_zero(a) iff a[k] == 0 for all k; approx_eq(a,b,p) iff |a[k]-b[k]| < p for all k"
FLOOR = 12


def run(cx):
    for kind, lbl, new, ty in each(cx):
        for nm, neg in (("eq", False), ("ne", True)):
            with cx.clause("%s, %s" % (nm, lbl)):
                s = new()
                alg = algof(s, kind)
                try:
                    t = s.method(nm, ty(), "std::cmp::PartialEq")
                except Missing:
                    if nm == "ne":          # the provided method
                        continue
                    raise
                a, b = s.ref(s.mv("a", ty(), alg["dim"])), s.ref(s.mv("b", ty(), alg["dim"]))
                r = s.call(t, [a, b])
                j = fresh_var(alg)
                differ = T.mk("ex", (j,), bnot(T.req(rd("a", j), rd("b", j))))
                want = differ if neg else bnot(differ)
                related(cx, "a %s b" % ("!=" if neg else "=="), r, want, alg, where(t))
                same(cx, s, a, "a", alg, "left operand")
                same(cx, s, b, "b", alg, "right operand")
                cx.no_panics(s, models=models_of(cx, alg))
        with cx.clause("is_zero, %s" % lbl):
            s = new()
            alg = algof(s, kind)
            t = s.method("is_zero", ty(), "num::Zero")
            r = s.call(t, [s.ref(s.mv("a", ty(), alg["dim"]))])
            j = fresh_var(alg)
            want = bnot(T.mk("ex", (j,), bnot(isz(rd("a", j)))))
            related(cx, "is_zero(a)", r, want, alg, where(t))
            cx.no_panics(s, models=models_of(cx, alg))
        with cx.clause("clone, %s" % lbl):
            s = new()
            alg = algof(s, kind)
            t = s.method("clone", ty(), "std::clone::Clone")
            a = s.ref(s.mv("a", ty(), alg["dim"]))
            r = s.call(t, [a])
            k = kvar(alg)
            cx.equal("clone(a)[k]", s.content(r, k), rd("a", k), [k], models=models_of(cx, alg), where=where(t))
            same(cx, s, a, "a", alg, "operand")
        for tl, ct in (("f64", F64), ("Complex64", CX64)):
            with cx.clause("approx_eq on %s, %s" % (tl, lbl)):
                s = new()
                alg = algof(s, kind)
                t = s.method("approx_eq", ty(ct))
                a, b = s.ref(s.mv("a", ty(ct), alg["dim"])), s.ref(s.mv("b", ty(ct), alg["dim"]))
                p = rd("prec")
                r = s.call(t, [a, b, p])
                j = fresh_var(alg)
                want = bnot(T.mk("ex", (j,), bnot(T.lt(rf("norm", rsub(rd("a", j), rd("b", j))), p))))
                related(cx, "approx_eq(a, b, p)", r, want, alg, where(t), p)
                same(cx, s, a, "a", alg, "left operand")


def related(cx, what, got, want, alg, where_, prec=None):
    """compare truth values on unrelated, equal and nearly equal operands"""
    ms = [m for m in cx.models(models_of(cx, alg)) if m["dim"] <= 4]
    g, w = ite(got, ONE, ZERO), ite(want, ONE, ZERO)
    if prec is not None:                # precisions are positive
        g, w = ite(isz(prec), ZERO, g), ite(isz(prec), ZERO, w)
    cx.equal("%s, unrelated operands" % what, g, w, models=ms, where=where_)
    d = VAR("d", alg["dim"])
    two = any(n.a[0] == "b" for n in T.reads(want))
    if two:
        fam = [("equal operands", "b", lambda *ix: rd("a", *ix), []),
               ("operands that differ at d only", "b", lambda *ix: rite(eq(ix[0], d), rd("b", *ix), rd("a", *ix)), [d]),
               ("right operand zero except at d", "b", lambda *ix: rite(eq(ix[0], d), rd("b", *ix), R0), [d]),
               ("left operand zero except at d", "a", lambda *ix: rite(eq(ix[0], d), rd("a", *ix), R0), [d]),
               ("right operand equal or zero", "b", lambda *ix: rite(eq(and_(ix[0], d), ZERO), rd("a", *ix), R0), [d]),
               ("left operand equal or zero", "a", lambda *ix: rite(eq(and_(ix[0], d), ZERO), rd("b", *ix), R0), [d])]
    else:
        fam = [("zero operand", "a", lambda *ix: R0, []),
               ("operand zero except at d", "a", lambda *ix: rite(eq(ix[0], d), rd("a", *ix), R0), [d])]
    for nm, arr, fn, free in fam:
        rp = lambda t: T.replace_reads(t, lambda n: fn(*n.a[1]) if n.a[0] == arr else None)
        cx.equal("%s, %s" % (what, nm), rp(g), rp(w), free, models=ms, where=where_)
        if prec is not None and two and free:
            # the largest difference equals the precision
            off = rf("norm", rsub(rd("a", d), rd("b", d)))
            eqp = lambda t: rp(T.replace_reads(t, lambda n: off if n.a[0] == "prec" else None))
            cx.equal("%s, %s, by the precision" % (what, nm), eqp(g), eqp(w), free, models=ms, where=where_)
