"""C25: blade labels and blade index enumeration."""
from .common import *

EXPLAIN = ("the text built by blade_label and blade_label_rev is derived from the MIR as an ordered concatenation over "
           "the generators with arbitrary axis names, and compared with the '^'-joined list of the names of the set "
           "bits in descending and ascending order; the sequence produced by index_iter is derived as length and "
           "n-th item")
RULE = ("blade_label(x) == join('^', axis_name(i) for i = dim-1..0 with bit i of x set); blade_label_rev the same with "
        "i ascending; index_iter has 2^dim items and item n is n")
FLOOR = 6


def joined(x, dim, down):
    """the names of the generators of blade x joined by '^'"""
    i, j = NVAR(fresh_("i"), dim), NVAR(fresh_("j"), dim)
    has = lambda n: odd(T.shr(x, n))
    before = T.mk("ex", (j,), band(has(j), lt(i, j) if down else lt(j, i)))
    return T.sfor([i], has(i), [T.sub(ZERO, i) if down else i],
                  T.scat(T.ite(before, T.mk("str", "^"), T.mk("str", "")), T.mk("sf", "axis", i)))


fresh_ = T.fresh


def run(cx):
    ms = [m for m in cx.models() if m["dim"] <= 9]
    for name, down in (("blade_label", True), ("blade_label_rev", False)):
        with cx.clause(name):
            s = cx.sess()
            t = s.method(name, AL, "algebra::ClAlgebra")
            d = s.alg["dim"]
            x = VAR("x", d)
            r = s.deep(s.call(t, [x]))
            cx.equal("%s(x)" % name, r, joined(x, d, down), [x], models=ms, where=where(t), budget=10 ** 9)
            cx.no_panics(s, models=dim_models(cx))
        with cx.clause("%s of the scalar blade is empty" % name):
            s = cx.sess()
            t = s.method(name, AL, "algebra::ClAlgebra")
            r = s.deep(s.call(t, [ZERO]))
            cx.equal("%s(0)" % name, r, T.mk("str", ""), [], models=ms, where=where(t))
    with cx.clause("index_iter"):
        s = cx.sess()
        t = s.method("index_iter", AL, "algebra::ClAlgebra")
        r = s.call(t, [])
        from ..models import as_iter, count, nth
        it = as_iter(s.I, s.st, r)
        n = count(s.I, s.st, it)
        if n is None:
            raise Unsupported("number of blade indices")
        d = s.alg["dim"]
        cx.equal("number of indices", n, p2(d), [], models=dim_models(cx), where=where(t))
        k = VAR("k", d)
        cx.equal("item k", s.deep(nth(s.I, s.st, it, k)), k, [k], models=dim_models(cx), where=where(t), budget=10 ** 9)
        cx.no_panics(s, models=dim_models(cx))
    with cx.clause("labels distinguish blades"):
        # the names used for different generators are different occurrences of axis_name
        s = cx.sess()
        t = s.method("blade_label", AL, "algebra::ClAlgebra")
        d = s.alg["dim"]
        n = NVAR("n", d)
        r = s.deep(s.call(t, [p2(n)]))
        cx.equal("blade_label(2^n)", r, T.mk("sf", "axis", n), [n], models=ms, where=where(t), budget=10 ** 9)
