"""C02: geometric product."""
from .common import *

EXPLAIN = ("the coefficient of blade k of every spelling of a*b (dense, sparse and quaternion storage) is derived from "
           "the MIR as a closed-form sum over the operand coefficients and compared with the bilinear extension of "
           "the blade products")
RULE = "(a*b)[k] == sum over i of geo_sign(i, i^k) a[i] b[i^k], factors in that order"
FLOOR = 14


def geo(k, alg, fa=None, fb=None):
    i = fresh_var(alg, "i")
    j = xor(i, k)
    fa = fa or (lambda x: rd("a", x))
    fb = fb or (lambda x: rd("b", x))
    return rsum((i,), bnot(geo_null(i, j, alg)), sgn(geo_par(i, j, alg), rmul(fa(i), fb(j))))


def run(cx):
    contract_ac_sign(cx)
    for kind, lbl, new, ty in each(cx):
        for sp, lt_, rt in spellings(ty()):
            with cx.clause("a*b %s, %s" % (sp, lbl)):
                s = new()
                alg = algof(s, kind)
                t = s.method("mul", lt_, "std::ops::Mul", [rt])
                a, b = s.mv("a", ty(), alg["dim"]), s.mv("b", ty(), alg["dim"])
                r = s.call(t, [operand(s, a, lt_), operand(s, b, rt)])
                k = kvar(alg)
                cx.equal("(a*b)[k]", s.content(r, k), geo(k, alg), [k], models=models_of(cx, alg),
                         where=where(t), nc=True)
                cx.no_panics(s, models=models_of(cx, alg))
        with cx.clause("naive_mul_impl, %s" % lbl):
            s = new()
            alg = algof(s, kind)
            t = s.method("naive_mul_impl", ty())
            a, b = s.mv("a", ty(), alg["dim"]), s.mv("b", ty(), alg["dim"])
            r = s.call(t, [s.ref(a), s.ref(b)])
            k = kvar(alg)
            cx.equal("naive_mul_impl(a, b)[k]", s.content(r, k), geo(k, alg), [k], models=models_of(cx, alg),
                     where=where(t), nc=True)
