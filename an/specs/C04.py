"""C04: involutions."""
from .common import *

EXPLAIN = ("the coefficients of flip, flip_subspace, rev, revc, revm and revcm are derived from the MIR for every "
           "storage as closed forms in the blade index and compared with the bladewise definition")
RULE = "flip/flip_subspace/rev/revc negate exactly the blades named by the property; revm, revcm divide by (c)mag2"
FLOOR = 15


def rev_par(k):
    """grade 2 or 3 modulo 4"""
    return odd(T.div(pc(k), INT(2)))


def geo_sq(i, alg):
    return geo_null(i, i, alg), geo_par(i, i, alg)


def mag2(alg, conj=False):
    i = fresh_var(alg, "i")
    n, p = geo_sq(i, alg)
    x = rd("a", i)
    y = rf("conj", x) if conj else x
    return rsum((i,), bnot(n), sgn(bxor(p, rev_par(i)), rmul(y, x)))


def run(cx):
    contract_ac_sign(cx)
    for kind, lbl, new, ty in each(cx):
        def go(name, want, t=TS, args=lambda s: [], free=lambda s: [], nc=True, funs=None, panics=True):
            with cx.clause("%s, %s" % (name, lbl)):
                s = new()
                alg = algof(s, kind)
                tgt = s.method(name, ty(t))
                a = s.ref(s.mv("a", ty(t), alg["dim"]))
                extra = args(s)
                r = s.call(tgt, [a] + extra)
                k = kvar(alg)
                cx.equal("%s(a)[k]" % name, s.content(r, k), want(k, alg, *extra), [k] + extra,
                         models=models_of(cx, alg), where=where(tgt), nc=nc)
                same(cx, s, a, "a", alg, "operand", where=where(tgt))
                if panics:
                    cx.no_panics(s, models=models_of(cx, alg))
        go("flip", lambda k, alg: sgn(odd(pc(k)), rd("a", k)))
        go("flip_subspace", lambda k, alg, m: sgn(odd(pc(and_(k, m))), rd("a", k)),
           args=lambda s: [VAR("mask", add(algof(s, kind)["dim"], ONE))])
        go("rev", lambda k, alg: sgn(rev_par(k), rd("a", k)))
        go("revc", lambda k, alg: sgn(rev_par(k), rf("conj", rd("a", k))), t=C64, nc=False)
        go("revm", lambda k, alg: rmul(sgn(rev_par(k), rd("a", k)), rinv(mag2(alg))))
        go("revcm", lambda k, alg: rmul(sgn(rev_par(k), rf("conj", rd("a", k))), rinv(mag2(alg, True))), t=C64,
           nc=False)
