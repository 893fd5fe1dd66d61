"""C05: duals."""
from .common import *

EXPLAIN = ("the coefficients of dual and undual and of both compositions are derived from the MIR for every storage "
           "and compared with the signed blade complement, respectively with the operand")
RULE = ("dual(a)[k] = sign(k, ~k) a[~k] with sign(d, b) making d^b = +I; undual(a)[k] = sign(~k, k) a[~k]; "
        "undual(dual(a)) = dual(undual(a)) = a")
FLOOR = 11


def run(cx):
    contract_ac_sign(cx)
    for kind, lbl, new, ty in each(cx):
        wants = {"dual": lambda k, alg: sgn(odd(acs(k, comp(k, alg))), rd("a", comp(k, alg))),
                 "undual": lambda k, alg: sgn(odd(acs(comp(k, alg), k)), rd("a", comp(k, alg)))}
        for name in ("dual", "undual"):
            with cx.clause("%s, %s" % (name, lbl)):
                s = new()
                alg = algof(s, kind)
                tgt = s.method(name, ty())
                a = s.ref(s.mv("a", ty(), alg["dim"]))
                r = s.call(tgt, [a])
                k = kvar(alg)
                cx.equal("%s(a)[k]" % name, s.content(r, k), wants[name](k, alg), [k], models=models_of(cx, alg),
                         where=where(tgt), nc=True)
                same(cx, s, a, "a", alg, "operand", where=where(tgt))
                cx.no_panics(s, models=models_of(cx, alg))
        for f, g in (("dual", "undual"), ("undual", "dual")):
            with cx.clause("%s after %s, %s" % (g, f, lbl)):
                s = new()
                alg = algof(s, kind)
                t1, t2 = s.method(f, ty()), s.method(g, ty())
                r = s.call(t2, [s.ref(s.call(t1, [s.ref(s.mv("a", ty(), alg["dim"]))]))])
                k = kvar(alg)
                cx.equal("%s(%s(a))[k]" % (g, f), s.content(r, k), rd("a", k), [k], models=models_of(cx, alg),
                         where=where(t2), nc=True)
