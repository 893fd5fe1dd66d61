"""C06: scalar products and component extraction."""
from .common import *
from .C04 import rev_par, mag2

EXPLAIN = ("vdot, vsdot, mag2, cmag2, scalar_part and extract_vector are derived from the MIR for every storage as "
           "closed-form sums and compared with the scalar part of the corresponding product")
RULE = ("vdot = sum sign(i,i) a[i] b[i]; vsdot = sum a[i] b[i]; mag2 = sum sign(i,i) rev(a)[i] a[i]; cmag2 likewise "
        "with conjugated left factor; scalar_part = a[0]; extract_vector[n] = a[2^n]")
FLOOR = 18


def dot(alg, plain):
    i = fresh_var(alg, "i")
    v = rmul(rd("a", i), rd("b", i))
    if plain:
        return rsum((i,), TRUE, v)
    return rsum((i,), bnot(geo_null(i, i, alg)), sgn(geo_par(i, i, alg), v))


def run(cx):
    contract_ac_sign(cx)
    for kind, lbl, new, ty in each(cx):
        def go(name, want, t=TS, two=False, nc=True):
            with cx.clause("%s, %s" % (name, lbl)):
                s = new()
                alg = algof(s, kind)
                tgt = s.method(name, ty(t))
                a = s.ref(s.mv("a", ty(t), alg["dim"]))
                args = [a] + ([s.ref(s.mv("b", ty(t), alg["dim"]))] if two else [])
                r = s.deep(s.call(tgt, args))
                cx.equal("%s" % name, r, want(alg), [], models=models_of(cx, alg), where=where(tgt), nc=nc)
                cx.no_panics(s, models=models_of(cx, alg))
        go("vdot", lambda alg: dot(alg, False), two=True)
        go("vsdot", lambda alg: dot(alg, True), two=True)
        go("mag2", lambda alg: mag2(alg))
        go("cmag2", lambda alg: mag2(alg, True), t=C64, nc=False)
        go("scalar_part", lambda alg: rd("a", ZERO))
        with cx.clause("extract_vector, %s" % lbl):
            s = new()
            alg = algof(s, kind)
            tgt = s.method("extract_vector", ty())
            r = s.deep(s.call(tgt, [s.ref(s.mv("a", ty(), alg["dim"]))]))
            if not isinstance(r, Arr):
                raise Unsupported("extract_vector returns %s" % type(r).__name__)
            n = NVAR("n", alg["dim"])
            cx.equal("extract_vector(a)[n]", r.at((n,)), rd("a", p2(n)), [n], models=models_of(cx, alg),
                     where=where(tgt))
            cx.equal("length of extract_vector(a)", r.shape[0], alg["dim"], [], models=models_of(cx, alg),
                     where=where(tgt))
            cx.no_panics(s, models=models_of(cx, alg))
