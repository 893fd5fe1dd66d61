"""C24: Display, LowerExp and UpperExp of multivectors."""
from .. import strs
from .common import *

EXPLAIN = ("the text written to the formatter is derived from the MIR of the three formatting traits for every storage, "
           "arbitrary coefficients and both states of the alternate and sign flags, as an ordered concatenation over "
           "the stored coefficients; coefficient renderings and blade labels are opaque names of their arguments")
RULE = ("text == join(' + ', ['(' if sign] rendering(c) [')' if sign] [' ' label(k)]) over the non-zero coefficients in "
        "enumeration order, rendering(0) when there are none; sign == explicit sign requested or rendering(c) contains "
        "'+' or '-'; alternate: c is the reversed coefficient and label the reversed label")
FLOOR = 9

S = lambda x: T.mk("str", x)
ALT, PLUS = T.eq(T.SYM("alt"), ONE), T.eq(T.SYM("plus"), ONE)
token = lambda name: lambda M, i: "" if i == 0 else "\x02%s:%d\x03" % (name, i)
NAMES = {"s:label": token("label"), "s:label_rev": token("label_rev")}     # only the scalar blade has an empty label
TRAITS = ("Display", "LowerExp", "UpperExp")


def labels(s):
    def lab(name):
        def f(I, st, f_, targs, args):
            return T.mk("sf", name, I.deep(st, args[0]))
        return f
    s.I.overrides["algebra::ClAlgebra::blade_label"] = lab("label")
    s.I.overrides["algebra::ClAlgebra::blade_label_rev"] = lab("label_rev")


def wanted(tr, val, dim):
    k, j = VAR(T.fresh("k"), dim), VAR(T.fresh("j"), dim)
    nz = lambda n: T.bnot(T.isz(val(n)))
    c = T.rite(ALT, sgn(revodd(k), val(k)), val(k))
    fmt = lambda x, fl: T.mk("sf", "fmt", S(tr), x, S(fl))
    sign = T.bor(PLUS, T.mk("ba", "str_contains", fmt(c, "plain"), S("+-")))
    r = fmt(c, "flags of the formatter")
    lab = T.ite(ALT, T.mk("sf", "label_rev", k), T.mk("sf", "label", k))
    body = T.scat(T.ite(T.mk("ex", (j,), band(nz(j), lt(j, k))), S(" + "), S("")),
                  T.ite(sign, T.scat(S("("), r, S(")")), r),
                  T.ite(T.eq(k, ZERO), S(""), T.scat(S(" "), lab)))
    i = VAR(T.fresh("i"), dim)
    none = T.bnot(T.mk("ex", (i,), nz(i)))
    return T.scat(T.sfor([k], nz(k), [k], body), T.ite(none, fmt(T.R0, "flags of the formatter"), S("")))


def revodd(k):
    """reversal changes the sign of the blade"""
    n = T.pc(k)
    return odd(T.div(T.mul(n, T.sub(n, ONE)), INT(2)))


def run(cx):
    for kind, lbl, new, ty in each(cx):
        base = qmodels(cx) if kind == "q" else cx.models()
        ms = [dict(m, syms=dict(m["syms"], alt=a, plus=p), seed="%s.%d%d" % (m["seed"], a, p))
              for m in base if m["dim"] <= (4 if cx.tier == "quick" else 6) for a in (0, 1) for p in (0, 1)]
        for tr in TRAITS:
            with cx.clause("%s, %s" % (tr, lbl)):
                s = new()
                labels(s)
                t = s.method("fmt", ty(), "std::fmt::" + tr)
                f = s.ref(strs.formatter(ALT, PLUS))
                d = INT(2) if kind == "q" else s.alg["dim"]
                r = s.call(t, [s.ref(s.mv("a", ty(), d)), f])
                ok, _, _ = result_parts(s, s.deep(r))
                cx.always("%s succeeds" % tr, ok, [], models=ms, funs=NAMES)
                cx.equal("text of %s" % tr, s.deep(f).f[0], wanted(tr, lambda n: rd("a", n), d), [], models=ms,
                         where=where(t), funs=NAMES)
                cx.no_panics(s, models=ms, funs=NAMES)
