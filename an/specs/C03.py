"""C03: wedge and meet."""
from .common import *
from ..contracts import kernels

EXPLAIN = ("the coefficient of blade k of wedge and meet (both algorithms of the dense storage, the sparse storage and "
           "the storage-generic implementations) is derived from the MIR and compared with the definition; the "
           "recursive wedge kernel is covered by a summary that is itself checked against its body by induction on "
           "the size")
RULE = "wedge(a,b)[k] == sum over i subset of k of wedge_sign(i, k^i) a[i] b[k^i]; meet = undual(wedge(dual a, dual b))"
FLOOR = 6


def wedge(k, alg, fa, fb):
    i = fresh_var(alg, "i")
    j = xor(i, k)
    return rsum((i,), eq(and_(i, not_(k)), ZERO), sgn(odd(acs(i, j)), rmul(fa(i), fb(j))))


def dualf(f, alg):
    """coefficients of the dual of f"""
    return lambda x: sgn(odd(acs(x, comp(x, alg))), f(comp(x, alg)))


def meet(k, alg, fa, fb):
    # undual: coefficient at k comes from blade comp(k), sign wedge(comp k, k)
    c = comp(k, alg)
    return sgn(odd(acs(c, k)), wedge(c, alg, dualf(fa, alg), dualf(fb, alg)))


def run(cx):
    contract_ac_sign(cx)
    kernels(cx, ("wedge",))
    fa, fb = (lambda x: rd("a", x)), (lambda x: rd("b", x))
    for kind, lbl, new, ty in each(cx, ("array", "sparse")):
        for name, want in (("wedge", wedge), ("meet", meet)):
            with cx.clause("%s, %s" % (name, lbl)):
                s = new()
                alg = algof(s, kind)
                t = s.method(name, ty(), "types::WedgeProduct")
                a, b = s.ref(s.mv("a", ty())), s.ref(s.mv("b", ty()))
                r = s.call(t, [a, b])
                k = kvar(alg)
                cx.equal("%s(a, b)[k]" % name, s.content(r, k), want(k, alg, fa, fb), [k], where=where(t), nc=True)
                same(cx, s, a, "a", alg, "left operand", where=where(t))
                same(cx, s, b, "b", alg, "right operand", where=where(t))
                cx.no_panics(s)
    for kind, lbl, new, ty in each(cx):
        for name, want in (("naive_wedge_impl", wedge), ("naive_meet_impl", meet)):
            with cx.clause("%s, %s" % (name, lbl)):
                s = new()
                alg = algof(s, kind)
                t = s.method(name, ty())
                a, b = s.ref(s.mv("a", ty(), alg["dim"])), s.ref(s.mv("b", ty(), alg["dim"]))
                r = s.call(t, [a, b])
                k = kvar(alg)
                cx.equal("%s(a, b)[k]" % name, s.content(r, k), want(k, alg, fa, fb), [k], models=models_of(cx, alg),
                         where=where(t), nc=True)
                cx.no_panics(s, models=models_of(cx, alg))
