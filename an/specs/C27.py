"""C27: quaternions and division."""
from .common import *

EXPLAIN = ("the unit constructors, products of units, conj and norm of quaternions, and every spelling of the quotient "
           "for each storage over the division algebras are derived from the MIR and compared with the stated values")
RULE = ("i*i = j*j = k*k = i*j*k = -1, i*j = k, j*k = i, k*i = j up to the stated relations; conj negates components "
        "1..3; norm = sqrt(sum |q_n|^2); (a/b)[k] = sum_j +-a[j] conj(b)[k^j] / (b conj b)[0]")
FLOOR = 20


def division_models(cx):
    out = []
    for d in (1, 2):
        for i in range(3 if cx.tier == "quick" else 12):
            out.append({"syms": {"m": d, "s": 0}, "masks": {"R": 0, "I": (1 << d) - 1}, "dim": d,
                        "seed": "div%d.%d.%d" % (cx.seed, d, i)})
    return out


def run(cx):
    qm = qmodels(cx)
    Q = mvty("q", TS, QAL)
    k = VAR("k", INT(2))

    def new():
        s = cx.sess(alg=None)
        s.I.mapdim = INT(2)
        return s
    scal = lambda x: rite(eq(k, ZERO), x, R0)
    for what, names in (("i*i", "ii"), ("j*j", "jj"), ("k*k", "kk"), ("i*j*k", "ijk")):
        with cx.clause("%s = -1" % what):
            s = new()
            mulm = s.method("mul", Q, "std::ops::Mul", [Q])
            r = None
            for n in names:
                u = s.call(s.method(n, Q), [])
                r = u if r is None else s.call(mulm, [r, u])
            cx.equal(what, s.content(r, k), scal(rc(-1)), [k], models=qm, where=where(s.method(names[-1], Q)))
            cx.no_panics(s, models=qm)
    for n in "ijk":
        with cx.clause("unit %s is a unit without scalar part" % n):
            s = new()
            t = s.method(n, Q)
            u = s.call(t, [])
            cx.equal("scalar part of %s" % n, s.content(u, ZERO), R0, [], models=qm, where=where(t))
            c = s.content(u, k)
            cx.equal("components of %s are 0, 1 or -1" % n, rmul(c, rmul(c, c)), c, [k], models=qm, where=where(t))
    with cx.clause("conj"):
        s = new()
        t = s.method("conj", Q)
        a = s.ref(s.mv("a", Q, INT(2)))
        r = s.call(t, [a])
        cx.equal("conj(a)[k]", s.content(r, k), rite(eq(k, ZERO), rd("a", k), rneg(rd("a", k))), [k], models=qm,
                 where=where(t))
        same(cx, s, a, "a", QALGD, "operand")
        cx.no_panics(s, models=qm)
    for tl, ct in (("f64", F64), ("f32", F32), ("Complex64", CX64), ("Complex32", CX32)):
        with cx.clause("norm over %s" % tl):
            s = new()
            q = mvty("q", ct, QAL)
            t = s.method("norm", q, "Norm")
            a = s.ref(s.mv("a", q, INT(2)))
            r = s.call(t, [a])
            j = VAR(T.fresh("j"), INT(2))
            real = ("a",) if ct[0] == "prim" else ()
            sq = rsum((j,), TRUE, rmul(rf("norm", rd("a", j)), rf("norm", rd("a", j))))
            cx.equal("norm(a)", r, rf("sqrt", sq), [], models=qm, where=where(t), real=real)
            same(cx, s, a, "a", QALGD, "operand", real=real)
            cx.no_panics(s, models=qm)
    for kind, lbl, new_, ty in each(cx):
        q = kind == "q"
        for tl, ct in (("a generic division ring", TS), ("f64", F64)):
            M = ty(ct)
            for sp, lt_, rt in spellings(M):
                with cx.clause("quotient %s over %s, %s" % (sp, tl, lbl)):
                    s = new_()
                    alg = algof(s, kind)
                    t = s.method("div", lt_, "std::ops::Div", [rt])
                    a, b = operand(s, s.mv("a", M, alg["dim"]), lt_), operand(s, s.mv("b", M, alg["dim"]), rt)
                    r = s.call(t, [a, b])
                    kk = kvar(alg)
                    ms = qm if q else division_models(cx)
                    cj = lambda x: sgn(bxor(odd(pc(x)), bor(eq(T.rem(pc(x), INT(4)), INT(2)),
                                                          eq(T.rem(pc(x), INT(4)), INT(3)))), rd("b", x))
                    y = fresh_var(alg)
                    N = rsum((y,), bnot(geo_null(y, y, alg)), sgn(geo_par(y, y, alg), rmul(rd("b", y), cj(y))))
                    x = fresh_var(alg)
                    z = xor(x, kk)
                    want = rsum((x,), bnot(geo_null(x, z, alg)),
                                sgn(geo_par(x, z, alg), rmul(rd("a", x), rmul(cj(z), rinv(N)))))
                    real = ("a", "b") if ct is F64 else ()
                    cx.equal("(a/b)[k]", s.content(r, kk), want, [kk], models=ms, where=where(t), real=real,
                             nc=ct is TS)
                    if lt_[0] == "ref":
                        cx.equal("dividend afterwards", s.content(a, kk), rd("a", kk), [kk], models=ms, real=real)
                    if rt[0] == "ref":
                        cx.equal("divisor afterwards", s.content(b, kk), rd("b", kk), [kk], models=ms, real=real)
                    cx.no_panics(s, models=ms)

