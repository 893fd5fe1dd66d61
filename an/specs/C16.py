"""C16: arithmetic of fast representations."""
from .fftcommon import *

EXPLAIN = ("entries and shape of every spelling of +, -, unary -, *, scalar * and / on fast representations, and of "
           "zero and one, are derived from the MIR for an arbitrary signature; the recursive product kernel is "
           "summarised by a closed form established by induction on the number of null generators")
RULE = ("(f*g)[w] = sum over u|v=w disjoint of (-1)^acs(u,v) alpha^|v|(f[u]) g[v]; other operations entrywise; "
        "one = identity at null index 0; operands unchanged")
FLOOR = 40


def mul_want(alg, w, i, j):
    u, k = VAR(T.fresh("u"), alg["s"]), VAR(T.fresh("k"), alg["H"])
    v = xor(u, w)
    par = bxor(odd(acs(u, v)), band(odd(pc(v)), odd(pc(xor(i, k)))))
    return rsum((u, k), eq(and_(u, not_(w)), ZERO), sgn(par, rmul(rd("f", u, i, k), rd("g", v, k, j))))


def run(cx):
    K.kernels(cx, ("wmul",))
    x = rd("x")
    F = fty()
    for par, pl in PAR:
        alg = alg_of(par)
        ms = fmodels(cx, par) + wide(cx, par)
        bd = fbounds(par)

        def new():
            return cx.sess(alg=alg)
        for tr, name, want in (("Add", "add", lambda *ix: radd(rd("f", *ix), rd("g", *ix))),
                               ("Sub", "sub", lambda *ix: rsub(rd("f", *ix), rd("g", *ix))),
                               ("Mul", "mul", lambda *ix: mul_want(alg, *ix))):
            for sp, lt_, rt in spellings(F):
                with cx.clause("%s %s, %s non-null dimension" % (name, sp, pl)):
                    s = new()
                    t = s.method(name, lt_, "std::ops::" + tr, [rt])
                    f, g = operand(s, frepr(s, "f", alg), lt_), operand(s, frepr(s, "g", alg), rt)
                    r = s.call(t, [f, g])
                    kw = dict(models=ms, bounds=bd, where=where(t))
                    check_shape(cx, s, r, alg, name, **kw)
                    ix = ix3(alg)
                    cx.equal("%s(f, g)[w,i,j]" % name, entry(s, r, ix), want(*ix), ix, **kw)
                    for v, n, ty in ((f, "f", lt_), (g, "g", rt)):
                        if ty[0] == "ref":
                            cx.equal("operand %s afterwards" % n, entry(s, v, ix), rd(n, *ix), ix, **kw)
                    cx.no_panics(s, models=ms, bounds=bd)
        for sp, lt_ in (("value", F), ("ref", ("ref", F, False))):
            with cx.clause("neg %s, %s non-null dimension" % (sp, pl)):
                s = new()
                t = s.method("neg", lt_, "std::ops::Neg")
                f = operand(s, frepr(s, "f", alg), lt_)
                r = s.call(t, [f])
                kw = dict(models=ms, bounds=bd, where=where(t))
                check_shape(cx, s, r, alg, "neg", **kw)
                ix = ix3(alg)
                cx.equal("(-f)[w,i,j]", entry(s, r, ix), rneg(rd("f", *ix)), ix, **kw)
                cx.no_panics(s, models=ms, bounds=bd)
        for tl, ct in (("Complex64", CX64), ("f64", F64)):
            for tr, name in (("Mul", "mul"), ("Div", "div")):
                for sp, lt_, rt in spellings(F, ct):
                    with cx.clause("%s by %s %s, %s non-null dimension" % (name, tl, sp, pl)):
                        s = new()
                        t = s.method(name, lt_, "std::ops::" + tr, [rt])
                        f = operand(s, frepr(s, "f", alg), lt_)
                        r = s.call(t, [f, operand(s, x, rt)])
                        kw = dict(models=ms, bounds=bd, where=where(t), real=("x",) if ct is F64 else ())
                        check_shape(cx, s, r, alg, name, **kw)
                        ix = ix3(alg)
                        cx.equal("%s(f, x)[w,i,j]" % name, entry(s, r, ix),
                                 rmul(rd("f", *ix), x if name == "mul" else rinv(x)), ix,
                                 cond=TRUE if name == "mul" else bnot(isz(x)), **kw)
                        if lt_[0] == "ref":
                            cx.equal("operand f afterwards", entry(s, f, ix), rd("f", *ix), ix, **kw)
        for name, tr in (("zero", "num::Zero"), ("one", "num::One")):
            with cx.clause("%s, %s non-null dimension" % (name, pl)):
                s = new()
                t = s.method(name, F, tr)
                r = s.call(t, [])
                kw = dict(models=ms, bounds=bd, where=where(t))
                check_shape(cx, s, r, alg, name, **kw)
                ix = ix3(alg)
                w = R0 if name == "zero" else rite(band(eq(ix[0], ZERO), eq(ix[1], ix[2])), R1, R0)
                cx.equal("%s()[w,i,j]" % name, entry(s, r, ix), w, ix, **kw)
                cx.no_panics(s, models=ms, bounds=bd)
        with cx.clause("product of representations represents the product, %s non-null dimension" % pl):
            products(cx, alg, par, bd)


def products(cx, alg, par, bd):
    """fft(a) * fft(b) == fft(a * b), all three derived from the source, on blades"""
    s = cx.sess(alg=alg)
    ty = mvty("array", CX64)
    fft = s.method("fft", ty)
    fa = s.call(fft, [s.ref(s.mv("a", ty))])
    fb = s.call(fft, [s.ref(s.mv("b", ty))])
    t = s.method("mul", ("ref", fty(), False), "std::ops::Mul", [("ref", fty(), False)])
    fab = s.call(t, [s.ref(fa), s.ref(fb)])
    s2 = cx.sess(alg=alg)
    tm = s2.method("mul", ("ref", ty, False), "std::ops::Mul", [("ref", ty, False)])
    ab = s2.call(tm, [s2.ref(s2.mv("a", ty)), s2.ref(s2.mv("b", ty))])
    fm = s2.call(s2.method("fft", ty), [s2.ref(ab)])
    x, y = VAR("x", alg["dim"]), VAR("y", alg["dim"])

    def blades(t_):
        return T.replace_reads(t_, lambda n: rite(eq(n.a[1][0], x if n.a[0] == "a" else y), R1, R0)
                               if n.a[0] in ("a", "b") else None)
    ix = ix3(alg)
    cx.equal("(fft(x) * fft(y))[w,i,j]", blades(entry(s, fab, ix)), blades(entry(s2, fm, ix)), [x, y] + ix,
             models=fmodels(cx, par, 4 if par else 3, 1, 2), bounds=bd, where=where(t),
             cap=400 if cx.tier == "quick" else 4000, budget=10 ** 7)
