"""C17: flip, rev, trace and magnitude of fast representations."""
from .fftcommon import *

EXPLAIN = ("entries of flip and rev, and the values of trace, ntrace and mag2 are derived from the MIR for an arbitrary "
           "signature; they are compared with the required formulas and, composed with the derived fft, with the "
           "transform of the flipped and reversed multivector; the half-spin pair is compared row by row")
RULE = ("flip(f)[w,i,j] = (-1)^(|w|+|i^j|) f[w,i,j]; rev(fft(a)) = fft(rev(a)); trace = sum_i f[0,i,i]; "
        "ntrace = trace / side; mag2 = ntrace(rev(f) f); half-spin = even/odd parity rows and columns in order")
FLOOR = 12


def tri(n):
    """parity of n(n-1)/2"""
    m = T.rem(n, INT(4))
    return bor(eq(m, INT(2)), eq(m, INT(3)))


def rev_want(alg, name, w, i, j):
    f = sub(p2(alg["H"]), ONE)
    par = bxor(tri(pc(w)), band(odd(pc(w)), odd(pc(xor(i, j)))))
    return sgn(bxor(par, odd(acs(xor(i, j), f))), rd(name, w, xor(j, f), xor(i, f)))


def trace_want(alg, name):
    i = VAR(T.fresh("i"), alg["H"])
    return rsum((i,), TRUE, rd(name, ZERO, i, i))


def run(cx):
    K.kernels(cx, ("clifft", "clifft_into", "iflip", "wmul"))
    F = fty()
    for par, pl in PAR:
        alg = alg_of(par)
        ms = fmodels(cx, par) + wide(cx, par)
        bd = fbounds(par)

        def new():
            return cx.sess(alg=alg)
        ix = ix3(alg)
        w, i, j = ix
        for name, want in (("flip", sgn(odd(add(pc(w), pc(xor(i, j)))), rd("f", *ix))),
                           ("rev", rev_want(alg, "f", *ix))):
            with cx.clause("%s, %s non-null dimension" % (name, pl)):
                s = new()
                t = s.method(name, F)
                f = s.ref(frepr(s, "f", alg))
                r = s.call(t, [f])
                kw = dict(models=ms, bounds=bd, where=where(t))
                check_shape(cx, s, r, alg, name, **kw)
                cx.equal("%s(f)[w,i,j]" % name, entry(s, r, ix), want, ix, **kw)
                cx.equal("operand afterwards", entry(s, f, ix), rd("f", *ix), ix, **kw)
                cx.no_panics(s, models=ms, bounds=bd)
            with cx.clause("%s represents the multivector's %s, %s non-null dimension" % (name, name, pl)):
                ty = mvty("array", CX64)
                s = new()
                f = s.call(s.method("fft", ty), [s.ref(s.mv("a", ty))])
                t = s.method(name, F)
                left = s.call(t, [s.ref(f)])
                s2 = new()
                b = s2.call(s2.method(name, ty), [s2.ref(s2.mv("a", ty))])
                right = s2.call(s2.method("fft", ty), [s2.ref(b)])
                cx.equal("%s(fft(a))[w,i,j] and fft(%s(a))[w,i,j]" % (name, name), entry(s, left, ix),
                         entry(s2, right, ix), ix, models=ms, bounds=bd, where=where(t))
        for name, want in (("trace", trace_want(alg, "f")),
                           ("ntrace", rmul(T.rf("r2inv", alg["H"]), trace_want(alg, "f")))):
            with cx.clause("%s, %s non-null dimension" % (name, pl)):
                s = new()
                t = s.method(name, F)
                f = s.ref(frepr(s, "f", alg))
                r = s.call(t, [f])
                cx.equal("%s(f)" % name, r, want, [], models=ms, bounds=bd, where=where(t))
                cx.no_panics(s, models=ms, bounds=bd)
        with cx.clause("mag2, %s non-null dimension" % pl):
            s = new()
            t = s.method("mag2", F)
            r = s.call(t, [s.ref(frepr(s, "f", alg))])
            a, b = VAR(T.fresh("p"), alg["H"]), VAR(T.fresh("q"), alg["H"])
            want = rmul(T.rf("r2inv", alg["H"]),
                        rsum((a, b), TRUE, rmul(rev_want(alg, "f", ZERO, a, b), rd("f", ZERO, b, a))))
            cx.equal("mag2(f)", r, want, [], models=ms, bounds=bd, where=where(t))
            cx.no_panics(s, models=ms, bounds=bd)
        halfspin(cx, alg, par, pl)


def halfspin(cx, alg, par, pl):
    nd = dict(alg, s=ZERO, dim=alg["m"], proj_mask=ZERO)
    bd = fbounds(par)
    ms = [m for m in fmodels(cx, par, 7, null=False) if m["dim"] >= 1]
    with cx.clause("half-spin pair, %s non-null dimension" % pl):
        s = cx.sess(alg=nd)
        t = s.method("into_half_spin_repr", fty())
        r = s.deep(s.call(t, [frepr(s, "f", nd)]))
        if not (isinstance(r, St) and len(r.f) == 2):
            raise Unsupported("half-spin pair is %s" % type(r).__name__)
        half = sub(nd["H"], ONE)
        i, j = VAR("i", half), VAR("j", half)
        kw = dict(models=ms, bounds=bd, where=where(t))
        for n, lbl in ((0, "even"), (1, "odd")):
            m = arr_of(s, r.f[n])
            for ax in (0, 1):
                cx.equal("%s half: length of axis %d" % (lbl, ax), m.shape[ax], p2(half), [], **kw)
            # the x-th number of the wanted parity is 2x or 2x+1
            nth = lambda x: add(T.scale(x, 2), ite(odd(pc(x)), INT(1 - n), INT(n)))
            cx.equal("%s half[i,j]" % lbl, m.at((i, j)), rd("f", ZERO, nth(i), nth(j)), [i, j], **kw)
        cx.no_panics(s, models=ms, bounds=bd)
