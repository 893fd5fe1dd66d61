"""C19: matrix-level automorphisms."""
from .common import *
from .. import contracts as K
from .C14 import varr, hmodels, sm, is_p2

EXPLAIN = ("entries of parity_flip, imaginary_flip and reversal are derived from the MIR for matrices of every "
           "power-of-two side (the recursive in-place flip is summarised by induction), compared with the required "
           "entries and, composed with the derived transform, with the transform of the changed coefficients; the "
           "result variant is derived for arbitrary matrix shapes")
RULE = ("parity_flip(m)[i,j] = (-1)^|i^j| m[i,j]; imaginary_flip(M(c)) = M((-1)^|k & odd positions| c); "
        "reversal(M(c)) = M(rev c); Err(InvalidShape) exactly for non-square or non-power-of-two matrices")
FLOOR = 10


def run(cx):
    K.kernels(cx, ("clifft", "clifft_into", "iflip"))
    h = T.SYM("h")
    ms = hmodels(cx)
    bd = {"m": (lambda md: 1 << md["syms"]["h"],) * 2, "a": (lambda md: 1 << (2 * md["syms"]["h"]),)}
    i, j = VAR("i", h), VAR("j", h)
    f = sub(p2(h), ONE)
    for tl, ct in (("a generic division ring", TS), ("Complex64", CX64)):
        for name, want in (
                ("parity_flip", sgn(odd(pc(xor(i, j))), rd("m", i, j))),
                ("imaginary_flip", sgn(odd(acs(xor(i, j), f)), rd("m", xor(i, f), xor(j, f)))),
                ("reversal", sgn(odd(acs(xor(i, j), f)), rd("m", xor(j, f), xor(i, f))))):
            with cx.clause("%s over %s" % (name, tl)):
                s = cx.sess()
                t = s.function("clifft::" + name)
                m, rm = varr(s, "m", (p2(h), p2(h)))
                r = s.call(t, [m], extra=[ct])
                kw = dict(models=ms, bounds=bd, where=where(t))
                if name != "parity_flip":
                    ok, r, e = result_parts(s, r)
                    cx.always("%s succeeds" % name, ok, [], **kw)
                r = s.deep(r)
                if not isinstance(r, Arr) or len(r.shape) != 2:
                    raise Unsupported("%s result" % name)
                for n in (0, 1):
                    cx.equal("%s: length of axis %d" % (name, n), r.shape[n], p2(h), [], **kw)
                cx.equal("%s(m)[i,j]" % name, r.at((i, j)), want, [i, j], **kw)
                cx.equal("operand afterwards", s.I.read(s.st, rm).at((i, j)), rd("m", i, j), [i, j], **kw)
                cx.no_panics(s, models=ms, bounds=bd)
    oddpos = lambda k: and_(k, INT(0xAAAAAAAAAAAAAAAA))
    tri = lambda k: bor(eq(T.rem(pc(k), INT(4)), INT(2)), eq(T.rem(pc(k), INT(4)), INT(3)))
    for name, par in (("parity_flip", lambda k: odd(pc(k))), ("imaginary_flip", lambda k: odd(pc(oddpos(k)))),
                      ("reversal", tri)):
        with cx.clause("%s represents its automorphism" % name):
            s = cx.sess()
            a, _ = varr(s, "a", (p2(T.scale(h, 2)),))
            ok, M, e = result_parts(s, s.call(s.function("clifft::clifft"), [a], extra=[CX64]))
            M = s.deep(M)
            ks = tuple(freshk() for _ in range(2))
            t = s.function("clifft::" + name)
            r = s.call(t, [Vw(s.ref(M), M.shape, ks, ks)], extra=[CX64])
            if name != "parity_flip":
                ok, r, e = result_parts(s, r)
            r = s.deep(r)
            want = T.replace_reads(M.at((i, j)), lambda q: sgn(par(q.a[1][0]), rd("a", *q.a[1]))
                                   if q.a[0] == "a" else None)
            cx.equal("%s(M(a))[i,j]" % name, r.at((i, j)), want, [i, j], models=hmodels(cx, 4), bounds=bd,
                     where=where(t))
    R, C = T.SYM("R"), T.SYM("C")
    sq = band(eq(R, C), is_p2(R))
    for name in ("imaginary_flip", "reversal"):
        with cx.clause("%s accepts exactly square power-of-two matrices" % name):
            s = cx.sess(conf={"shapes": True})
            t = s.function("clifft::" + name)
            m, rm = varr(s, "m", (R, C))
            ok, pay, e = result_parts(s, s.call(t, [m], extra=[CX64]))
            kw = dict(models=sm("R", "C"), where=where(t), bounds={})
            cx.equal("%s succeeds for an R x C matrix" % name, ite(ok, ONE, ZERO), ite(sq, ONE, ZERO), [], **kw)
            if e is not None:
                cx.equal("%s error" % name, e, err_is(s, "InvalidShape"), [], cond=bnot(sq), **kw)
            cx.no_panics(s, models=kw["models"], bounds={})
    with cx.clause("parity_flip of an arbitrary matrix"):
        s = cx.sess()
        t = s.function("clifft::parity_flip")
        m, rm = varr(s, "m", (R, C))
        r = s.deep(s.call(t, [m], extra=[TS]))
        x, y = NVAR("x", R), NVAR("y", C)
        kw = dict(models=sm("R", "C"), where=where(t), bounds={})
        cx.equal("rows", r.shape[0], R, [], **kw)
        cx.equal("columns", r.shape[1], C, [], **kw)
        cx.equal("parity_flip(m)[x,y]", r.at((x, y)), sgn(odd(pc(xor(x, y))), rd("m", x, y)), [x, y], cap=16, **kw)
        cx.no_panics(s, models=kw["models"], bounds={})
