"""C14: matrix transform."""
from .common import *
from .. import contracts as K

EXPLAIN = ("the recursive transforms are summarised by closed forms established by induction on the size; the entries "
           "of the public transforms are derived from the MIR for every even and odd dimension, compared with the "
           "required matrices, and the derived matrices of blades are multiplied and compared with the signed product "
           "blade; the result variant is derived for arrays of arbitrary length and shape")
RULE = ("clifft(c)[i,j] = sum_h i^|h| (-1)^(|h&i| + acs(i^j, j)) c[interleave(h, h^i^j)]; M(x)M(y) = sign(x,y) M(x^y); "
        "iclifft inverts it; Ok exactly for power-of-two lengths, square power-of-two matrices and matching dest")
FLOOR = 14


def clifft_want(h, fc, i, j):
    x = VAR(T.fresh("h"), h)
    par = bxor(odd(pc(and_(x, i))), odd(acs(xor(i, j), j)))
    return rsum((x,), TRUE, rmul(ipow(pc(x)), sgn(par, fc(K.inter(x, xor(x, i, j))))))


def iclifft_want(h, fm, w):
    hi, lo = T.ifn("ob", w), T.ifn("eb", w)
    x = xor(hi, lo)
    i = VAR(T.fresh("i"), h)
    par = bxor(odd(pc(and_(hi, i))), odd(acs(x, xor(i, x))))
    return rmul(T.rf("r2inv", h), ipow(scale(pc(hi), -1)),
                rsum((i,), TRUE, sgn(par, fm(i, xor(i, x)))))


def hmodels(cx, top=6):
    if cx.tier == "thorough":
        top += 1
    grow = lambda rnd, d: {"syms": {"h": d // 2}, "masks": {}, "dim": d // 2}
    return [{"syms": {"h": h}, "masks": {}, "dim": h, "seed": "h%d.%d" % (cx.seed, h), "grow": grow} for h in range(top)]


def varr(s, name, shape):
    ks = tuple(freshk() for _ in shape)
    v = Arr(shape, ks, rd(name, *ks), "nd")
    r = s.ref(v)
    ks = tuple(freshk() for _ in shape)
    return Vw(r, v.shape, ks, ks), r


def run(cx):
    K.kernels(cx, ("clifft", "clifft_into", "iclifft", "iclifft_into"))
    h = T.SYM("h")
    for par in (0, 1):
        n = add(T.scale(h, 2), INT(par))
        side = p2(add(h, INT(par)))
        H = add(h, INT(par))
        ms = hmodels(cx, 6 - par)
        bd = {"a": (lambda md, par=par: 1 << (2 * md["syms"]["h"] + par),)}
        fa = lambda *ix, n=n: rite(lt(ix[0], p2(n)), rd("a", *ix), R0)
        for tl, ct in (("f64", F64), ("Complex64", CX64)):
            real = ("a",) if ct is F64 else ()
            with cx.clause("clifft of %s coefficients, %s dimension" % (tl, ("even", "odd")[par])):
                s = cx.sess()
                t = s.function("clifft::clifft")
                a, ra = varr(s, "a", (p2(n),))
                r = s.call(t, [a], extra=[ct])
                ok, pay, e = result_parts(s, r)
                kw = dict(models=ms, bounds=bd, real=real, where=where(t))
                cx.always("clifft succeeds", ok, [], **kw)
                m = s.deep(pay)
                cx.equal("number of rows", m.shape[0], side, [], **kw)
                cx.equal("number of columns", m.shape[1], side, [], **kw)
                i, j = VAR("i", H), VAR("j", H)
                cx.equal("clifft(a)[i,j]", m.at((i, j)), clifft_want(H, fa, i, j), [i, j], **kw)
                cx.equal("input afterwards", s.I.read(s.st, ra).at((VAR("k", n),)), rd("a", VAR("k", n)),
                         [VAR("k", n)], **kw)
                cx.no_panics(s, models=ms, bounds=bd, real=real)
                if ct is F64:
                    form = m
        with cx.clause("blades multiply like matrices, %s dimension" % ("even", "odd")[par]):
            x, y, l = VAR("x", n), VAR("y", n), VAR(T.fresh("l"), H)

            def blade(z, r_, c_):
                return T.replace_reads(form.at((r_, c_)),
                                       lambda q: rite(eq(q.a[1][0], z), R1, R0) if q.a[0] == "a" else None)
            got = rsum((l,), TRUE, rmul(blade(x, i, l), blade(y, l, j)))
            want = sgn(odd(acs(x, y)), blade(xor(x, y), i, j))
            cx.equal("sum_l M(x)[i,l] M(y)[l,j]", got, want, [x, y, i, j], models=ms[:3], bounds=bd,
                     where="clifft::clifft", cap=2500 if cx.tier == "quick" else 40000)
            cx.equal("M(1)[i,j]", blade(ZERO, i, j), rite(eq(i, j), R1, R0), [i, j], models=ms, bounds=bd,
                     where="clifft::clifft")
            if par:
                # dropping the padding generator loses nothing: entries of the added half vanish
                cx.cur["note"] = "odd dimension is embedded into the next even one"
    with cx.clause("iclifft"):
        s = cx.sess()
        t = s.function("clifft::iclifft")
        m, rm = varr(s, "a", (p2(h), p2(h)))
        r = s.call(t, [m])
        ok, pay, e = result_parts(s, r)
        ms = hmodels(cx)
        bd = {"a": (lambda md: 1 << md["syms"]["h"],) * 2}
        kw = dict(models=ms, bounds=bd, where=where(t))
        cx.always("iclifft succeeds", ok, [], **kw)
        v = s.deep(pay)
        w = VAR("w", T.scale(h, 2))
        cx.equal("length", v.shape[0], p2(T.scale(h, 2)), [], **kw)
        cx.equal("iclifft(a)[w]", v.at((w,)), iclifft_want(h, lambda *ix: rd("a", *ix), w), [w], **kw)
        cx.no_panics(s, models=ms, bounds=bd)
    with cx.clause("iclifft_into"):
        s = cx.sess()
        t = s.function("clifft::iclifft_into")
        m, rm = varr(s, "a", (p2(h), p2(h)))
        d, rdst = varr(s, "d", (p2(T.scale(h, 2)),))
        ok, pay, e = result_parts(s, s.call(t, [m, d]))
        cx.always("iclifft_into succeeds", ok, [], **kw)
        v = s.I.read(s.st, rdst)
        cx.equal("iclifft_into(a, d)[w]", v.at((w,)), iclifft_want(h, lambda *ix: rd("a", *ix), w), [w], **kw)
        cx.no_panics(s, models=ms, bounds=bd)
    for par in (0, 1):
        with cx.clause("iclifft after clifft, %s dimension" % ("even", "odd")[par]):
            n = add(T.scale(h, 2), INT(par))
            N = T.scale(add(h, INT(par)), 2)
            s = cx.sess()
            a, ra = varr(s, "a", (p2(n),))
            ok, m, e = result_parts(s, s.call(s.function("clifft::clifft"), [a], extra=[F64]))
            mr = s.ref(s.deep(m))
            ks = tuple(freshk() for _ in range(2))
            ok, v, e = result_parts(s, s.call(s.function("clifft::iclifft"), [Vw(mr, s.deep(m).shape, ks, ks)]))
            v = s.deep(v)
            w = VAR("w", N)
            bd = {"a": (lambda md, par=par: 1 << (2 * md["syms"]["h"] + par),)}
            kw = dict(models=hmodels(cx, 4 if par else 5), bounds=bd, real=("a",), where="clifft::iclifft")
            cx.equal("length", v.shape[0], p2(N), [], **kw)
            cx.equal("iclifft(clifft(a))[w]", v.at((w,)), rite(lt(w, p2(n)), rd("a", w), R0), [w], **kw)
    K.kernel_shapes(cx, sm)
    shapes(cx)


def sm(*names):
    """models assigning small sizes to symbols"""
    import itertools
    out = []
    dom = list(range(0, 10)) + [15, 16, 17, 32, 63, 64]
    if len(names) == 3:
        dom = [0, 1, 2, 3, 4, 5, 8, 9, 16, 64]
    for t in itertools.product(dom, repeat=len(names)):
        out.append({"syms": dict(zip(names, t)), "masks": {}, "dim": 0, "seed": "s%s" % (t,)})
    return out


def is_p2(x):
    return eq(pc(x), ONE)


def shapes(cx):
    N, R, C, L = (T.SYM(x) for x in "NRCL")
    with cx.clause("clifft accepts exactly power-of-two lengths"):
        s = cx.sess(conf={"shapes": True})
        t = s.function("clifft::clifft")
        a, ra = varr(s, "a", (N,))
        ok, pay, e = result_parts(s, s.call(t, [a], extra=[CX64]))
        kw = dict(models=sm("N"), where=where(t), bounds={"a": (lambda md: md["syms"]["N"],)})
        cx.equal("clifft succeeds for length N", ite(ok, ONE, ZERO), ite(is_p2(N), ONE, ZERO), [], **kw)
        if e is not None:
            cx.equal("clifft error", e, err_is(s, "InvalidShape"), [], cond=bnot(is_p2(N)), **kw)
        if pay is not None:
            m = s.deep(pay)
            for i, what in enumerate(("rows", "columns")):
                cx.equal("%s of the transform of N coefficients" % what, m.shape[i],
                         p2(T.div(add(T.ilog2(N), ONE), INT(2))), [], cond=is_p2(N), **kw)
        cx.no_panics(s, models=kw["models"], bounds=kw["bounds"])
    sq = band(eq(R, C), is_p2(R))
    with cx.clause("iclifft accepts exactly square power-of-two matrices"):
        s = cx.sess(conf={"shapes": True})
        t = s.function("clifft::iclifft")
        m, rm = varr(s, "a", (R, C))
        ok, pay, e = result_parts(s, s.call(t, [m]))
        kw = dict(models=sm("R", "C"), where=where(t), bounds={"a": (lambda md: md["syms"]["R"],
                                                                        lambda md: md["syms"]["C"])})
        cx.equal("iclifft succeeds for an R x C matrix", ite(ok, ONE, ZERO), ite(sq, ONE, ZERO), [], **kw)
        if e is not None:
            cx.equal("iclifft error", e, err_is(s, "InvalidShape"), [], cond=bnot(sq), **kw)
        cx.no_panics(s, models=kw["models"], bounds=kw["bounds"])
    with cx.clause("iclifft_into also checks the destination"):
        s = cx.sess(conf={"shapes": True})
        t = s.function("clifft::iclifft_into")
        m, rm = varr(s, "a", (R, C))
        d, rdst = varr(s, "d", (L,))
        ok, pay, e = result_parts(s, s.call(t, [m, d]))
        good = band(sq, eq(L, mul(R, C)))
        kw = dict(models=sm("R", "C", "L"), where=where(t),
                  bounds={"a": (lambda md: md["syms"]["R"], lambda md: md["syms"]["C"]),
                          "d": (lambda md: md["syms"]["L"],)})
        cx.equal("iclifft_into succeeds for R x C into L", ite(ok, ONE, ZERO), ite(good, ONE, ZERO), [], **kw)
        if e is not None:
            cx.equal("iclifft_into error", e, err_is(s, "InvalidShape"), [], cond=bnot(good), **kw)
        cx.no_panics(s, models=kw["models"], bounds=kw["bounds"])
