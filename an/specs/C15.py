"""C15: layout and round trip of the fast representation."""
from .fftcommon import *

EXPLAIN = ("shape and entries of m.fft() and the coefficients of ifft are derived from the MIR for an arbitrary "
           "signature with an even or odd number of non-null generators, compared with the matrix of the complexified "
           "coefficients per null index, and the composition ifft(fft(m)) is derived and compared with m")
RULE = "shape (2^s, 2^ceil((p+q)/2), same); slice w = transform of complexified coefficients w*2^(p+q)..; ifft inverts"
FLOOR = 14


def run(cx):
    K.kernels(cx, ("clifft", "clifft_into", "iclifft", "iclifft_into"))
    for par, pl in PAR:
        alg = alg_of(par)
        ms = fmodels(cx, par)
        ws = wide(cx, par)
        bd = fbounds(par)
        for tl, ct in (("f64", F64), ("Complex64", CX64), ("f32", F32), ("Complex32", CX32)):
            real = ("a",) if ct[0] == "prim" else ()
            with cx.clause("fft of %s, %s non-null dimension" % (tl, pl)):
                s = cx.sess(alg=alg)
                t = s.method("fft", mvty("array", ct))
                a = s.ref(s.mv("a", mvty("array", ct)))
                r = s.call(t, [a])
                kw = dict(models=ms + ws if ct is F64 else ms, bounds=bd, real=real, where=where(t))
                check_shape(cx, s, r, alg, "fft(a)", **kw)
                ix = ix3(alg)
                cx.equal("fft(a)[w,i,j]", entry(s, r, ix), fft_want(alg, par, lambda k: rd("a", k), *ix), ix, **kw)
                k = kvar(alg)
                cx.equal("operand afterwards", s.content(a, k), rd("a", k), [k], **kw)
                cx.no_panics(s, models=ms, bounds=bd, real=real)
            with cx.clause("ifft to %s, %s non-null dimension" % (tl, pl)):
                s = cx.sess(alg=alg)
                t = s.method("ifft", fty())
                f = s.ref(frepr(s, "f", alg))
                r = s.call(t, [f], extra=[ct])
                k = kvar(alg)
                w = ifft_want(alg, par, lambda *ix: rd("f", *ix), k)
                kw = dict(models=ms + ws if ct is F64 else ms, bounds=bd, where=where(t))
                cx.equal("ifft(f)[k]", s.content(r, k), rf("re", w) if real else w, [k], **kw)
                ix = ix3(alg)
                cx.equal("representation afterwards", entry(s, f, ix), rd("f", *ix), ix, **kw)
                cx.no_panics(s, models=ms, bounds=bd)
        with cx.clause("ifft after fft, %s non-null dimension" % pl):
            s = cx.sess(alg=alg)
            a = s.ref(s.mv("a", mvty("array", F64)))
            f = s.call(s.method("fft", mvty("array", F64)), [a])
            t = s.method("ifft", fty())
            r = s.call(t, [s.ref(f)], extra=[F64])
            k = kvar(alg)
            cx.equal("ifft(fft(a))[k]", s.content(r, k), rd("a", k), [k], models=fmodels(cx, par, 5, 2), bounds=bd,
                     real=("a",), where=where(t))
        accept(cx, alg, par, pl)


def accept(cx, alg, par, pl):
    """arrays accepted as representations, and the views handed out"""
    W, R, C = T.SYM("W"), T.SYM("rows"), T.SYM("cols")
    bd = fbounds(par)

    def sized(ms, null=True):
        out = []
        for m in ms:
            st_ = (1 << m["syms"]["s"], 1 << (m["syms"]["h"] + par))
            for w in sorted({st_[0], 1, 2, 3, 4, 0}):
                for r in sorted({st_[1], 2 * st_[1], 1, 3}):
                    for c in sorted({st_[1], 2 * st_[1], 1}):
                        out.append(dict(m, syms=dict(m["syms"], W=w, rows=r, cols=c), seed="%s|%d|%d|%d" % (
                            m["seed"], w, r, c)))
        return out
    with cx.clause("from_array3 accepts exactly the right shape, %s non-null dimension" % pl):
        s = cx.sess(alg=alg)
        t = s.method("from_array3", fty())
        ks = tuple(freshk() for _ in range(3))
        ok, pay, e = result_parts(s, s.call(t, [Arr((W, R, C), ks, rd("f", *ks), "nd")]))
        good = band(*[eq(x, y) for x, y in zip((W, R, C), shape_of(alg))])
        ms = sized(fmodels(cx, par, 5))
        kw = dict(models=ms, bounds={}, where=where(t))
        cx.equal("from_array3 succeeds", ite(ok, ONE, ZERO), ite(good, ONE, ZERO), [], **kw)
        if e is not None:
            cx.equal("from_array3 error", e, err_is(s, "InvalidShape"), [], cond=bnot(good), **kw)
        ix = ix3(alg)
        cx.equal("from_array3(f)[w,i,j]", entry(s, pay, ix), rd("f", *ix), ix, cond=good, **kw)
        cx.no_panics(s, models=ms, bounds=bd)
    with cx.clause("from_array2 accepts exactly the right shape, %s non-null dimension" % pl):
        nd = dict(alg, s=ZERO, dim=alg["m"], proj_mask=ZERO)
        s = cx.sess(alg=nd)
        t = s.method("from_array2", fty())
        ks = tuple(freshk() for _ in range(2))
        ok, pay, e = result_parts(s, s.call(t, [Arr((R, C), ks, rd("f", *ks), "nd")]))
        good = band(eq(R, p2(nd["H"])), eq(C, p2(nd["H"])))
        ms = sized(fmodels(cx, par, 5, null=False))
        kw = dict(models=ms, bounds={}, where=where(t))
        cx.equal("from_array2 succeeds", ite(ok, ONE, ZERO), ite(good, ONE, ZERO), [], **kw)
        if e is not None:
            cx.equal("from_array2 error", e, err_is(s, "InvalidShape"), [], cond=bnot(good), **kw)
        i, j = VAR("i", nd["H"]), VAR("j", nd["H"])
        cx.equal("from_array2(f)[0,i,j]", entry(s, pay, (ZERO, i, j)), rd("f", i, j), [i, j], cond=good, **kw)
        cx.no_panics(s, models=ms, bounds=bd)
    with cx.clause("into_array2, %s non-null dimension" % pl):
        nd = dict(alg, s=ZERO, dim=alg["m"], proj_mask=ZERO)
        s = cx.sess(alg=nd)
        t = s.method("into_array2", fty())
        r = arr_of(s, s.call(t, [frepr(s, "f", nd)]))
        i, j = VAR("i", nd["H"]), VAR("j", nd["H"])
        cx.equal("into_array2(f)[i,j]", r.at((i, j)), rd("f", ZERO, i, j), [i, j],
                 models=fmodels(cx, par, 5, null=False), bounds=bd, where=where(t))
    ms = fmodels(cx, par, 5)
    for nm in ("into_array3", "view", "shape"):
        with cx.clause("%s, %s non-null dimension" % (nm, pl)):
            s = cx.sess(alg=alg)
            t = s.method(nm, fty())
            f = frepr(s, "f", alg)
            r = s.call(t, [f if nm == "into_array3" else s.ref(f)])
            kw = dict(models=ms, bounds=bd, where=where(t))
            if nm == "shape":
                r = s.deep(r)
                for n, (x, y) in enumerate(zip(r.f, shape_of(alg))):
                    cx.equal("shape().%d" % n, x, y, [], **kw)
            elif nm == "view":
                ix = ix3(alg)
                w = r if isinstance(r, Vw) else None
                if w is None:
                    raise Unsupported("view returns %s" % type(r).__name__)
                cx.equal("view()[w,i,j]", s.I.read(s.st, w.at(tuple(ix))), rd("f", *ix), ix, **kw)
                for n, (x, y) in enumerate(zip(w.shape, shape_of(alg))):
                    cx.equal("view(): length of axis %d" % n, x, y, [], **kw)
            else:
                ix = ix3(alg)
                check_shape(cx, s, r, alg, nm, **kw)
                cx.equal("%s[w,i,j]" % nm, entry(s, r, ix), rd("f", *ix), ix, **kw)
    with cx.clause("basis, %s non-null dimension" % pl):
        s = cx.sess(alg=alg)
        t = s.method("basis", fty())
        D = T.SYM("D")
        r = s.deep(s.call(t, [], extra=[("cst", D)]))
        n = NVAR("n", alg["dim"])
        ms = [dict(m, syms=dict(m["syms"], D=m["dim"])) for m in fmodels(cx, par, 5)]
        if not isinstance(r, Arr):
            raise Unsupported("basis is %s" % type(r).__name__)
        ix = ix3(alg)
        cx.equal("basis()[n][w,i,j]", entry(s, r.at((n,)), ix),
                 fft_want(alg, par, lambda k: rite(eq(k, p2(n)), R1, R0), *ix), [n] + ix, models=ms, bounds=bd,
                 where=where(t))
