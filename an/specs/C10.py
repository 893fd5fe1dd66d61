"""C10: constructors."""
from .common import *
from .. import elim
from ..evalm import hsh

EXPLAIN = ("the result variant and the coefficients of every constructor are derived from the MIR for input sequences "
           "of arbitrary symbolic length and content, and compared with the acceptance condition and placement rule")
RULE = ("from_vector(_ref): Ok iff length == dim, item n on generator n, else InvalidShape; from_indexed_iter(_ref): "
        "IndexOutOfBounds iff some index >= 2^dim, else last value per index; from_scalar/one/zero/basis as stated")
FLOOR = 25


def run(cx):
    N = T.SYM("N")
    for kind, lbl, new, ty in each(cx):
        for name in ("from_vector", "from_vector_ref"):
            with cx.clause("%s, %s" % (name, lbl)):
                s = new()
                alg = algof(s, kind)
                t = s.method(name, ty())
                j = freshk()
                arr = Arr((N,), (j,), rd("v", j), "vec")
                arg = arr
                if name == "from_vector_ref":
                    j2 = freshk()
                    arg = It("arr", Vw(s.ref(arr), (N,), (j2,), (j2,)), False)
                r = s.call(t, [arg])
                ok, pay, e = result_parts(s, r)
                k = kvar(alg)
                ms = with_len(small(cx, alg, 6), "N", lambda m: range(0, m["dim"] + 3))
                bd = {"v": (lambda md: md["syms"]["N"],)}
                good = eq(N, alg["dim"])
                kw = dict(models=ms, bounds=bd, where=where(t))
                cx.always("%s succeeds exactly for dim items" % name, T.bite(good, ok, bnot(ok)), [], **kw)
                if e is not None:
                    cx.equal("%s error" % name, e, err_is(s, "InvalidShape"), [], cond=bnot(good), **kw)
                if pay is not None:
                    n = NVAR("n", alg["dim"])
                    cx.equal("%s: coefficient of generator n" % name, s.content(pay, p2(n)), rd("v", n), [n],
                             cond=good, **kw)
                    cx.equal("%s: other coefficients" % name, s.content(pay, k), R0, [k],
                             cond=band(good, bnot(eq(pc(k), ONE))), **kw)
                cx.no_panics(s, models=[m for m in ms if m["dim"] <= 3], bounds=bd)
        for name in ("from_indexed_iter", "from_indexed_iter_ref"):
            with cx.clause("%s, %s" % (name, lbl)):
                s = new()
                alg = algof(s, kind)
                t = s.method(name, ty())
                j = freshk()
                ix = lambda x: T.ifn("ix", x)
                if name == "from_indexed_iter":
                    arg = It("own", Arr((N,), (j,), tup(ix(j), rd("v", j)), "vec"))
                else:
                    ref = s.ref(Arr((N,), (j,), rd("v", j), "vec"))
                    j2 = freshk()
                    arg = It("own", Arr((N,), (j2,), tup(ix(j2), ref.ext(("ix", (j2,)))), "vec"))
                r = s.call(t, [arg])
                ok, pay, e = result_parts(s, r)
                k = kvar(alg)
                ms = with_len(small(cx, alg, 4), "N", lambda m: (0, 1, 2, 3, 5, 9))

                def fix(M, x):
                    d = M.syms["m"] + M.syms["s"]
                    return hsh(M.seed, "ix", x) % ((1 << d) + (1 if hsh(M.seed, "oob") % 2 else 0))
                bd = {"v": (lambda md: md["syms"]["N"],)}
                kw = dict(models=ms, bounds=bd, where=where(t), funs={"ix": fix})
                jb = NVAR(T.fresh("j"), N)
                bad = T.mk("ex", (jb,), bnot(lt(ix(jb), p2(alg["dim"]))))
                cx.always("%s fails exactly for an index outside the algebra" % name, T.bite(bad, bnot(ok), ok), [],
                          **kw)
                if e is not None:
                    cx.equal("%s error" % name, e, err_is(s, "IndexOutOfBounds"), [], cond=bad, **kw)
                if pay is not None:
                    want = elim.scatter((jb,), eq(ix(jb), k), rd("v", jb), R0)
                    cx.equal("%s: coefficient k is the last one supplied" % name, s.content(pay, k), want, [k],
                             cond=bnot(bad), **kw)
                cx.no_panics(s, models=[m for m in ms if m["dim"] <= 3], bounds=bd, funs={"ix": fix})
        with cx.clause("from_scalar, %s" % lbl):
            s = new()
            alg = algof(s, kind)
            t = s.method("from_scalar", ty())
            k = kvar(alg)
            r = s.call(t, [rd("x")])
            cx.equal("from_scalar(x)[k]", s.content(r, k), rite(eq(k, ZERO), rd("x"), R0), [k],
                     models=models_of(cx, alg), where=where(t), nc=True)
            cx.no_panics(s, models=models_of(cx, alg))
        for name, tr, v in (("one", "num::One", R1), ("zero", "num::Zero", R0),
                            ("default", "std::default::Default", R0)):
            with cx.clause("%s, %s" % (name, lbl)):
                s = new()
                alg = algof(s, kind)
                t = s.method(name, ty(), tr)
                k = kvar(alg)
                r = s.call(t, [])
                cx.equal("%s()[k]" % name, s.content(r, k), rite(eq(k, ZERO), v, R0), [k], models=models_of(cx, alg),
                         where=where(t))
    for lbl, kind in (("dense storage", "array"), ("sparse storage", "sparse")):
        with cx.clause("basis, %s" % lbl):
            s = cx.sess()
            alg = s.alg
            t = s.method("basis", mvty(kind))
            D = T.SYM("D")
            r = s.deep(s.call(t, [], extra=[("cst", D)]))
            n, k = NVAR("n", alg["dim"]), kvar(alg)
            ms = [dict(m, syms=dict(m["syms"], D=m["dim"])) for m in cx.models() if m["dim"] <= 6]
            if not isinstance(r, Arr):
                raise Unsupported("basis is %s" % type(r).__name__)
            cx.equal("number of generators", r.shape[0], D, [], models=ms, where=where(t))
            cx.equal("basis[n][k]", s.content(r.at((n,)), k), rite(eq(k, p2(n)), R1, R0), [n, k], models=ms,
                     where=where(t))
            cx.no_panics(s, models=ms)
