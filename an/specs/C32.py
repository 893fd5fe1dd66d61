"""C32: real matrix transform of split-signature multivectors."""
from .fftcommon import *
from .. import contracts as K

EXPLAIN = ("the recursive real transform is summarised by a closed form established by induction on the size; the entries "
           "of real_fft are derived from the MIR for every split signature +,-,+,-,...; the derived matrices of blades are "
           "multiplied and compared with the signed product blade, and every entry is checked to be linear in the "
           "coefficients")
RULE = "real_fft(a) is square of side 2^n for 2n generators; M(1) = identity; M(x) M(y) = sign(x, y) M(x^y); M(a) = sum_x a[x] M(x)"
FLOOR = 5
BOUNDS = ("forms hold for every n; compared for 2 to 10 generators, blade products up to 6 generators")
BEYOND = ("the function is not called by any test")


def run(cx):
    K.kernels(cx, ("clifft", "clifft_into"))
    alg = alg_of(0)
    alg = dict(alg, dim=alg["m"], proj_mask=ZERO)
    h, n = alg["h"], alg["m"]
    even = lambda k: sum(1 << i for i in range(0, 2 * k, 2))
    grow = lambda rnd, d: {"syms": {"h": d // 2, "s": 0}, "masks": {"R": even(d // 2), "I": even(d // 2) << 1},
                           "dim": d // 2 * 2}
    ms = [{"syms": {"h": k, "s": 0}, "masks": {"R": even(k), "I": even(k) << 1}, "dim": 2 * k, "grow": grow,
           "seed": "r%d.%d" % (cx.seed, k)} for k in range(1, 6 if cx.tier == "quick" else 7)]
    bd = {"a": (lambda md: 1 << md["dim"],)}
    form = None
    for tl, ct in (("a generic division ring", TS), ("f64", F64)):
        with cx.clause("real_fft over %s" % tl):
            s = cx.sess(alg=alg)
            ty = mvty("array", ct)
            t = s.method("real_fft", ty)
            a = s.ref(s.mv("a", ty, n))
            r = s.deep(s.call(t, [a]))
            kw = dict(models=ms, bounds=bd, where=where(t), real=("a",) if ct is F64 else ())
            cx.equal("number of rows", r.shape[0], p2(h), [], **kw)
            cx.equal("number of columns", r.shape[1], p2(h), [], **kw)
            i, j, x = VAR("i", h), VAR("j", h), VAR(T.fresh("x"), n)
            form = form or r
            cx.equal("real_fft(a)[i,j] as a combination of blades", r.at((i, j)),
                     rsum((x,), TRUE, rmul(blade(r, x, i, j), rd("a", x))), [i, j], **dict(kw, models=ms[:4]))
            k = VAR("k", n)
            cx.equal("multivector afterwards", s.content(a, k), rd("a", k), [k], **kw)
            cx.no_panics(s, models=ms, bounds=bd)
    with cx.clause("blades multiply like their matrices"):
        x, y, l = VAR("x", n), VAR("y", n), VAR(T.fresh("l"), h)
        i, j = VAR("i", h), VAR("j", h)
        got = rsum((l,), TRUE, rmul(blade(form, x, i, l), blade(form, y, l, j)))
        neg = bxor(odd(acs(x, y)), odd(pc(and_(x, y, alg["imag_mask"]))))
        cx.equal("sum_l M(x)[i,l] M(y)[l,j]", got, sgn(neg, blade(form, xor(x, y), i, j)), [x, y, i, j], models=ms[:3],
                 bounds=bd, where="real_fft", cap=4000 if cx.tier == "quick" else 60000)
        cx.equal("M(1)[i,j]", blade(form, ZERO, i, j), rite(eq(i, j), R1, R0), [i, j], models=ms, bounds=bd,
                 where="real_fft")


def blade(m, z, i, j):
    return T.replace_reads(m.at((i, j)), lambda q: rite(eq(q.a[1][0], z), R1, R0) if q.a[0] == "a" else None)
