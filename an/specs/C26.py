"""C26: projective geometry."""
from .common import *
from .. import evalm
from ..evalm import P, hsh

EXPLAIN = ("result variant and coefficients of the projective constructors are derived from the MIR for a symbolic "
           "number n of Euclidean generators and an input sequence of arbitrary symbolic length; decoding is analysed "
           "composed with encoding")
RULE = ("pga_point: Ok iff n values, proportional to the dual of (x, 1), decodes to x; pga_hyperplane: Ok iff n+1 values, "
        "vector part proportional to them, nothing else; pga_translation: Ok iff n values, 1 + sum x_j/2 e_null e_j; "
        "InvalidShape otherwise; the common scale is a square root or a positive constant")
FLOOR = 6

n = T.SYM("m")
PGA = {"m": n, "s": ONE, "dim": add(n, ONE), "real_mask": sub(p2(n), ONE), "imag_mask": ZERO, "proj_mask": p2(n)}


def pmodels(cx):
    out = []
    for d in range(1, 7 if cx.tier == "quick" else 9):
        for i in range(2):
            out.append({"syms": {"m": d, "s": 1}, "masks": {}, "dim": d + 1, "seed": "pga%d.%d.%d" % (cx.seed, d, i),
                        "grow": lambda rnd, k: {"syms": {"m": k - 1, "s": 1}, "masks": {}, "dim": k}})
    return out


POS = {}


def small_sign(x):
    """sign of a residue that is a fraction with small terms; None when it is not one"""
    if not POS:
        for p in range(1, 40):
            for q in range(1, 40):
                POS[p * pow(q, P - 2, P) % P] = True
    x %= P
    if x == 0:
        return 0
    if x in POS:
        return 1
    return -1 if (P - x) % P in POS else None


def root(M, x):
    """square roots of small squares are exact, others opaque"""
    for r in range(0, 40):
        if r * r % P == x % P:
            return r
    return hsh("sqrt", x % P)


def positive(cx, what, t, free, kw):
    """t is never negative where its value is a small fraction (inputs -1, 0, 1)"""
    f = evalm.compile_term([t, kw["cond"]], list(free))
    cx.cur["compared"] += 1
    seen = 0
    for md in kw["models"]:
        M = cx.mk_model(md, kw["bounds"], kw["real"], {"sqrt": root}, "small")
        for p in cx._points(M, md, list(free), 1, 64):
            v, g = f(M, *p)
            if not g:
                continue
            sg = small_sign(v)
            if sg is None:
                continue
            seen += 1
            if sg < 0:
                cx.violate("negative", "%s: the common scale is negative" % what, where=kw["where"],
                           detail={"model": M.describe(), "at": list(p)})
                return
    cx.cur["points"] += seen
    cx.points += seen
    if not seen:
        raise Unsupported("no point decides the sign of %s" % what)


def origin(cx, t, kw):
    """the homogeneous part of the point with all coordinates zero (a division by zero is no small fraction)"""
    f = evalm.compile_term([t, kw["cond"]], [])
    cx.cur["compared"] += 1
    for md in kw["models"]:
        M = cx.mk_model(md, kw["bounds"], kw["real"], {"sqrt": root}, 1.0)
        v, g = f(M)
        if g and not small_sign(v):
            cx.violate("origin", "point at the origin: the homogeneous part vanishes or is divided by zero",
                       where=kw["where"], detail={"model": M.describe()})
            return
        cx.cur["points"] += bool(g)
        cx.points += bool(g)


def seqs(s, N):
    """an input sequence of length N"""
    j = freshk()
    return Arr((N,), (j,), rd("v", j), "vec")


def run(cx):
    N = T.SYM("N")
    v = lambda j: rd("v", j)
    bd = {"v": (lambda md: md["syms"]["N"],)}
    for kind, lbl in (("array", "dense storage"), ("sparse", "sparse storage")):
        ty = mvty(kind, F64)
        for name, need in (("pga_point", n), ("pga_hyperplane", add(n, ONE)), ("pga_translation", n)):
            with cx.clause("%s, %s" % (name, lbl)):
                s = cx.sess(alg=PGA)
                t = s.method(name, ty, "pga::PGAMV", [("cst", n)])
                r = s.call(t, [seqs(s, N)])
                ok, pay, e = result_parts(s, r)
                good = eq(N, need)
                ms = with_len(pmodels(cx), "N", lambda m: range(0, m["dim"] + 3))
                kw = dict(models=ms, bounds=bd, where=where(t), real=("v",))
                cx.always("%s succeeds exactly for the required number of values" % name, T.bite(good, ok, bnot(ok)), [],
                          **kw)
                if e is not None:
                    cx.equal("%s error" % name, e, err_is(s, "InvalidShape"), [], cond=bnot(good), **kw)
                if pay is None:
                    cx.violate("never", "%s never succeeds" % name, where=where(t))
                    continue
                k, l = kvar(PGA, "k"), kvar(PGA, "l")
                kw["cond"] = good
                c = lambda x: s.content(pay, x)
                if name == "pga_translation":
                    j = NVAR("j", n)
                    half = rinv(rc(2))
                    cx.equal("translation: scalar part", c(ZERO), R1, [], **kw)
                    cx.equal("translation: coefficient on e_null^e_j", c(add(p2(n), p2(j))), rmul(v(j), half), [j], **kw)
                    isb = band(eq(pc(k), INT(2)), bnot(eq(and_(k, p2(n)), ZERO)))
                    cx.equal("translation: other coefficients", c(k), R0, [k],
                             **dict(kw, cond=band(good, bnot(isb), bnot(eq(k, ZERO)))))
                elif name == "pga_hyperplane":
                    i, j = NVAR("i", add(n, ONE)), NVAR("j", add(n, ONE))
                    cx.equal("hyperplane: vector part proportional to the input", rmul(c(p2(i)), v(j)),
                             rmul(c(p2(j)), v(i)), [i, j], **kw)
                    cx.equal("hyperplane: other coefficients", c(k), R0, [k],
                             **dict(kw, cond=band(good, bnot(eq(pc(k), ONE)))))
                    nonzero(cx, "hyperplane", c(p2(i)), v(i), i, kw)
                else:
                    # wanted: dual of the vector (v, 1), up to a factor
                    d = s.method("dual", ty)
                    def vec(x):
                        jj = NVAR(T.fresh("j"), n)
                        return radd(rsum((jj,), eq(x, p2(jj)), v(jj)), rite(eq(x, p2(n)), R1, R0))
                    base = s.mv("u", ty)
                    du = s.call(d, [s.ref(base)])
                    w = lambda x: T.replace_reads(s.content(du, x), lambda q: vec(q.a[1][0]) if q.a[0] == "u" else None)
                    cx.equal("point: proportional to the dual of (x, 1)", rmul(c(k), w(l)), rmul(c(l), w(k)), [k, l], **kw)
                    top = comp(p2(n), PGA)
                    cx.always("point: homogeneous part is not zero", bnot(isz(c(top))), [], **kw)
                    origin(cx, c(top), kw)
                    x = s.method("pga_extract_point", ty, "pga::PGAMV", [("cst", n)])
                    out = s.deep(s.call(x, [s.ref(pay)]))
                    if not isinstance(out, Arr) or len(out.shape) != 1:
                        raise Unsupported("extracted point is %s" % type(out).__name__)
                    j = NVAR("j", n)
                    cx.equal("number of decoded coordinates", out.shape[0], n, [], **kw)
                    cx.equal("decoded coordinate j", out.at((j,)), v(j), [j], **kw)
                    positive(cx, "point", rmul(c(k), w(k)), [k], kw)
                cx.no_panics(s, models=[m for m in ms if m["dim"] <= 4], bounds=bd, real=("v",))


def nonzero(cx, what, got, val, i, kw):
    cx.always("%s: a non-zero value gives a non-zero coefficient" % what, T.bor(isz(val), bnot(isz(got))), [i], **kw)
    positive(cx, what, rmul(got, val), [i], kw)
