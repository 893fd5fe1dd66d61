"""Vocabulary of the fast-representation properties."""
from .common import *
from .. import contracts as K
import random

PAR = ((0, "even"), (1, "odd"))


def alg_of(par):
    """arbitrary signature with an even (2h) or odd (2h+1) number of non-null generators"""
    h, s = T.SYM("h"), T.SYM("s")
    m = add(T.scale(h, 2), INT(par))
    return {"m": m, "s": s, "h": h, "H": add(h, INT(par)), "dim": add(m, s), "real_mask": T.MASK("R", m),
            "imag_mask": T.MASK("I", m), "proj_mask": sub(p2(add(m, s)), p2(m))}


def growing(par, null=True):
    """an algebra with about d generators, the parity of the non-null ones given"""
    def grow(rnd, d):
        s = rnd.choice((0, 1, 2, rnd.randrange(min(d, 12) + 1), rnd.randrange(d + 1))) if null else 0
        h = max(d - s - par, 0) // 2
        m = 2 * h + par
        R = rnd.randrange(1 << m)
        return {"syms": {"h": h, "s": s}, "masks": {"R": R, "I": ((1 << m) - 1) & ~R}, "dim": m + s}
    return grow


def fmodels(cx, par, maxdim=6, maxh=3, maxs=3, null=True):
    out = []
    for h in range(maxh + 1):
        for s in range((maxs if null else 0) + 1):
            m = 2 * h + par
            if m + s > maxdim:
                continue
            for r in range(2 if cx.tier == "quick" else 6):
                rnd = random.Random("%d|%d|%d|%d|%d" % (cx.seed, par, h, s, r))
                R = rnd.randrange(1 << m)
                if r == 0:
                    R = sum(1 << i for i in range(0, m, 2))
                out.append({"syms": {"h": h, "s": s}, "masks": {"R": R, "I": ((1 << m) - 1) & ~R}, "dim": m + s,
                            "seed": "f%d.%d.%d.%d.%d" % (cx.seed, par, h, s, r), "grow": growing(par, null)})
                if m == 0:
                    break
    return out


def wide(cx, par):
    """algebras with many generators; a few points each"""
    out = []
    for h, s in ((0, 9), (1, 8), (4, 0), (3, 3)):
        m = 2 * h + par
        rnd = random.Random("%d|w|%d|%d|%d" % (cx.seed, par, h, s))
        R = rnd.randrange(1 << m)
        out.append({"syms": {"h": h, "s": s}, "masks": {"R": R, "I": ((1 << m) - 1) & ~R}, "dim": m + s, "sums": h + par,
                    "seed": "fw%d.%d.%d.%d" % (cx.seed, par, h, s), "grow": growing(par)})
    return out


def fty(a=AL):
    return ("adt", FFTR, (a,))


def shape_of(alg):
    return (p2(alg["s"]), p2(alg["H"]), p2(alg["H"]))


def frepr(s, name, alg, null=True):
    """abstract fast representation with free entries name[w, i, j]; nothing known about the null part when null=False"""
    z = s.call(s.method("zero", fty(), "num::Zero"), [])
    n = [0]

    def go(v):
        if isinstance(v, St):
            return St(v.kind, [go(x) for x in v.f])
        if isinstance(v, Arr):
            n[0] += 1
            return Arr(shape_of(alg), v.ks, rd(name, *v.ks), v.kind)
        return v
    r = go(z)
    if n[0] != 1:
        raise Unsupported("array of the fast representation not recognised")
    return r


def arr_of(s, v):
    """the array inside a fast representation (or an array value itself)"""
    out = []

    def go(x):
        x = s.deep(x)
        if isinstance(x, Arr):
            out.append(x)
        elif isinstance(x, St):
            for y in x.f:
                go(y)
        elif isinstance(x, VIte):
            raise Unsupported("array of the fast representation is merged")
    go(v)
    if len(out) != 1:
        raise Unsupported("array of the fast representation not recognised")
    return out[0]


def fbounds(par):
    f = (lambda md: 1 << md["syms"]["s"], lambda md: 1 << (md["syms"]["h"] + par), lambda md: 1 << (md["syms"]["h"] + par))
    return {"f": f, "g": f, "a": (lambda md: 1 << md["dim"],), "b": (lambda md: 1 << md["dim"],)}


def ix3(alg):
    return [VAR("w", alg["s"]), VAR("i", alg["H"]), VAR("j", alg["H"])]


def entry(s, v, ix):
    return arr_of(s, v).at(tuple(ix))


def check_shape(cx, s, v, alg, what, **kw):
    a = arr_of(s, v)
    if len(a.shape) != 3:
        raise Unsupported("%s has %d axes" % (what, len(a.shape)))
    for n, (x, y) in enumerate(zip(a.shape, shape_of(alg))):
        cx.equal("%s: length of axis %d" % (what, n), x, y, [], **kw)


def fft_want(alg, par, fc, w, i, j):
    """entry of the representation of the multivector with coefficients fc"""
    x = VAR(T.fresh("h"), alg["H"])
    par_ = bxor(odd(pc(and_(x, i))), odd(acs(xor(i, j), j)))
    low = K.inter(x, xor(x, i, j))
    k = add(mul(w, p2(alg["m"])), low)
    c = rmul(ipow(scale(pc(and_(low, alg["imag_mask"])), -1)), fc(k))
    if par:
        c = rite(lt(low, p2(alg["m"])), c, R0)
    return rsum((x,), TRUE, rmul(ipow(pc(x)), sgn(par_, c)))


def ifft_want(alg, par, fm, k):
    """coefficient of blade k of the multivector represented by fm"""
    low = and_(k, sub(p2(alg["m"]), ONE))
    w = T.shr(k, alg["m"])
    hi, lo = T.ifn("ob", low), T.ifn("eb", low)
    x = xor(hi, lo)
    i = VAR(T.fresh("i"), alg["H"])
    p = bxor(odd(pc(and_(hi, i))), odd(acs(x, xor(i, x))))
    return rmul(T.rf("r2inv", alg["H"]), ipow(scale(pc(hi), -1)), ipow(pc(and_(low, alg["imag_mask"]))),
                rsum((i,), TRUE, sgn(p, fm(w, i, xor(i, x)))))
