"""C20: inverse of the fast representation."""
import random

from .. import evalm
from ..evalm import P, IOTA
from .fftcommon import *

EXPLAIN = ("the elimination behind FFTRepr::inv is derived from the MIR as a system of recurrences: start value of the "
           "working array, its value after one iteration of each elimination loop as a closed form over the value before "
           "it (pivot searches, swaps and row updates are summarised), the conditions of leaving early and the result. "
           "Every iteration is then analysed in an abstract domain of entry patterns (0, 1, non-zero, anything), starting "
           "from an arbitrary matrix: it must act as an invertible row operation on [L*A | L], leave with None only where "
           "the left block is singular, and the pattern reached after the last loop must determine the inverse")
RULE = ("each iteration: [U|V] -> [KU|KV] with K invertible, for every state of its pattern; leaves with None => U singular; "
        "after the loops the result is U^-1 V, i.e. the inverse of the argument; the argument is not changed; no panic")
FLOOR = 6
TECH = "value-flow analysis with loop recurrences and abstract interpretation of entry patterns"
NOTE = ("exact arithmetic: coefficients are elements of a prime field with an independent conjugate, norms are ordered "
        "arbitrarily with 0 as least element; rounding is not modelled. Patterns are propagated through sampled states "
        "of each pattern for sides 1, 2, 4 and 8 (16 in the deeper tier).")


class Cx:
    """sampled number with its conjugate"""
    __slots__ = ("v", "c")

    def __init__(self, v, c=None):
        self.v = v % P
        self.c = (v if c is None else c) % P


def number(r, small, nz=False):
    while True:
        if small:
            a, b = r.choice((0, 0, 1, P - 1, 2)), 0
        else:
            z = r.random() < .3
            a, b = (0, 0) if z else (r.randrange(P), r.randrange(P))
        x = Cx(a + b * IOTA, a - b * IOTA)
        if x.v or not nz:
            return x


def fill(r, pat, small):
    return [[Cx(0) if p == "0" else Cx(1) if p == "1" else number(r, small, p == "*") for p in row] for row in pat]


def rank(rows):
    m = [list(x) for x in rows]
    k = 0
    for c in range(len(m[0]) if m else 0):
        p = next((i for i in range(k, len(m)) if m[i][c] % P), None)
        if p is None:
            continue
        m[k], m[p] = m[p], m[k]
        q = pow(m[k][c], P - 2, P)
        m[k] = [x * q % P for x in m[k]]
        for i in range(len(m)):
            if i != k and m[i][c]:
                f = m[i][c]
                m[i] = [(x - f * y) % P for x, y in zip(m[i], m[k])]
        k += 1
    return k


def mm(a, b):
    return [[sum(x * y for x, y in zip(r, c)) % P for c in zip(*b)] for r in a]


def inverse(a):
    n = len(a)
    m = [list(r) + [int(i == j) for j in range(n)] for i, r in enumerate(a)]
    for c in range(n):
        p = next((i for i in range(c, n) if m[i][c] % P), None)
        if p is None:
            return None
        m[c], m[p] = m[p], m[c]
        q = pow(m[c][c], P - 2, P)
        m[c] = [x * q % P for x in m[c]]
        for i in range(n):
            if i != c and m[i][c]:
                f = m[i][c]
                m[i] = [(x - f * y) % P for x, y in zip(m[i], m[c])]
    return [r[n:] for r in m]


def values(m):
    return [[x.v for x in r] for r in m]


def shown(m):
    def f(v):
        return v if v < 1000 else v - P if P - v < 1000 else "x%d" % (v % 9973)
    return [[f(v) for v in r] for r in m]


class System:
    """recurrences derived from inv, evaluated on states of a pattern"""

    def __init__(self, cx, s, md, n, res, some):
        self.cx, self.s, self.md, self.n = cx, s, md, n
        self.recs = [e for e in s.I.events if e["ev"] == "recurrence"]
        self.res, self.some = res, some
        self.forms = {}

    def model(self, arrays, leaving=None):
        M = evalm.Model(self.md["seed"], self.md["syms"], self.md["masks"])
        for name, a in arrays.items():
            for i, row in enumerate(a):
                for j, x in enumerate(row):
                    M.cache[(name, (i, j))] = x.v
                    M.cache[(name + "~", (i, j))] = x.c
        for e in self.recs:
            for x, g, st in e["exits"]:
                nm = x.a[0]
                M.funs[nm] = lambda M, nm=nm: nm == leaving
        return M

    def arr(self, a, M, free=(), vals=()):
        """sampled value of an array of derived terms"""
        got = self.forms.get(id(a))
        if got is None:
            k0, k1 = NVAR("r", INT(self.n)), NVAR("c", INT(4 * self.n))
            t = a.at((k0, k1))
            if not T.isn(t):
                raise Unsupported("array without a closed form")
            got = (evalm.compile_term([t, rf("conj", t)], [k0, k1] + list(free)),
                   evalm.compile_term(list(a.shape), list(free)))
            self.forms[id(a)] = got
        f = got[0]
        sh = got[1](M, *vals)
        return [[Cx(*f(M, i, j, *vals)) for j in range(sh[1])] for i in range(sh[0])]


def run(cx):
    K.kernels(cx, ())
    for par, what in PAR:
        alg = dict(alg_of(par))
        sides = [h for h in range(0, 5 if cx.tier == "thorough" else 4)]
        mds = [m for m in fmodels(cx, par, 9, 4, 0, False) if m["syms"]["h"] + par in sides]
        ms, seen = [], set()
        for m in mds:
            if m["syms"]["h"] not in seen:
                seen.add(m["syms"]["h"])
                ms.append(m)
        alg["s"] = ZERO
        d = None
        with cx.clause("inv with an %s number of generators: shape, argument, panics" % what):
            d = derive(cx, alg, par, ms)
        for md in ms:
            n = 1 << (md["syms"]["h"] + par)
            with cx.clause("inv with an %s number of generators: elimination of matrices of side %d" % (what, n)):
                if d:
                    propagate(cx, *d[:1], md, n, *d[1:])


def derive(cx, alg, par, ms):
    a2 = dict(alg)
    a2["dim"] = alg["m"]
    a2["proj_mask"] = ZERO
    s = cx.sess(a2, conf={"recurrences": True})
    t = s.method("inv", fty())
    x = frepr(s, "a", a2)
    rx = s.ref(x)
    r = s.deep(s.call(t, [rx]))
    if not isinstance(r, En):
        raise Unsupported("result of inv")
    recs = [e for e in s.I.events if e["ev"] == "recurrence"]
    some = eq(r.d, ONE)
    w = where(t)
    i, j = VAR("i", a2["H"]), VAR("j", a2["H"])
    kw = dict(models=ms, where=w)
    if r.d is ZERO:
        cx.violate("none", "inv never returns an inverse", where=w)
        return None
    res = payload(s, r.p[1][0])
    side = p2(a2["H"])
    for n, d in enumerate((ONE, side, side)):
        cx.equal("length of axis %d of the result" % n, res.shape[n], d, [], **kw)
    now = payload(s, s.I.read(s.st, rx))
    cx.equal("argument afterwards", now.at((ZERO, i, j)), rd("a", ZERO, i, j), [i, j], **kw)
    cx.no_panics(s, models=ms)
    if not recs:
        raise Unsupported("no elimination loop found")
    for e in recs:
        if e["depth"]:
            raise Unsupported("elimination loop inside another one")
        if len(e["vars"]) > 2:
            raise Unsupported("more than two working arrays")
    return s, recs, res, some, w


def payload(s, v):
    found = []

    def go(v):
        if isinstance(v, St):
            for x in v.f:
                go(x)
        elif isinstance(v, Arr):
            found.append(v)
    go(s.deep(v))
    if len(found) != 1 or len(found[0].shape) != 3:
        raise Unsupported("array of the fast representation")
    return found[0]


def propagate(cx, s, md, n, recs, res, some, w):
    S = System(cx, s, md, n, res, some)
    rnd = random.Random("%s|%d|%d" % (cx.seed, n, len(recs)))
    count = max(24, 120 // n) if cx.tier == "quick" else 200
    done = {}
    # the start value: [A | I] in one array, or A and I in two
    pats = None
    for q, e in enumerate(recs):
        start = []
        for k in range(count):
            if q == 0:
                A = fill(rnd, [["T"] * n for _ in range(n)], k % 2)
                M = S.model({})
                for i in range(n):
                    for j in range(n):
                        M.cache[("a", (0, i, j))] = A[i][j].v
                        M.cache[("a~", (0, i, j))] = A[i][j].c
                U, V, order = blocks([S.arr(v["init"], M) for v in e["vars"]], n, A, done, e)
                if not started(cx, A, U, V, n, w):
                    return
            else:
                U0, V0 = sample(rnd, pats, n, k)
                M = S.model(arrays(recs[q - 1], U0, V0, n, done))
                U, V, order = blocks([S.arr(v["init"], M) for v in e["vars"]], n, None, done, e)
                if values(U) != values(U0) or values(V) != values(V0):
                    if not rowop(U0, V0, U, V):
                        cx.violate("not a row operation", "between the loops the working array is changed by something "
                                   "that is not an invertible row operation", where=w)
                        return
            start.append((U, V))
            cx.points += 1
        pats = join(start, n)
        bs = e["binders"]
        if len(bs) != 1:
            raise Unsupported("elimination loop over several indices")
        trip = evalm.compile_term([e["count"]], [])(S.model({}))[0] if e["count"] is not None else None
        if trip is None:
            raise Unsupported("trip count")
        for o in range(trip):
            out = []
            for k in range(count):
                U, V = sample(rnd, pats, n, k)
                M = S.model(arrays(e, U, V, n, done, "in"))
                left = False
                for x, g, st in e["exits"]:
                    if evalm.compile_term([g], bs)(M, o)[0]:
                        left = True
                cx.points += 1
                if left:
                    if rank(values(U)) == n:
                        cx.violate("None for an invertible matrix",
                                   "iteration %d of the loop returns early for an invertible matrix" % o, where=w,
                                   detail={"side": n, "left block": shown(values(U)), "right block": shown(values(V))})
                        return
                    continue
                nx = [S.arr(v["next"], M, bs, (o,)) for v in e["vars"]]
                U2, V2, _ = blocks(nx, n, None, done, e)
                if not rowop(U, V, U2, V2):
                    cx.violate("not a row operation", "iteration %d is not an invertible row operation on [A | I]" % o,
                               where=w, detail={"side": n, "before": shown(join2(U, V)), "after": shown(join2(U2, V2))})
                    return
                out.append((U2, V2))
            if not out:
                raise Unsupported("no state passes iteration %d" % o)
            pats = join(out, n)
    last = recs[-1]
    # leaving early must mean None
    for e in recs:
        for x, g, st in e["exits"]:
            if evalm.compile_term([some], [])(S.model({}, x.a[0]))[0]:
                raise Unsupported("an early exit returns a matrix")
    for k in range(count):
        U, V = sample(rnd, pats, n, k)
        M = S.model(arrays(last, U, V, n, done))
        if not evalm.compile_term([some], [])(M)[0]:
            cx.violate("None for an invertible matrix", "None although the elimination completed", where=w,
                       detail={"side": n})
            return
        k0, k1 = NVAR("r", INT(n)), NVAR("c", INT(n))
        f = evalm.compile_term([res.at((ZERO, k0, k1))], [k0, k1])
        X = [[f(M, i, j)[0] for j in range(n)] for i in range(n)]
        cx.points += 1
        iv = inverse(values(U))
        if iv is None:
            cx.violate("inverse of a singular matrix", "the loops can end with a singular left block", where=w,
                       detail={"side": n, "left block": shown(values(U)), "pattern": ["".join(p[:n]) for p in pats]})
            return
        if mm(iv, values(V)) != X:
            cx.violate("wrong inverse", "the result is not the inverse of the argument", where=w,
                       detail={"side": n, "left block": shown(values(U)), "right block": shown(values(V)),
                               "result": shown(X), "pattern": ["".join(p) for p in pats]})
            return
    cx.cur["compared"] += 1
    cx.cur.setdefault("final_patterns", {})["side %d" % n] = ["".join(p) for p in pats]


def join2(U, V):
    return [a + b for a, b in zip(values(U), values(V))]


def blocks(arrs, n, A, done, e):
    """working arrays as (left, right) block"""
    if len(arrs) == 1:
        (a,) = arrs
        if len(a) != n or any(len(r) != 2 * n for r in a):
            raise Unsupported("shape of the working array")
        return [r[:n] for r in a], [r[n:] for r in a], None
    x, y = arrs
    if len(x) != n or len(y) != n or any(len(r) != n for r in x + y):
        raise Unsupported("shape of the working arrays")
    if A is not None and "swap" not in done:
        if values(x) == values(A):
            done["swap"] = False
        elif values(y) == values(A):
            done["swap"] = True
        else:
            raise Unsupported("start values of the working arrays")
    return (y, x, None) if done.get("swap") else (x, y, None)


def arrays(e, U, V, n, done, which="out"):
    vs = [v[which] for v in e["vars"]]
    if len(vs) == 1:
        return {vs[0]: [a + b for a, b in zip(U, V)]}
    if done.get("swap"):
        U, V = V, U
    return {vs[0]: U, vs[1]: V}


def started(cx, A, U, V, n, w):
    """[U | V] = [L*A | L]"""
    if mm(values(V), values(A)) != values(U) or rank(values(V)) != n:
        cx.violate("start", "the working array does not start as [A | I]", where=w,
                   detail={"side": n, "A": shown(values(A)), "start": shown(join2(U, V))})
        return False
    return True


def rowop(U, V, U2, V2):
    iv = inverse(values(V))
    K_ = mm(values(V2), iv)
    return rank(values(V2)) == len(V) and mm(K_, values(U)) == values(U2)


def join(states, n):
    out = []
    for i in range(n):
        row = []
        for j in range(2 * n):
            vs = {(U[i] + V[i])[j].v for U, V in states}
            row.append("0" if vs == {0} else "1" if vs == {1} else "T" if 0 in vs else "*")
        out.append(row)
    return out


def sample(rnd, pats, n, k):
    """a state of the pattern with an invertible right block"""
    for t in range(200):
        U = fill(rnd, [p[:n] for p in pats], k % 2)
        V = fill(rnd, [p[n:] for p in pats], k % 3 == 1 and t < 100)
        if rank(values(V)) == n:
            return U, V
    raise Unsupported("no state of the pattern has an invertible right block")
