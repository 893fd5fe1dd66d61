"""C30: exponentials."""
import itertools
from decimal import Decimal as D, getcontext

from .fftcommon import *
from ..session import F64
from ..terms import isn
from ..vals import UNIT

EXPLAIN = ("exp is derived from the MIR in the domain of power series of its argument: every value of the algebra's type is "
           "an expression in the argument x (sums, products and scalar multiples act on it as in a commutative ring, which "
           "the powers of one element form; integer powers by C18), the scale is a closed form over the coefficients of x, "
           "and the summation loop is kept as a recurrence (start values, values after one pass, conditions of leaving). "
           "The derived system is then evaluated in exact arithmetic at eigenvalues: for families of arguments with a known "
           "eigenvalue l, the eigenvalue of the result must be e^l up to the stated truncation error")
RULE = ("for x = a non-negative combination of commuting blades that square to +1 (norms add up to the eigenvalue l), and for "
        "the diagonal, constant and single-entry matrices: |exp(x) eigenvalue / e^l - 1| <= 64 (|l| + 2) machine epsilon; the "
        "argument is not changed; no panic")
FLOOR = 3
TECH = "value-flow analysis with loop recurrences over a power-series domain"
NOTE = ("necessary condition, in exact arithmetic: rounding is not modelled, and the accuracy is decided on the listed families "
        "of arguments (they reach the largest possible eigenvalue for given coefficient norms), magnitudes 10^-9 to 5*10^9.")
BOUNDS = "dimensions 0 to 8, magnitudes 10^-9 to 5*10^9, both signs"
BEYOND = ("the tests check a few rotors and small random multivectors; large elements of vanishing magnitude, where an "
          "insufficient scale ruins the series, do not occur in them")
EPS = D(2) ** -52


class Unknown(Unsupported):
    pass


def slots(v, orig):
    """the value's structure with its coefficient container left open; remembers the container"""
    def go(x):
        if isinstance(x, (Arr, Mp)) or (isinstance(x, St) and x.kind == "arr"):
            orig.append(x)
            return St("series-slot", [])
        if isinstance(x, St):
            return St(x.kind, [go(y) for y in x.f])
        return St("tup", ()) if isn(x) else x
    r = go(v)
    if len(orig) != 1:
        raise Unsupported("coefficient container not recognised")
    return r


def install(s, ty, blank, orig, powkey, notes):
    X = rd("X")

    def mk_(e):
        def go(v):
            if isinstance(v, St) and v.kind == "series-slot":
                return e
            return St(v.kind, [go(x) for x in v.f]) if isinstance(v, St) else v
        return go(blank)

    def val(I, st, v):
        """(is an algebra element, term)"""
        while isinstance(v, Ref):
            v = I.read(st, v)
        if isn(v) and T.sort(v) == "r":
            return False, v
        if isinstance(v, VIte):
            (a, x), (b, y) = val(I, st, v.x), val(I, st, v.y)
            return (a, rite(v.c, x, y)) if a and b else (None, None)
        if not (isinstance(v, St) and v.kind == blank.kind):
            return None, None
        out = []

        def go(x):
            if isinstance(x, (Arr, Mp)) or (isinstance(x, St) and x.kind == "arr"):
                if not I.deep(st, x) is orig[0] and not same_container(x, orig[0]):
                    raise Unsupported("element that is neither the argument nor built from it")
                out.append(X)
            elif isn(x) and T.sort(x) == "r":
                out.append(x)
            elif isinstance(x, St):
                for y in x.f:
                    go(y)
        go(v)
        if len(out) != 1:
            raise Unsupported("element not recognised")
        return True, out[0]

    def binop(f):
        def ov(I, st, fn, targs, args):
            if len(args) != 2:
                return NotImplemented
            (a, x), (b, y) = val(I, st, args[0]), val(I, st, args[1])
            if not a and not b:
                return NotImplemented
            if a is None or b is None:
                raise Unsupported("operation of an element with something else")
            r = f(a, x, b, y)
            return NotImplemented if r is None else mk_(r)
        return ov

    def asg(f):
        op = binop(f)

        def ov(I, st, fn, targs, args):
            r = op(I, st, fn, targs, args)
            if r is NotImplemented:
                return r
            I.write(st, args[0], r)
            return UNIT
        return ov
    tab = {"Mul": ("mul", lambda a, x, b, y: rmul(x, y)),
           "Add": ("add", lambda a, x, b, y: radd(x, y) if a and b else None),
           "Sub": ("sub", lambda a, x, b, y: rsub(x, y) if a and b else None),
           "Div": ("div", lambda a, x, b, y: rmul(x, rinv(y)) if not b else None)}
    for root in ("std", "core"):
        for nm, (m, f) in tab.items():
            s.I.overrides["%s::ops::%s::%s" % (root, nm, m)] = binop(f)
            s.I.overrides["%s::ops::%sAssign::%s_assign" % (root, nm, m)] = asg(f)

        def neg(I, st, fn, targs, args):
            a, x = val(I, st, args[0])
            return mk_(rneg(x)) if a else NotImplemented
        s.I.overrides["%s::ops::Neg::neg" % root] = neg

    def const(c):
        return lambda I, st, fn, targs, args: mk_(c) if targs and targs[0] == ty else NotImplemented
    for r in ("num::", "num_traits::", ""):
        s.I.overrides[r + ("One::one" if r else "one")] = const(R1)
        s.I.overrides[r + ("Zero::zero" if r else "zero")] = const(R0)

    def power(I, st, b, env, args):
        a, x = val(I, st, args[0])
        n = I.deep(st, args[1])
        if not a or not isn(n):
            raise Unsupported("integer power of something else")
        I.used_contracts.add(b["path"])
        nm = "pow@%d" % len(notes)
        notes[nm] = (x, n)
        return mk_(rd(nm))
    s.I.contracts[powkey] = power
    return mk_, val


def same_container(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, Arr):
        k = tuple(freshk() for _ in x.shape)
        return x.at(k) is y.at(k)
    if isinstance(x, Mp):
        k = freshk()
        return x.at(k) is y.at(k)
    return all(p is q for p, q in zip(x.f, y.f))


class Z:
    """complex number"""
    __slots__ = ("re", "im")

    def __init__(self, re, im=D(0)):
        self.re, self.im = D(re), D(im)

    def of(x):
        return x if isinstance(x, Z) else Z(x)

    def __add__(self, y):
        y = Z.of(y)
        return Z(self.re + y.re, self.im + y.im)
    __radd__ = __add__

    def __mul__(self, y):
        y = Z.of(y)
        return Z(self.re * y.re - self.im * y.im, self.re * y.im + self.im * y.re)
    __rmul__ = __mul__

    def __neg__(self):
        return Z(-self.re, -self.im)

    def __sub__(self, y):
        return self + -Z.of(y)

    def inv(self):
        n = self.re * self.re + self.im * self.im
        return Z(self.re / n, -self.im / n)

    def __truediv__(self, y):
        return self * Z.of(y).inv()

    def __rtruediv__(self, y):
        return self.inv() * y

    def __abs__(self):
        return (self.re * self.re + self.im * self.im).sqrt()

    def __eq__(self, y):
        y = Z.of(y)
        return self.re == y.re and self.im == y.im

    def __hash__(self):
        return hash((self.re, self.im))

    def __pow__(self, n):
        r, b = Z(1), self
        while n:
            if n & 1:
                r = r * b
            b = b * b
            n >>= 1
        return r

    def exp(self):
        r, t = Z(1), Z(1)
        for k in range(1, 400):
            t = t * Z(0, self.im) * (D(1) / k)
            r = r + t
        return r * self.re.exp()

    def __str__(self):
        return "%s + %si" % (str(self.re)[:12], str(self.im)[:12])


class Ev:
    """value of derived terms at an eigenvalue, in exact (90-digit) arithmetic"""

    def __init__(self, syms, masks, read, lam, recs, notes):
        self.syms, self.masks, self.read, self.lam = syms, masks, read, lam
        self.recs, self.notes = recs, notes
        self.env = {}
        self.done = {}
        self.ranrec = set()

    def run(self, rec):
        if rec["id"] in self.ranrec:
            return
        self.ranrec.add(rec["id"])
        vars_ = rec["vars"]
        cur = [self(init) for ph, init, v, out in vars_]
        left = None
        n = 0
        for step in self.passes(rec):
            n += 1
            old = dict(self.env)
            for (ph, init, v, out), c in zip(vars_, cur):
                self.env[ph] = c
            self.env.update(zip(rec["binders"], step))
            try:
                left = next((i for i, g in enumerate(rec["exits"]) if self(g)), None)
                if left is None and (not rec["binders"] or self(rec["stay"])):
                    cur = [self(v) for ph, init, v, out in vars_]
            finally:
                self.env = old
            if left is not None:
                break
            if n > 3000 and (not rec["binders"] or rec["count"] is INT(1 << 63)):
                raise NoEnd(rec["fn"])
            if n > 100000:
                raise Unsupported("long loop")
        else:
            left, step = -1, ()
        for (ph, init, v, out), c in zip(vars_, cur):
            self.done[out] = c
        for i, x in enumerate(step):
            self.done[T.SYM("step@%d.%d" % (rec["id"], i))] = x
        self.done[("leaves", rec["id"])] = left

    def passes(self, rec):
        """values of the loop's indices, in order"""
        if not rec["binders"]:
            while True:
                yield ()
        doms = []
        for b in rec["binders"]:
            if rec["count"] is not None and len(rec["binders"]) == 1:
                doms.append(range(self(rec["count"])))
            else:
                hi = self(b.a[1])
                doms.append(range((1 << hi) if b.op == "var" else hi))
        if len(doms) == 1:
            for x in doms[0]:
                yield (x,)
            return
        yield from itertools.product(*doms)

    def after(self, t):
        if t in self.done:
            return self.done[t]
        for rec in self.recs:
            if any(t is out for ph, init, v, out in rec["vars"]) or \
                    t.op == "sym" and t.a[0].startswith("step@%d." % rec["id"]):
                self.run(rec)
                return self.done[t]
        raise Unsupported("loop of %s" % T.show(t))

    def __call__(self, t):
        if t in self.env:
            return self.env[t]
        op, a = t.op, t.a
        if op == "int":
            return a[0]
        if op == "bool":
            return a[0]
        if op == "rc":
            x = [D(v.numerator) / D(v.denominator) for v in a]
            return Z(*x) if x[1] else x[0]
        if op == "rd":
            if a[0] == "X":
                return self.lam
            if a[0] in self.notes:
                b, n = self.notes[a[0]]
                n = self(n)
                return self(b) ** n
            if a[0].startswith("after@"):
                return self.after(t)
            return self.read(a[0], tuple(self(x) for x in a[1]))
        if op == "sym":
            if a[0] in self.syms:
                return self.syms[a[0]]
            return self.after(t)
        if op == "mask":
            return self.masks[a[0]]
        if op == "radd":
            return sum((self(x) for x in a[0]), D(0))
        if op == "rmul":
            r = D(1)
            for x in a[0]:
                r *= self(x)
            return r
        if op == "rinv":
            return D(1) / self(a[0])
        if op in ("rite", "ite"):
            return self(a[1]) if self(a[0]) else self(a[2])
        if op in ("rtab", "tab"):
            return self(a[1][self(a[0])])
        if op == "rf":
            n = a[0]
            if n == "float":
                if a[1].a[0] == "EPSILON":
                    return EPS
                return D(a[1].a[0])
            x = self(a[1])
            if n in ("max", "min"):
                return max(x, self(a[2])) if n == "max" else min(x, self(a[2]))
            if n in ("norm", "abs"):
                return abs(x)
            if n in ("into_c", "from_c", "widen", "f32"):
                return x
            if n in ("re", "im"):
                return getattr(Z.of(x), n)
            if n == "conj":
                return Z(x.re, -x.im) if isinstance(x, Z) else x
            if n == "int":
                return D(x)
            if n == "ceil":
                return x.to_integral_value(rounding="ROUND_CEILING")
            if n == "floor":
                return x.to_integral_value(rounding="ROUND_FLOOR")
            if n == "round":
                return x.to_integral_value(rounding="ROUND_HALF_UP")
            if n == "sqrt":
                return x.sqrt()
            if n == "r2inv":
                return D(2) ** -x
            raise Unsupported("evaluation of %s" % n)
        if op == "ifn":
            if a[0] == "f2i":
                return int(self(a[1]))
            if a[0] == "acs":
                x, y = self(a[1]), self(a[2])
                return sum(bin(x & ((1 << j) - 1)).count("1") for j in range(64) if y >> j & 1)
        if op == "poly":
            r = 0
            for m, c in a[0]:
                for at, k in m:
                    c *= self(at) ** k
                r += c
            return r
        if op == "p2":
            return 1 << self(a[0])
        if op in ("and", "or", "xor"):
            r = self(a[0][0])
            for x in a[0][1:]:
                y = self(x)
                r = r & y if op == "and" else r | y if op == "or" else r ^ y
            return r
        if op == "pc":
            return bin(self(a[0])).count("1")
        if op == "not":
            return self(a[0]) ^ T.ALL64
        if op in ("div", "rem", "shl", "shr"):
            x, y = self(a[0]), self(a[1])
            return x // y if op == "div" else x % y if op == "rem" else x << y if op == "shl" else x >> y
        if op in ("lt", "flt"):
            return self(a[0]) < self(a[1])
        if op in ("eq", "req"):
            return self(a[0]) == self(a[1])
        if op == "isz":
            return self(a[0]) == 0
        if op == "bnot":
            return not self(a[0])
        if op == "band":
            return all(self(x) for x in a[0])
        if op == "bor":
            return any(self(x) for x in a[0])
        if op == "odd":
            return self(a[0]) & 1 == 1
        if op == "ba":
            if a[0] == "fle":
                return self(a[1]) <= self(a[2])
            if a[0] == "xor":
                return sum(bool(self(x)) for x in a[1:]) % 2 == 1
            if a[0].startswith("leaves@"):
                i = int(a[0][7:])
                self.run(next(r for r in self.recs if r["id"] == i))
                return self.done[("leaves", i)] == self(a[1])
            if a[0].startswith("after@"):
                return self.after(t)
            if a[0] in ("is_nan", "is_infinite"):
                return False
            if a[0] == "is_finite":
                return True
        if op in ("rsum", "isum", "ex", "last"):
            return self.binders(t)
        raise Unsupported("evaluation of %s" % op)

    def binders(self, t):
        op, a = t.op, t.a
        r = D(0) if op == "rsum" else 0 if op == "isum" else False if op == "ex" else self(a[3])
        todo = list(a[0])
        old = dict(self.env)

        def go(i):
            nonlocal r
            if i == len(todo):
                if op == "ex":
                    r = r or self(a[1])
                elif self(a[1]):
                    r = self(a[2]) if op == "last" else r + self(a[2])
                return
            b = todo[i]
            hi = self(b.a[1])
            for x in range((1 << hi) if b.op == "var" else hi):
                self.env[b] = x
                go(i + 1)
        go(0)
        self.env = old
        return r


class NoEnd(Exception):
    pass


def geo(x, y, neg):
    """sign of the product of two blades"""
    c = sum(bin(x & ((1 << j) - 1)).count("1") for j in range(64) if y >> j & 1) + bin(x & y & neg).count("1")
    return -1 if c & 1 else 1


MAG = [D("1e-9"), D("0.3"), D(1), D("2.5"), D(7), D(40), D(300)]


def families_mv(m, neg):
    """coefficients and eigenvalue"""
    grp = [0]
    sgn = {0: 1}
    for p, q in zip([i for i in range(m) if not neg >> i & 1], [i for i in range(m) if neg >> i & 1]):
        g = 1 << p | 1 << q
        e = 1 if geo(g, g, neg) == 1 else 0
        if not e:
            continue
        for x in list(grp):
            # the product of the generators themselves acts as +1 on the common eigenvector
            sgn[x ^ g] = sgn[x] * geo(x, g, neg)
            grp.append(x ^ g)
    for t in MAG:
        for sg in (1, -1):
            yield {0: sg * t}, sg * t
            n = len(grp)
            yield {x: sg * t * sgn[x] / n for x in grp}, sg * t
            if t >= 1:
                yield {x: sg * sgn[x] * D(1) for x in grp}, sg * D(n)
    pos = [i for i in range(m) if not neg >> i & 1]
    for i in pos[:2]:
        for t in MAG:
            yield {1 << i: t}, t
            yield {1 << i: t}, -t
            yield {0: t, 1 << i: t}, 2 * t
    for t in MAG[:-1]:
        yield {0: Z(0, t)}, Z(0, t)
        yield {0: Z(t, -t)}, Z(t, -t)
    for t in (D(70000), D(-70000), D(5000000000)):
        yield {0: t}, t
    yield {}, D(0)


def families_repr(n):
    for t in MAG:
        for sg in (1, -1):
            yield {(0, i, i): sg * t for i in range(n)}, sg * t
            yield {(0, i, j): sg * t / n for i in range(n) for j in range(n)}, sg * t
            yield {(0, 0, 0): sg * t}, sg * t
            yield {(0, i, j): sg * D(1) for i in range(n) for j in range(n)}, sg * D(n)
    for t in MAG[:-1]:
        yield {(0, i, i): Z(0, t) for i in range(n)}, Z(0, t)
        yield {(0, i, j): Z(t, -t) / n for i in range(n) for j in range(n)}, Z(t, -t)
    for t in (D(70000), D(-70000), D(5000000000)):
        yield {(0, 0, 0): t}, t
    if n > 1:
        for t in MAG:
            yield {(0, 0, 1): t, (0, 1, 0): t}, t
            yield {(0, 0, 1): t, (0, 1, 0): t}, -t


def run(cx):
    for lbl, ty in (("dense multivectors", mvty("array")), ("sparse multivectors", mvty("sparse"))):
        with cx.clause("exp of %s" % lbl):
            one(cx, ty, None)
    for par, what in PAR:
        with cx.clause("exp of fast representations, %s" % what):
            one(cx, fty(), dict(alg_of(par)))


def one(cx, ty, alg):
    getcontext().prec = 90
    getcontext().Emax, getcontext().Emin = 10 ** 15, -10 ** 15
    s = cx.sess(alg=alg, conf={"series": True}) if alg else cx.sess(conf={"series": True})
    t = s.method("exp", ty)
    pw = s.method("pow", ty)
    v = frepr(s, "a", alg) if alg else s.mv("a", ty)
    orig = []
    blank = slots(s.deep(v), orig)
    notes = {}
    mk_, val = install(s, ty, blank, orig, pw[0], notes)
    arg = s.ref(v)
    r = s.call(t, [arg])
    a, e = val(s.I, s.st, s.deep(r))
    if not a:
        raise Unsupported("result is not an element in the power-series domain")
    a, x = val(s.I, s.st, s.I.read(s.st, arg))
    if x is not rd("X"):
        cx.violate("changed", "exp changes its argument", where=where(t))
    recs = [ev for ev in s.I.events if ev["ev"] == "steps"]
    cx.extra = {"recurrences": len(recs)}
    worst = D(0)
    if alg:
        par = 1 if T.isint(sub(alg["H"], alg["h"])) and sub(alg["H"], alg["h"]).a[0] == 1 else 0
        cases = [({"h": h, "s": z}, {"R": 0, "I": 0}, fam) for h in range(0, 4 - par) for z in (0, 2)
                 for fam in families_repr(1 << (h + par))]
    else:
        dims = [(0, 0), (1, 0), (2, 2), (3, 4), (4, 12), (5, 0b10101), (6, 0b111000), (8, 0b11110000)]
        cases = [({"m": m, "s": z}, {"R": ((1 << m) - 1) & ~neg, "I": neg}, fam) for m, neg in dims for z in (0, 2)
                 if m + z <= 8 for fam in families_mv(m, neg)]
    for syms, masks, (co, lam) in cases:
        def read(name, ix, co=co):
            if name != "a":
                raise Unsupported("value of %s" % name)
            return co.get(ix if alg else ix[0], D(0))
        ev = Ev(syms, masks, read, lam, recs, notes)
        cx.cur["points"] += 1
        cx.points += 1
        try:
            got = ev(e)
        except NoEnd as x:
            cx.violate("diverges", "the summation does not end after 3000 passes", where=where(t),
                       detail={"argument": show(co), "in": str(x)})
            return
        except ArithmeticError:
            cx.violate("differs", "exp(x): the derived value is not a finite number", where=where(t),
                       detail={"derived_form": T.show(e)[:1500], "argument": show(co), "eigenvalue": str(lam)[:12]})
            return
        err = abs(got / lam.exp() - 1)
        worst = max(worst, err / (abs(lam) + 2))
        if err > 64 * (abs(lam) + 2) * EPS:
            cx.violate("differs", "exp(x): the series derived from the source does not approximate the exponential",
                       where=where(t), detail={"derived_form": T.show(e)[:1500], "signature": dict(syms, **masks),
                                               "argument": show(co), "eigenvalue": str(lam)[:12],
                                               "derived": str(got)[:24], "required": str(lam.exp())[:24],
                                               "relative error": "%.3e" % err})
            return
    cx.cur["compared"] += len(cases)
    cx.cur["worst_relative_error"] = "%.2e" % worst


def show(co):
    return ", ".join("%s: %s" % (k, str(v)[:12]) for k, v in list(co.items())[:20])
