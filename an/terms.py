"""Hash-consed terms: the value domain of the abstract interpreter.

Integer terms are kept in a polynomial normal form over "atoms" (dimension
symbols, index variables, powers of two with symbolic exponents, bit
operations, popcounts).  Ring terms are sums of ordered products of array
reads with scalar factors.  Nothing here refers to a concrete program run.
"""
from fractions import Fraction as Fr


class Unsupported(Exception):
    """A construct without a transfer function: the clause stays undecided."""


class N:
    __slots__ = ("op", "a", "id", "fv")

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]


def mk(op, *a):
    k = (op, a)
    n = _tab.get(k)
    if n is None:
        n = N()
        n.op = op
        n.a = a
        _cnt[0] += 1
        n.id = _cnt[0]
        n.fv = None
        _tab[k] = n
    return n


def isn(x):
    return isinstance(x, N)


_fresh = [0]


def fresh(p="v"):
    _fresh[0] += 1
    return "%s%d" % (p, _fresh[0])


# ------------------------------------------------------------------ integers
def INT(n):
    return mk("int", int(n))


ZERO = INT(0)
ONE = INT(1)
TRUE = mk("bool", True)
FALSE = mk("bool", False)
ALL64 = (1 << 64) - 1


def SYM(name):
    return mk("sym", name)


def VAR(name, e):
    return mk("var", name, e)


def NVAR(name, hi):
    return mk("nv", name, hi)


def LV(i, sort):
    return mk("lv", i, sort)


INT_OPS = {"int", "sym", "var", "nv", "poly", "and", "or", "xor", "not", "pc", "ilog2", "div",
           "rem", "shl", "shr", "ite", "mask", "tab", "ifn", "isum", "ior", "ixor", "p2", "cst"}
BOOL_OPS = {"semp", "bool", "eq", "lt", "bnot", "band", "bor", "isz", "req", "flt", "ex", "ba", "odd"}
RING_OPS = {"rc", "rd", "radd", "rmul", "rinv", "rite", "rsum", "rf", "rtab", "last"}


def sort(n):
    if n.op == "lv":
        return n.a[1]
    if n.op in INT_OPS:
        return "i"
    if n.op in BOOL_OPS:
        return "b"
    if n.op in RING_OPS:
        return "r"
    if n.op in STR_OPS:
        return "s"
    raise Unsupported("sort of " + n.op)


STR_OPS = {"str", "sf", "site", "scat", "sfor", "slast"}


def topoly(n):
    """-> dict mono -> coef ; mono = tuple of (atom, power) sorted by id."""
    if n.op == "int":
        return {(): n.a[0]} if n.a[0] else {}
    if n.op == "poly":
        return dict(n.a[0])
    return {((n, 1),): 1}


def frompoly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return INT(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple(sorted(p.items(), key=_monokey)))


def _monokey(it):
    m, c = it
    return (len(m), tuple((a.id, k) for a, k in m), c)


def _mulmono(m1, c1, m2, c2):
    d = {}
    e2 = None
    for a, k in m1 + m2:
        if a.op == "p2":
            for _ in range(k):
                e2 = a.a[0] if e2 is None else add(e2, a.a[0])
        else:
            d[a] = d.get(a, 0) + k
    c = c1 * c2
    if e2 is not None:
        c2_, p = _p2split(e2)
        c *= c2_
        if p is not None:
            d[p] = 1
    return tuple(sorted(d.items(), key=lambda t: t[0].id)), c


def _p2split(e):
    """2^e = (const, p2 atom or None)"""
    p = topoly(e)
    c = p.pop((), 0)
    if not p:
        if c < 0:
            raise Unsupported("negative power of two")
        return 1 << c, None
    if c < 0:
        return 1, mk("p2", e)
    return 1 << c, mk("p2", frompoly(p))


def p2(e):
    c, p = _p2split(e)
    if p is None:
        return INT(c)
    return frompoly({((p, 1),): c})


def add(*ts):
    r = {}
    for t in ts:
        if t.op == "ite" and any(x.op == "ite" for x in ts if x is not t) is False and len(ts) == 2:
            pass
        for m, c in topoly(t).items():
            r[m] = r.get(m, 0) + c
    return frompoly(r)


def sub(a, b):
    return add(a, scale(b, -1))


def scale(a, k):
    return frompoly({m: c * k for m, c in topoly(a).items()})


def mul(a, b):
    r = {}
    for m1, c1 in topoly(a).items():
        for m2, c2 in topoly(b).items():
            m, c = _mulmono(m1, c1, m2, c2)
            r[m] = r.get(m, 0) + c
    return frompoly(r)


def isint(n):
    return n.op == "int"


def shl(a, n):
    if isint(n) and n.a[0] >= 64:
        return mk("shl", a, n)
    if n.op == "ite":
        return ite(n.a[0], shl(a, n.a[1]), shl(a, n.a[2]))
    return mul(a, p2(n))


def shr(a, n):
    if isint(n) and n.a[0] == 0:
        return a
    if isint(a) and isint(n):
        return INT(a.a[0] >> n.a[0])
    if a is ZERO:
        return ZERO
    if isint(n):
        return div(a, INT(1 << n.a[0]))
    if a.op == "ite":
        return ite(a.a[0], shr(a.a[1], n), shr(a.a[2], n))
    # exact shift of a polynomial all of whose monomials carry 2^n
    p = topoly(a)
    out = {}
    rest = {}
    for m, c in p.items():
        e = None
        others = []
        for at, k in m:
            if at.op == "p2":
                e = at.a[0]
            else:
                others.append((at, k))
        if e is not None:
            d = sub(e, n)
            if nonneg(d):
                c2, pp = _p2split(d)
                mm = tuple(sorted(others + ([(pp, 1)] if pp is not None else []), key=lambda t: t[0].id))
                out[mm] = out.get(mm, 0) + c * c2
                continue
        rest[m] = c
    if not rest:
        return frompoly(out)
    r = frompoly(rest)
    if below(r, p2(n)) and nonneg(r):
        return frompoly(out)
    return mk("shr", a, n)


def div(a, b):
    if isint(b):
        k = b.a[0]
        if k == 0:
            raise Unsupported("division by zero")
        if k == 1:
            return a
        if isint(a) and a.a[0] >= 0 and k > 0:
            return INT(a.a[0] // k)
        if a.op == "ite":
            return ite(a.a[0], div(a.a[1], b), div(a.a[2], b))
        p = topoly(a)
        q, r = {}, {}
        for m, c in p.items():
            if c % k == 0:
                q[m] = c // k
            elif m == ():
                q[m] = c // k
                r[m] = c % k
            else:
                r[m] = c
        if set(r) <= {()} and nonneg(a):
            return frompoly(q)
        if k & (k - 1) == 0:
            # p2(e)/2^j with e >= j provable
            j = k.bit_length() - 1
            if len(p) == 1:
                (m, c), = p.items()
                if c == 1 and len(m) == 1 and m[0][0].op == "p2":
                    e = sub(m[0][0].a[0], INT(j))
                    if nonneg(e):
                        return p2(e)
        return mk("div", a, b)
    pb = topoly(b)
    if len(pb) == 1:
        (m, c), = pb.items()
        if c == 1 and len(m) == 1 and m[0][0].op == "p2":
            return shr(a, m[0][0].a[0])
    return mk("div", a, b)


def rem(a, b):
    if isint(b):
        k = b.a[0]
        if k == 1:
            return ZERO
        if isint(a) and a.a[0] >= 0:
            return INT(a.a[0] % k)
        if a.op == "ite":
            return ite(a.a[0], rem(a.a[1], b), rem(a.a[2], b))
        if k > 0:
            p = {m: c % k for m, c in topoly(a).items()}
            r = frompoly(p)
            if isint(r):
                return INT(r.a[0] % k)
            if nonneg(a):
                return mk("rem", r, b)
    return mk("rem", a, b)


def _bitn(op, ts):
    flat = []
    for t in ts:
        if t.op == op:
            flat.extend(t.a[0])
        else:
            flat.append(t)
    return flat


def xor(*ts):
    flat = _bitn("xor", ts)
    c = 0
    cnt = {}
    for t in flat:
        if isint(t):
            c ^= t.a[0]
        else:
            cnt[t] = cnt.get(t, 0) ^ 1
    out = sorted([t for t, k in cnt.items() if k], key=lambda t: t.id)
    if not out:
        return INT(c)
    if c:
        out = [INT(c)] + out
    if len(out) == 1:
        return out[0]
    for i, t in enumerate(out):
        if t.op == "ite" and (isint(t.a[1]) and isint(t.a[2])):
            rest = out[:i] + out[i + 1:]
            return ite(t.a[0], xor(t.a[1], *rest), xor(t.a[2], *rest))
    r = _maskpair(out)
    if r is not None:
        return xor(*r)
    return mk("xor", tuple(out))


def _maskpair(out):
    """R (op) I -> block of ones (disjoint, complementary) for or/xor."""
    byo = {}
    for t in out:
        if t.op == "mask":
            byo.setdefault(t.a[1], {})[t.a[0]] = t
    for m, d in byo.items():
        if "R" in d and "I" in d:
            rest = [t for t in out if t is not d["R"] and t is not d["I"]]
            return rest + [sub(p2(m), ONE)]
    return None


def _blocks(t):
    """polynomial that is a union of blocks of ones: list of (lo, hi) exponents or None"""
    p = topoly(t)
    if t.op in ("var", "mask"):
        return None
    if not p:
        return []
    if len(p) == 2:
        items = list(p.items())
        pos = [m for m, c in items if c > 0]
        neg = [m for m, c in items if c < 0]
        if len(pos) == 1 and len(neg) == 1:
            he = _monoexp(pos[0], p[pos[0]])
            le = _monoexp(neg[0], -p[neg[0]])
            if he is not None and le is not None and nonneg(sub(he, le)):
                return [(le, he)]
    if isint(t):
        v = t.a[0]
        if v >= 0 and (v & (v + 1)) == 0:
            return [(ZERO, INT(v.bit_length()))]
    return None


def _monoexp(m, c):
    """mono*c = 2^e -> e"""
    if c <= 0 or c & (c - 1):
        return None
    j = c.bit_length() - 1
    if m == ():
        return INT(j)
    if len(m) == 1 and m[0][0].op == "p2" and m[0][1] == 1:
        return add(m[0][0].a[0], INT(j))
    return None


def or_(*ts):
    flat = _bitn("or", ts)
    c = 0
    s = set()
    for t in flat:
        if isint(t):
            c |= t.a[0]
        else:
            s.add(t)
    if not s:
        return INT(c)
    out = sorted(s, key=lambda t: t.id)
    if c:
        out = [INT(c)] + out
    if len(out) == 1:
        return out[0]
    for i, t in enumerate(out):
        if t.op == "ite" and (isint(t.a[1]) and isint(t.a[2])):
            rest = out[:i] + out[i + 1:]
            return ite(t.a[0], or_(t.a[1], *rest), or_(t.a[2], *rest))
    r = _maskpair(out)
    if r is not None:
        return or_(*r)
    # adjacent / disjoint blocks of ones
    for i in range(len(out)):
        for j in range(i + 1, len(out)):
            bi, bj = _blocks(out[i]), _blocks(out[j])
            if bi and bj and len(bi) == 1 and len(bj) == 1:
                (l1, h1), (l2, h2) = bi[0], bj[0]
                rest = [t for k, t in enumerate(out) if k not in (i, j)]
                if h1 is l2 or h2 is l1:
                    return or_(add(out[i], out[j]), *rest) if rest else add(out[i], out[j])
            # mask inside a covering block
            for x, y in ((i, j), (j, i)):
                bx = _blocks(out[x])
                if bx and len(bx) == 1 and bx[0][0] is ZERO:
                    sy = support(out[y])
                    if sy is not None and nonneg(sub(bx[0][1], sy)):
                        rest = [t for k, t in enumerate(out) if k not in (i, j)]
                        return or_(out[x], *rest) if rest else out[x]
    return mk("or", tuple(out))


def and_(*ts):
    flat = _bitn("and", ts)
    c = ALL64
    s = set()
    for t in flat:
        if isint(t):
            if t.a[0] < 0:
                c &= t.a[0] & ALL64
            else:
                c &= t.a[0]
        else:
            s.add(t)
    if c == 0:
        return ZERO
    if not s:
        return INT(c)
    out = sorted(s, key=lambda t: t.id)
    for t in out:
        if t.op == "not" and t.a[0] in s:
            return ZERO
    # disjoint masks
    ms = [t for t in out if t.op == "mask"]
    if len({t.a[0] for t in ms if t.a[1] is (ms[0].a[1] if ms else None)}) > 1:
        return ZERO
    for i, t in enumerate(out):
        if t.op == "ite" and isint(t.a[1]) and isint(t.a[2]):
            rest = out[:i] + out[i + 1:] + ([INT(c)] if c != ALL64 else [])
            return ite(t.a[0], and_(t.a[1], *rest), and_(t.a[2], *rest))
    # covering block of ones absorbs
    if c == 1 and len(out) == 1:
        return rem(out[0], INT(2))
    if c != ALL64:
        if (c & (c + 1)) == 0:
            w = INT(c.bit_length())
            out2 = [t for t in out if support(t) is not None and nonneg(sub(w, support(t)))]
            if out2:
                c = ALL64
    if len(out) > 1:
        keep = []
        for i, t in enumerate(out):
            b = _blocks(t)
            if b and len(b) == 1:
                lo, hi = b[0]
                others = [u for j, u in enumerate(out) if j != i and not (_blocks(u))]
                if lo is ZERO and any(support(u) is not None and nonneg(sub(hi, support(u))) for u in others):
                    continue
                if any(support(u) is not None and nonneg(sub(lo, support(u))) for u in out if u is not t):
                    return ZERO
            keep.append(t)
        out = keep
    if c != ALL64:
        out = [INT(c)] + out
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out))


def not_(a):
    if isint(a):
        return INT(ALL64 ^ (a.a[0] & ALL64))
    if a.op == "not":
        return a.a[0]
    if a.op == "ite":
        return ite(a.a[0], not_(a.a[1]), not_(a.a[2]))
    return mk("not", a)


def pc(a):
    if isint(a):
        return INT(bin(a.a[0] & ALL64).count("1"))
    b = _blocks(a)
    if b is not None:
        r = ZERO
        for lo, hi in b:
            r = add(r, sub(hi, lo))
        return r
    if a.op == "ite":
        return ite(a.a[0], pc(a.a[1]), pc(a.a[2]))
    if a.op == "mask" and a.a[0] == "I":
        return sub(a.a[1], mk("pc", MASK("R", a.a[1])))
    p = topoly(a)
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and c & (c - 1) == 0:
            others = [(at, k) for at, k in m if at.op != "p2"]
            if not others:
                return ONE
            if len(others) == 1 and others[0][1] == 1 and (c != 1 or len(m) > 1):
                return pc(others[0][0])
    return mk("pc", a)


def ilog2(a):
    if isint(a) and a.a[0] > 0:
        return INT(a.a[0].bit_length() - 1)
    p = topoly(a)
    if len(p) == 1:
        (m, c), = p.items()
        e = _monoexp(m, c)
        if e is not None:
            return e
    return mk("ilog2", a)


def MASK(kind, m):
    return mk("mask", kind, m)


def support(t):
    """e with 0 <= t < 2^e, or None"""
    op = t.op
    if op == "int":
        return INT(t.a[0].bit_length()) if t.a[0] >= 0 else None
    if op == "var":
        return t.a[1]
    if op == "mask":
        return t.a[1]
    if op == "and":
        best = None
        for u in t.a[0]:
            s = support(u)
            if s is not None and (best is None or nonneg(sub(best, s))):
                best = s
        return best
    if op in ("or", "xor"):
        best = ZERO
        for u in t.a[0]:
            s = support(u)
            if s is None:
                return None
            if nonneg(sub(s, best)):
                best = s
            elif not nonneg(sub(best, s)):
                return None
        return best
    if op == "ite":
        a, b = support(t.a[1]), support(t.a[2])
        if a is None or b is None:
            return None
        return a if nonneg(sub(a, b)) else (b if nonneg(sub(b, a)) else None)
    if op == "poly":
        b = _blocks(t)
        if b and len(b) == 1:
            return b[0][1]
        p = topoly(t)
        # sum of disjointly placed words:  w*2^a + u,  u < 2^a
        parts = []
        for m, c in p.items():
            if c <= 0 or c & (c - 1):
                return None
            off = INT(c.bit_length() - 1)
            base = None
            for at, k in m:
                if at.op == "p2":
                    off = add(off, at.a[0])
                elif base is None and k == 1:
                    base = at
                else:
                    return None
            se = INT(1) if base is None else support(base)
            if se is None:
                return None
            parts.append((off, add(off, se)))
        parts = _sortparts(parts)
        if parts is None:
            return None
        for (l1, h1), (l2, h2) in zip(parts, parts[1:]):
            if not nonneg(sub(l2, h1)):
                return None
        return parts[-1][1] if parts else ZERO
    return None


def _sortparts(parts):
    out = []
    for q in parts:
        i = 0
        while i < len(out) and nonneg(sub(q[0], out[i][0])):
            i += 1
        out.insert(i, q)
    return out


# ---- sign reasoning on polynomials --------------------------------------
_nn = {}


def nonneg(t):
    r = _nn.get(t)
    if r is None:
        _nn[t] = False
        r = _nonneg(t, 0)
        _nn[t] = r
    return r


def _ub(atom):
    if atom.op == "var":
        return sub(p2(atom.a[1]), ONE)
    if atom.op == "nv":
        return sub(atom.a[1], ONE)
    if atom.op == "mask":
        return sub(p2(atom.a[1]), ONE)
    if atom.op == "pc":
        s = support(atom.a[0])
        return s
    if atom.op == "rem" and isint(atom.a[1]):
        return sub(atom.a[1], ONE)
    if atom.op in ("and", "or", "xor"):
        s = support(atom)
        if s is not None:
            return sub(p2(s), ONE)
    if atom.op == "ite":
        return None
    return None


_nb = {}
MAXDIM = 63


def most(t):
    """a number no value of t exceeds (for dimensions up to MAXDIM), or None when not known to be that and >= 0"""
    r = _nb.get(t, 0)
    if r != 0:
        return r if r != -1 else 0
    r = _most(t)
    _nb[t] = -1 if r == 0 else r
    return r


def _most(t):
    if t.op == "int":
        return t.a[0] if t.a[0] >= 0 else None
    if t.op == "sym":
        return MAXDIM if t.a[0] in ("m", "s", "D") else None
    if t.op in ("var", "mask"):
        e = most(t.a[1])
        return (1 << min(e, MAXDIM + 1)) - 1 if e is not None else None
    if t.op == "nv":
        e = most(t.a[1])
        return max(e - 1, 0) if e is not None else None
    if t.op == "p2":
        e = most(t.a[0])
        return 1 << e if e is not None and e <= 128 else None
    if t.op == "pc":
        return 64
    if t.op == "ilog2":
        return 64
    if t.op == "rem":
        e = most(t.a[1])
        return max(e - 1, 0) if e is not None and nonneg(t.a[0]) else None
    if t.op == "ite":
        x, y = most(t.a[1]), most(t.a[2])
        return max(x, y) if x is not None and y is not None else None
    if t.op == "and":
        bs = [b for b in (most(x) for x in t.a[0]) if b is not None]
        return min(bs) if bs else None
    if t.op in ("or", "xor"):
        bs = [most(x) for x in t.a[0]]
        return (1 << max(bs).bit_length()) - 1 if None not in bs else None
    if t.op in ("div", "shr"):
        return most(t.a[0])
    if t.op == "poly":
        tot = 0
        for m, c in topoly(t).items():
            if c < 0:
                continue
            v = c
            for at, k in m:
                b = most(at)
                if b is None or k > 4:
                    return None
                v *= b ** k
            tot += v
        if any(c < 0 for c in topoly(t).values()) and not nonneg(t):
            return None
        return tot
    return None


def wrap(t, ty):
    """the integer t kept in a variable of a narrow type"""
    if ty[0] != "prim" or ty[1] not in NARROW or sort(t) != "i":
        return t
    signed, w = NARROW[ty[1]]
    if isint(t):
        v = t.a[0] % (1 << w)
        return INT(v - (1 << w) if signed and v >> (w - 1) else v)
    b = most(t)
    if b is not None and b < 1 << (w - signed):
        return t
    if b is None and not nonneg(t):
        return t
    r = and_(t, INT((1 << w) - 1))
    return ite(lt(r, INT(1 << (w - 1))), r, sub(r, INT(1 << w))) if signed else r


NARROW = {"u8": (0, 8), "u16": (0, 16), "u32": (0, 32), "i8": (1, 8), "i16": (1, 16), "i32": (1, 32), "i64": (1, 64),
          "isize": (1, 64)}


def _natural(atom):
    return atom.op in ("sym", "var", "nv", "mask", "p2", "pc", "rem", "and", "or", "xor", "div", "shr",
                       "ilog2", "len", "ior", "ixor")


def _nonneg(t, depth):
    p = topoly(t)
    if not p:
        return True
    if t.op == "ite":
        return nonneg(t.a[1]) and nonneg(t.a[2])
    if set(p) == {()}:
        return p[()] >= 0
    if depth > 6:
        return False
    for m, c in p.items():
        if c < 0:
            for at, k in m:
                if at.op == "p2":
                    continue
                u = _ub(at)
                if u is None:
                    continue
                # replace one factor by its upper bound (coefficient negative)
                if all(_natural(b) for b, _ in m):
                    rest = tuple((b, kk - (1 if b is at else 0)) for b, kk in m if kk - (1 if b is at else 0) > 0)
                    q = dict(p)
                    del q[m]
                    return _nonneg(add(frompoly(q), mul(frompoly({rest: c}), u)), depth + 1)
    negs = [(m, c) for m, c in p.items() if c < 0]
    poss = [(m, c) for m, c in p.items() if c > 0]
    for m, c in poss:
        for at, k in m:
            if not _natural(at):
                return False
    if not negs:
        return True
    # constants against minimal values of the positive part
    if len(negs) == 1 and negs[0][0] == ():
        lo = 0
        for m, c in poss:
            if all(at.op == "p2" for at, k in m):
                lo += c
        return lo + negs[0][1] >= 0
    # dominate each negative monomial by a positive one with a larger exponent
    poss = dict(poss)
    for m, c in negs:
        c = -c
        for m2 in sorted(poss, key=lambda q: len(q)):
            if poss[m2] <= 0:
                continue
            if m == () and all(at.op == "p2" for at, k in m2):
                ok = True
            else:
                ok = _dominates(m2, m)
            if ok:
                k = min(c, poss[m2])
                poss[m2] -= k
                c -= k
                if c == 0:
                    break
        if c > 0:
            return False
    return True


def _dominates(m2, m1):
    """m2 >= m1 for natural values"""
    d2 = {at: k for at, k in m2 if at.op != "p2"}
    d1 = {at: k for at, k in m1 if at.op != "p2"}
    if d1 != d2:
        return False
    e2 = next((at.a[0] for at, k in m2 if at.op == "p2"), ZERO)
    e1 = next((at.a[0] for at, k in m1 if at.op == "p2"), ZERO)
    return nonneg(sub(e2, e1))


def below(a, b):
    """a < b provable"""
    return nonneg(sub(sub(b, a), ONE))


# ------------------------------------------------------------------- bools
def eq(a, b):
    if a is b:
        return TRUE
    if sort(a) == "b":
        return bor(band(a, b), band(bnot(a), bnot(b)))
    if sort(a) == "r" or sort(b) == "r":
        return req(a, b)
    if sort(a) == "s":
        if a.op == "str" and b.op == "str":
            return TRUE if a.a[0] == b.a[0] else FALSE
        return mk("ba", "streq", *sorted((a, b), key=lambda t: t.id))
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and (isint(y) or y.op != "ite"):
            if isint(x.a[1]) or isint(x.a[2]) or x.a[1].op == "ite" or x.a[2].op == "ite":
                return bite(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
    if isint(a) and isint(b):
        return FALSE
    d = sub(a, b)
    if isint(d):
        return TRUE if d is ZERO else FALSE
    if nonneg(sub(d, ONE)) or nonneg(sub(scale(d, -1), ONE)):
        return FALSE
    # x ^ y == 0  <->  x == y ; x ^ z == y ^ z
    if a.op == "xor" or b.op == "xor":
        sa = set(a.a[0]) if a.op == "xor" else {a}
        sb = set(b.a[0]) if b.op == "xor" else {b}
        com = sa & sb
        if com:
            return eq(xor(*(sa - com)) if sa - com else ZERO, xor(*(sb - com)) if sb - com else ZERO)
    # rem(x,2) == 1  <-> odd
    for x, y in ((a, b), (b, a)):
        if x.op == "rem" and x.a[1] is INT(2) and isint(y):
            if y.a[0] == 0:
                return bnot(odd(x.a[0]))
            if y.a[0] == 1:
                return odd(x.a[0])
            return FALSE
        if x.op == "rem" and isint(x.a[1]) and isint(y) and not (0 <= y.a[0] < x.a[1].a[0]):
            return FALSE
    # scale out a common power of two:  2^e * x == 0
    if isint(a) or isint(b):
        x, y = (a, b) if isint(b) else (b, a)
        if y is ZERO and x.op == "poly":
            p = topoly(x)
            if len(p) == 1:
                (m, c), = p.items()
                oth = [(at, k) for at, k in m if at.op != "p2"]
                if not oth:
                    return FALSE
                if len(oth) == 1 and (len(m) > 1 or c != 1):
                    return eq(oth[0][0], ZERO)
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def odd(x):
    if isint(x):
        return TRUE if x.a[0] & 1 else FALSE
    p = {m: c % 2 for m, c in topoly(x).items()}
    x2 = frompoly(p)
    if isint(x2):
        return TRUE if x2.a[0] & 1 else FALSE
    c = p.get((), 0)
    if c:
        del p[()]
        return bnot(odd(frompoly(p)))
    if x2.op == "ite":
        return bite(x2.a[0], odd(x2.a[1]), odd(x2.a[2]))
    if x2.op == "rem" and isint(x2.a[1]) and x2.a[1].a[0] % 2 == 0:
        return odd(x2.a[0])
    if len(p) > 1:
        parts = [odd(frompoly({m: k})) for m, k in p.items()]
        return bxor(*parts)
    return mk("odd", x2)


def bxor(*ps):
    """parity of a set of bools, kept flat"""
    neg = False
    cnt = {}
    st = list(ps)
    while st:
        q = st.pop()
        if q is TRUE:
            neg = not neg
        elif q is FALSE:
            pass
        elif q.op == "bnot":
            neg = not neg
            st.append(q.a[0])
        elif q.op == "ba" and q.a[0] == "xor":
            st.extend(q.a[1:])
        else:
            cnt[q] = cnt.get(q, 0) ^ 1
    out = sorted([q for q, k in cnt.items() if k], key=lambda t: t.id)
    if not out:
        r = FALSE
    elif len(out) == 1:
        r = out[0]
    else:
        r = mk("ba", "xor", *out)
    return bnot(r) if neg else r


def lt(a, b):
    if a is b:
        return FALSE
    if sort(a) == "r" or sort(b) == "r":
        return mk("flt", a, b)
    if below(a, b):
        return TRUE
    if nonneg(sub(a, b)):
        return FALSE
    for x in (a, b):
        if x.op == "ite":
            return bite(x.a[0], lt(x.a[1] if x is a else a, x.a[1] if x is b else b),
                        lt(x.a[2] if x is a else a, x.a[2] if x is b else b))
    # word below a power of two by support
    p = topoly(b)
    if len(p) == 1:
        (m, c), = p.items()
        e = _monoexp(m, c)
        if e is not None:
            s = support(a)
            if s is not None and nonneg(sub(e, s)):
                return TRUE
    if a is ZERO and nonneg(b):
        return bnot(eq(b, ZERO))
    if b is ONE and nonneg(a):
        return eq(a, ZERO)
    d = sub(b, a)
    pd = {m: c for m, c in topoly(d).items()}
    # canonical orientation on pure numbers: keep (a, b)
    return mk("lt", a, b)


def le(a, b):
    return bnot(lt(b, a))


def bnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "bnot":
        return c.a[0]
    if c.op == "band" or c.op == "bor":
        r = _bn.get(c)
        if r is None:
            r = _bn[c] = (bor if c.op == "band" else band)(*[bnot(x) for x in c.a[0]])
        return r
    return mk("bnot", c)


_bn = {}


_bm = {}


def _bool_nary(op, ts, unit, zero):
    r = _bm.get((op, ts))
    if r is None:
        r = _bm[(op, ts)] = _bool_nary1(op, ts, unit, zero)
    return r


def _bool_nary1(op, ts, unit, zero):
    s = set()
    for t in ts:
        if t is unit:
            continue
        if t is zero:
            return zero
        if t.op == op:
            s.update(t.a[0])
        else:
            s.add(t)
    for t in s:
        if t.op == "bnot" and t.a[0] in s:
            return zero
    # absorption / unit resolution against the dual operator
    dual = "bor" if op == "band" else "band"
    changed = True
    while changed:
        changed = False
        for t in sorted([t for t in s if t.op == dual], key=lambda t: t.id):
            if t.op == dual:
                parts = t.a[0]
                if any(p in s for p in parts):
                    s.discard(t)
                    changed = True
                    break
                keep = [p for p in parts if bnot(p) not in s]
                if len(keep) != len(parts):
                    s.discard(t)
                    r = (bor if op == "band" else band)(*keep)
                    if r is zero:
                        return zero
                    if r is not unit:
                        if r.op == op:
                            s.update(r.a[0])
                        else:
                            s.add(r)
                    changed = True
                    break
    for t in s:
        if bnot(t) in s:
            return zero
    if not s:
        return unit
    if len(s) == 1:
        return next(iter(s))
    return mk(op, tuple(sorted(s, key=lambda t: t.id)))


def band(*ts):
    return _bool_nary("band", ts, TRUE, FALSE)


def bor(*ts):
    return _bool_nary("bor", ts, FALSE, TRUE)


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return bor(band(c, a), band(bnot(c), b))


# ------------------------------------------------------------------- ring
def rc(re, im=0):
    return mk("rc", Fr(re), Fr(im))


R0 = rc(0)
R1 = rc(1)


def rd(name, *idx):
    return mk("rd", name, tuple(idx))


def radd(*ts):
    flat = []
    cr, ci = Fr(0), Fr(0)
    for t in ts:
        if t.op == "rc":
            cr += t.a[0]
            ci += t.a[1]
        elif t.op == "radd":
            for u in t.a[0]:
                if u.op == "rc":
                    cr += u.a[0]
                    ci += u.a[1]
                else:
                    flat.append(u)
        else:
            flat.append(t)
    # collect equal terms
    cnt = {}
    for t in flat:
        k, b = _coef(t)
        if b in cnt:
            cnt[b] = (cnt[b][0] + k[0], cnt[b][1] + k[1])
        else:
            cnt[b] = k
    out = []
    for b, k in cnt.items():
        if k == (0, 0):
            continue
        out.append(b if k == (1, 0) else rmul(mk("rc", k[0], k[1]), b))
    if cr or ci:
        out.append(mk("rc", cr, ci))
    if not out:
        return R0
    if len(out) == 1:
        return out[0]
    return mk("radd", tuple(sorted(out, key=lambda t: t.id)))


def _coef(t):
    if t.op == "rmul" and t.a[0][0].op == "rc":
        c = t.a[0][0]
        rest = t.a[0][1:]
        return (c.a[0], c.a[1]), (rest[0] if len(rest) == 1 else mk("rmul", rest))
    return (Fr(1), Fr(0)), t


def rneg(t):
    return rmul(rc(-1), t)


def rsub(a, b):
    return radd(a, rneg(b))


def rmul(*ts):
    cr, ci = Fr(1), Fr(0)
    out = []
    for t in ts:
        us = t.a[0] if t.op == "rmul" else (t,)
        for u in us:
            if u.op == "rc":
                cr, ci = cr * u.a[0] - ci * u.a[1], cr * u.a[1] + ci * u.a[0]
            else:
                out.append(u)
    if cr == 0 and ci == 0:
        return R0
    if not out:
        return mk("rc", cr, ci)
    if (cr, ci) != (1, 0):
        if len(out) == 1 and out[0].op == "radd":
            c = mk("rc", cr, ci)
            return radd(*[rmul(c, u) for u in out[0].a[0]])
        out = [mk("rc", cr, ci)] + out
    if len(out) == 1:
        return out[0]
    return mk("rmul", tuple(out))


def rinv(t):
    if t.op == "rc":
        d = t.a[0] ** 2 + t.a[1] ** 2
        if d == 0:
            return mk("rinv", t)
        return mk("rc", t.a[0] / d, -t.a[1] / d)
    return mk("rinv", t)


def rite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "bnot":
        return rite(c.a[0], b, a)
    if a.op == "rite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "rite" and b.a[0] is c:
        b = b.a[2]
    # is_zero(v) ? X : Y  with X = Y[v := 0]
    if a is b:
        return a
    if c.op == "isz" and a is R0 and vanishes(b, c.a[0]):
        return b
    if c.op == "isz" and b is R0 and vanishes(a, c.a[0]):
        return R0
    if a.op == "rite" and b.op == "rite" and a.a[0] is b.a[0]:
        e = a.a[0]
        if a.a[2] is b.a[2]:
            return rite(e, rite(c, a.a[1], b.a[1]), a.a[2])
        if a.a[1] is b.a[1]:
            return rite(e, a.a[1], rite(c, a.a[2], b.a[2]))
    if a.op == "rite" and a.a[2] is b:
        return rite(band(c, a.a[0]), a.a[1], b)
    if a.op == "rite" and a.a[1] is b:
        return rite(band(c, bnot(a.a[0])), a.a[2], b)
    if b.op == "rite" and b.a[1] is a:
        return rite(bor(c, b.a[0]), a, b.a[2])
    if b.op == "rite" and b.a[2] is a:
        return rite(bor(c, bnot(b.a[0])), a, b.a[1])
    # guard conjuncts of the form x != 0 are implied when the value vanishes with x
    if b is R0 and c.op == "band":
        keep = [g for g in c.a[0] if not (g.op == "bnot" and g.a[0].op == "isz" and vanishes(a, g.a[0].a[0]))]
        if len(keep) != len(c.a[0]):
            return rite(band(*keep), a, b)
    if a is R0 and c.op == "bor":
        keep = [g for g in c.a[0] if not (g.op == "isz" and vanishes(b, g.a[0]))]
        if len(keep) != len(c.a[0]):
            return rite(bor(*keep), a, b)
    return mk("rite", c, a, b)


STRICT = {"conj", "norm", "sqrt", "into_c", "from_c", "re", "im", "f32"}


def vanishes(a, x):
    """a is zero whenever x is"""
    if a is x or a is R0:
        return True
    op = a.op
    if op == "rmul":
        return any(vanishes(u, x) for u in a.a[0])
    if op == "radd":
        return all(vanishes(u, x) for u in a.a[0])
    if op == "rite":
        return vanishes(a.a[1], x) and vanishes(a.a[2], x)
    if op == "rsum":
        return vanishes(a.a[2], x)
    if op == "rf" and a.a[0] in STRICT:
        return vanishes(a.a[1], x)
    if op == "rtab":
        return all(vanishes(u, x) for u in a.a[1])
    return False


# a coefficient that is zero but still occupies a map entry; arithmetic treats it as zero
KEPT0 = mk("rf", "kept0")


def isz(t):
    if t is KEPT0:
        return TRUE
    if t.op == "rc":
        return TRUE if t.a == (0, 0) else FALSE
    if t.op == "rf" and t.a[0] in ("conj", "norm"):
        return isz(t.a[1])
    if t.op == "rmul" and t.a[0][0].op == "rc":
        rest = t.a[0][1:]
        return isz(rest[0] if len(rest) == 1 else mk("rmul", rest))
    if t.op == "rite":
        return bite(t.a[0], isz(t.a[1]), isz(t.a[2]))
    return mk("isz", t)


def req(a, b):
    if a is b:
        return TRUE
    if a.op == "rc" and b.op == "rc":
        return FALSE
    if b is R0:
        return isz(a)
    if a is R0:
        return isz(b)
    if a.id > b.id:
        a, b = b, a
    return mk("req", a, b)


def rsum(binders, guard, body):
    if body is R0 or guard is FALSE:
        return R0
    if not binders:
        return rite(guard, body, R0)
    return mk("rsum", tuple(binders), guard, body)


def rf(name, *args):
    if name == "conj":
        x = args[0]
        if x.op == "rc":
            return mk("rc", x.a[0], -x.a[1])
        if x.op == "rf" and x.a[0] == "conj":
            return x.a[1]
        if x.op == "rite":
            return rite(x.a[0], rf("conj", x.a[1]), rf("conj", x.a[2]))
        if x.op == "radd":
            return radd(*[rf("conj", u) for u in x.a[0]])
        if x.op == "rmul" and x.a[0][0].op == "rc":
            c = x.a[0][0]
            return rmul(rf("conj", c), rf("conj", rmul(*x.a[0][1:])))
        if x.op == "rsum":
            return rsum(x.a[0], x.a[1], rf("conj", x.a[2]))
    if name in ("re", "im", "from_c", "into_c", "f32", "sqrt", "norm"):
        x = args[0]
        if x.op == "rite":
            return rite(x.a[0], rf(name, x.a[1]), rf(name, x.a[2]))
        if x is R0:
            return R0
        if x.op == "rc" and name == "re":
            return mk("rc", x.a[0], Fr(0))
        if x.op == "rc" and name == "im":
            return mk("rc", x.a[1], Fr(0))
    if name == "norm" and args[0].op == "rmul" and args[0].a[0][0].op == "rc" and \
            args[0].a[0][0].a in ((-1, 0), (1, 0), (0, 1), (0, -1)):
        rest = args[0].a[0][1:]
        return rf("norm", rest[0] if len(rest) == 1 else mk("rmul", rest))
    return mk("rf", name, *args)


def rtab(idx, vals):
    vals = tuple(vals)
    if isint(idx) and 0 <= idx.a[0] < len(vals):
        return vals[idx.a[0]]
    if idx.op == "ite":
        return rite(idx.a[0], rtab(idx.a[1], vals), rtab(idx.a[2], vals))
    return mk("rtab", idx, vals)


def ite(c, a, b):
    """generic scalar merge"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    s = sort(a)
    if s == "r":
        return rite(c, a, b)
    if s == "b":
        return bite(c, a, b)
    if s == "s":
        if c.op == "bnot":
            return ite(c.a[0], b, a)
        # equal beginnings stay outside, so that appending under a condition is seen as appending
        pa, pb = sparts(a), sparts(b)
        n = 0
        while n < len(pa) and n < len(pb) and pa[n] is pb[n]:
            n += 1
        if n:
            return scat(*pa[:n], ite(c, scat(*pa[n:]), scat(*pb[n:])))
        return mk("site", c, a, b)
    if c.op == "bnot":
        return ite(c.a[0], b, a)
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk("ite", c, a, b)


# ----------------------------------------------------------------- strings
def sparts(s):
    """concatenation -> list of parts"""
    if s.op == "scat":
        return list(s.a[0])
    return [] if s.op == "str" and s.a[0] == "" else [s]


def scat(*xs):
    out = []
    for x in xs:
        for p in sparts(x):
            if out and p.op == "str" and out[-1].op == "str":
                out[-1] = mk("str", out[-1].a[0] + p.a[0])
            else:
                out.append(p)
    if not out:
        return mk("str", "")
    return out[0] if len(out) == 1 else mk("scat", tuple(out))


def sfor(binders, guard, pos, body):
    """concatenation of body over the binder values satisfying guard, in ascending order of pos"""
    if guard is FALSE or (body.op == "str" and body.a[0] == ""):
        return mk("str", "")
    return mk("sfor", tuple(binders), guard, tuple(pos), body)


def sempty(s):
    """the string is empty (names and renderings of values are not)"""
    if s.op == "str":
        return TRUE if s.a[0] == "" else FALSE
    if s.op == "scat":
        return band(*[sempty(p) for p in s.a[0]])
    if s.op == "site":
        return bite(s.a[0], sempty(s.a[1]), sempty(s.a[2]))
    if s.op == "sfor":
        return bnot(exists(s.a[0], band(s.a[1], bnot(sempty(s.a[3])))))
    if s.op == "sf":
        return eq(s.a[1], ZERO) if s.a[0] in ("label", "label_rev") else FALSE
    return mk("semp", s)


def exists(binders, g):
    if g is FALSE:
        return FALSE
    if not binders:
        return g
    fv = freevars(g)
    bs = [b for b in binders if b in fv]
    if not bs and g is not TRUE:
        # domain emptiness is not tracked here: keep binders
        pass
    if g.op == "bor":
        return bor(*[exists(binders, x) for x in g.a[0]])
    return mk("ex", tuple(binders), g)


# ------------------------------------------------------------- traversal
def children(n):
    for x in n.a:
        if isn(x):
            yield x
        elif isinstance(x, tuple):
            yield from _tupch(x)


def _tupch(t):
    for y in t:
        if isn(y):
            yield y
        elif isinstance(y, tuple):
            yield from _tupch(y)


_EMPTY = frozenset()


def freevars(n):
    if n.fv is not None:
        return n.fv
    if n.op in ("var", "nv", "lv", "sym"):
        s = frozenset([n]) | frozenset().union(*[freevars(c) for c in children(n)]) \
            if n.op in ("var", "nv") else frozenset([n])
    else:
        s = frozenset().union(*[freevars(c) for c in children(n)]) if True else _EMPTY
        if n.op in ("rsum", "ex", "isum", "ior", "ixor", "last", "sfor", "slast"):
            s = s - frozenset(n.a[0])
    n.fv = s
    return s


def reads(n, acc=None, seen=None):
    """set of 'rd' nodes in a term"""
    if acc is None:
        acc, seen = set(), set()
    st = [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "rd":
            acc.add(x)
        st.extend(children(x))
    return acc


REBUILD = {}


def _reb(n, f):
    op, a = n.op, n.a
    if op in ("int", "sym", "bool", "rc", "lv", "str", "cst"):
        return n
    if op == "var":
        return VAR(a[0], f(a[1]))
    if op == "nv":
        return NVAR(a[0], f(a[1]))
    if op == "mask":
        return MASK(a[0], f(a[1]))
    if op == "poly":
        r = ZERO
        for m, c in a[0]:
            t = INT(c)
            for at, k in m:
                x = f(at)
                for _ in range(k):
                    t = mul(t, x)
            r = add(r, t)
        return r
    if op == "p2":
        return p2(f(a[0]))
    if op == "xor":
        return xor(*[f(x) for x in a[0]])
    if op == "or":
        return or_(*[f(x) for x in a[0]])
    if op == "and":
        return and_(*[f(x) for x in a[0]])
    if op == "not":
        return not_(f(a[0]))
    if op == "pc":
        return pc(f(a[0]))
    if op == "ilog2":
        return ilog2(f(a[0]))
    if op == "div":
        return div(f(a[0]), f(a[1]))
    if op == "rem":
        return rem(f(a[0]), f(a[1]))
    if op == "shl":
        return shl(f(a[0]), f(a[1]))
    if op == "shr":
        return shr(f(a[0]), f(a[1]))
    if op == "ite":
        return ite(f(a[0]), f(a[1]), f(a[2]))
    if op == "tab":
        return tab(f(a[0]), [f(x) for x in a[1]])
    if op == "ifn":
        return ifn(a[0], *[f(x) for x in a[1:]])
    if op == "isum":
        return isum([f(x) for x in a[0]], f(a[1]), f(a[2]))
    if op in ("ior", "ixor"):
        return bitfold(op, [f(x) for x in a[0]], f(a[1]), f(a[2]))
    if op == "eq":
        return eq(f(a[0]), f(a[1]))
    if op == "odd":
        return odd(f(a[0]))
    if op == "lt":
        return lt(f(a[0]), f(a[1]))
    if op == "flt":
        return mk("flt", f(a[0]), f(a[1]))
    if op == "bnot":
        return bnot(f(a[0]))
    if op == "band":
        return band(*[f(x) for x in a[0]])
    if op == "bor":
        return bor(*[f(x) for x in a[0]])
    if op == "isz":
        return isz(f(a[0]))
    if op == "req":
        return req(f(a[0]), f(a[1]))
    if op == "ex":
        return exists([f(x) for x in a[0]], f(a[1]))
    if op == "ba":
        if a[0] == "xor":
            return bxor(*[f(x) for x in a[1:]])
        return mk("ba", a[0], *[f(x) if isn(x) else x for x in a[1:]])
    if op == "rd":
        return mk("rd", a[0], tuple(f(x) for x in a[1]))
    if op == "radd":
        return radd(*[f(x) for x in a[0]])
    if op == "rmul":
        return rmul(*[f(x) for x in a[0]])
    if op == "rinv":
        return rinv(f(a[0]))
    if op == "rite":
        return rite(f(a[0]), f(a[1]), f(a[2]))
    if op == "rsum":
        return rsum([f(x) for x in a[0]], f(a[1]), f(a[2]))
    if op == "rf":
        return rf(a[0], *[f(x) if isn(x) else x for x in a[1:]])
    if op == "rtab":
        return rtab(f(a[0]), [f(x) for x in a[1]])
    if op in ("last", "slast"):
        return mk(op, tuple(f(x) for x in a[0]), *[f(x) for x in a[1:]])
    if op == "sf":
        return mk("sf", a[0], *[f(x) if isn(x) else x for x in a[1:]])
    if op == "scat":
        return scat(*[f(x) for x in a[0]])
    if op == "sfor":
        return sfor([f(x) for x in a[0]], f(a[1]), [f(x) for x in a[2]], f(a[3]))
    if op == "semp":
        return sempty(f(a[0]))
    if op == "site":
        return ite(f(a[0]), f(a[1]), f(a[2]))
    raise Unsupported("rebuild " + op)


def tab(idx, vals):
    vals = tuple(vals)
    if isint(idx) and 0 <= idx.a[0] < len(vals):
        return vals[idx.a[0]]
    if all(v is vals[0] for v in vals) and vals:
        return vals[0]
    return mk("tab", idx, vals)


def ifn(name, *args):
    return mk("ifn", name, *args)


def isum(binders, guard, body):
    if body is ZERO or guard is FALSE:
        return ZERO
    return mk("isum", tuple(binders), guard, body)


def bitfold(op, binders, guard, body):
    """or / exclusive or of body over all binders satisfying the guard"""
    if body is ZERO or guard is FALSE:
        return ZERO
    if body.op == "ite" and body.a[2] is ZERO:
        return bitfold(op, binders, band(guard, body.a[0]), body.a[1])
    if body.op == "ite" and body.a[1] is ZERO:
        return bitfold(op, binders, band(guard, bnot(body.a[0])), body.a[2])
    if guard is TRUE and len(binders) == 1 and binders[0].op == "nv" and body is p2(binders[0]):
        return sub(p2(binders[0].a[1]), ONE)
    return mk(op, tuple(binders), guard, body)


def subst(n, m, memo=None):
    """simultaneous substitution {node: node}; binders are globally unique"""
    if memo is None:
        memo = {}

    def f(x):
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is None:
            r = _reb(x, f)
            memo[x] = r
        return r
    return f(n)


def replace_reads(n, fn, memo=None):
    """rewrite rd nodes by fn(rd)->node or None"""
    if memo is None:
        memo = {}

    def f(x):
        r = memo.get(x)
        if r is None:
            if x.op == "rd":
                y = mk("rd", x.a[0], tuple(f(i) for i in x.a[1]))
                r = fn(y)
                if r is None:
                    r = y
            else:
                r = _reb(x, f)
            memo[x] = r
        return r
    return f(n)


def refresh_binders(n):
    """alpha-rename the binders of a top-level rsum"""
    m = {}
    for b in n.a[0]:
        if b.op == "var":
            m[b] = VAR(fresh("b"), b.a[1])
        elif b.op == "nv":
            m[b] = NVAR(fresh("n"), b.a[1])
    return subst(mk("rsum_tmp", *n.a), m) if False else (
        tuple(m[b] for b in n.a[0]), subst(n.a[1], m), subst(n.a[2], m))


# ------------------------------------------------------------- printing
def show(n, d=0):
    if not isn(n):
        return repr(n)
    op, a = n.op, n.a
    if d > 14:
        return "..."
    s = lambda x: show(x, d + 1)
    if op == "int":
        return str(a[0]) if a[0] < 1 << 32 else hex(a[0])
    if op == "bool":
        return "true" if a[0] else "false"
    if op in ("sym", "var", "nv", "cst"):
        return str(a[0])
    if op == "lv":
        return "<%s>" % (a[0],)
    if op == "mask":
        return a[0]
    if op == "poly":
        out = []
        for m, c in a[0]:
            fs = [(s(at) if k == 1 else s(at) + "^%d" % k) for at, k in m]
            if c != 1 or not fs:
                fs = [str(c)] + fs
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")"
    if op == "p2":
        return "2^" + s(a[0])
    if op in ("xor", "or", "and"):
        return "(" + {"xor": " ^ ", "or": " | ", "and": " & "}[op].join(s(x) for x in a[0]) + ")"
    if op == "not":
        return "!" + s(a[0])
    if op == "pc":
        return "popcount(%s)" % s(a[0])
    if op in ("band", "bor"):
        return "(" + (" && " if op == "band" else " || ").join(s(x) for x in a[0]) + ")"
    if op == "bnot":
        return "not " + s(a[0])
    if op == "eq" or op == "req":
        return "(%s == %s)" % (s(a[0]), s(a[1]))
    if op == "lt" or op == "flt":
        return "(%s < %s)" % (s(a[0]), s(a[1]))
    if op == "odd":
        return "odd(%s)" % s(a[0])
    if op == "isz":
        return "is_zero(%s)" % s(a[0])
    if op in ("ite", "rite", "site"):
        return "(if %s then %s else %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "rc":
        if a[1] == 0:
            return str(a[0])
        return "(%s%+si)" % (a[0] if a[0] else "", a[1])
    if op == "rd":
        return "%s[%s]" % (a[0], ", ".join(s(x) for x in a[1]))
    if op == "radd":
        return "(" + " + ".join(s(x) for x in a[0]) + ")"
    if op == "rmul":
        return "*".join(s(x) for x in a[0])
    if op == "rinv":
        return "inv(%s)" % s(a[0])
    if op in ("rsum", "isum", "ior", "ixor"):
        return op[1:] + "{%s%s}(%s)" % (",".join(s(x) for x in a[0]),
                                  "" if a[1] is TRUE else " | " + s(a[1]), s(a[2]))
    if op == "scat":
        return " ++ ".join(s(x) for x in a[0])
    if op == "sfor":
        return "concat{%s%s by %s}(%s)" % (",".join(s(x) for x in a[0]), "" if a[1] is TRUE else " | " + s(a[1]),
                                           ",".join(s(x) for x in a[2]), s(a[3]))
    if op == "ex":
        return "exists{%s}(%s)" % (",".join(s(x) for x in a[0]), s(a[1]))
    if op in ("rtab", "tab"):
        return "[%s][%s]" % (", ".join(s(x) for x in a[1]), s(a[0]))
    if op in ("rf", "ifn", "sf", "ba"):
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    if op == "str":
        return repr(a[0])
    return "%s(%s)" % (op, ", ".join(s(x) if isn(x) else str(x) for x in a))
