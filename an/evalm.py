"""Small-model semantics of closed forms.

The analyser turns bodies into closed-form terms; this module interprets those
*terms* (never program code) in finite models - a dimension split, metric masks
and coefficients drawn from a prime field - to tell two normal forms apart and
to produce a concrete witness when they differ.
"""
import hashlib
import random

from . import terms as T
from .terms import isn, freevars, Unsupported

P = 2147483629            # prime, P % 4 == 1
assert P % 4 == 1


def _iota():
    for g in range(2, 50):
        r = pow(g, (P - 1) // 4, P)
        if r * r % P == P - 1:
            return r
    raise AssertionError


IOTA = _iota()
ALL = (1 << 64) - 1


def hsh(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), "big") % (P - 1) + 1


def acs(a, b):
    """number of pairs (i in a, j in b) with i < j"""
    n = 0
    a &= ALL
    b &= ALL
    while b:
        low = b & -b
        n += bin(a & (low - 1)).count("1")
        b ^= low
    return n


def _inv(x):
    x %= P
    return pow(x, P - 2, P) if x else hsh("inv0")


def _p2(e):
    return 1 << e if 0 <= e < 4096 else 0


def _cp2(c, e):
    return c << e if 0 <= e < 4096 else c >> -e if e < 0 else 0


def _shr(a, n):
    return a >> n if 0 <= n < 4096 else 0


def _shl(a, n):
    return (a << n) if 0 <= n < 4096 else 0


def _div(a, b):
    return a // b if b else 0


def _rem(a, b):
    return a % b if b else 0


def _tabf(i, vs):
    return vs[i] if 0 <= i < len(vs) else 0


def _ilog2(x):
    return x.bit_length() - 1 if x > 0 else -1


def _tz(x):
    return (x & -x).bit_length() - 1 if x > 0 else 64


class Model:
    """assignment of symbols, masks and coefficient arrays"""

    def __init__(self, seed, syms, masks=None, zero=0.25, real=(), bounds=None, funs=None, rlo=False):
        self.seed = seed
        self.syms = dict(syms)
        self.masks = dict(masks or {})
        self.zero = zero
        self.real = set(real)
        self.bounds = bounds or {}
        self.cache = {}
        self.rnd = random.Random("%s" % (seed,))
        self.funs = funs or {}

    def rd(self, name, idx):
        k = (name, idx)
        v = self.cache.get(k)
        if v is None:
            base = name[:-1] if name.endswith("~") else name
            bd = self.bounds.get(base)
            if any(i < 0 for i in idx) or (bd is not None and any(i >= b for i, b in zip(idx, bd))):
                v = 0
            else:
                kb = (base, idx)
                r = random.Random("%s|%s|%s" % (self.seed, base, idx))
                if self.zero == "small":        # few values: equal, opposite and vanishing coefficients are common
                    x = r.choice((0, 1, P - 1))
                    y = x
                else:
                    z = r.random() < self.zero
                    x = 0 if z else r.randrange(1, P)
                    y = x if (z or base in self.real) else r.randrange(1, P)
                self.cache[kb] = x
                self.cache[(base + "~", idx)] = y
                v = self.cache[k]
            self.cache[k] = v
        return v

    def rdm(self, name, idx):
        """matrix-valued coefficient"""
        k = (name, idx, "m")
        v = self.cache.get(k)
        if v is None:
            if self.rd(name, idx) == 0:
                v = Z4
            else:
                r = random.Random("%s|%s|%s|m" % (self.seed, name, idx))
                v = tuple(r.randrange(1, P) for _ in range(4))
            self.cache[k] = v
        return v

    def fun(self, name, strict, *args):
        f = self.funs.get(name)
        if f:
            return f(self, *args)
        if strict and args and isinstance(args[0], int) and args[0] % P == 0:
            return 0
        return hsh(self.seed if False else 0, name, *args)

    def describe(self):
        d = dict(self.syms)
        d.update(self.masks)
        return d


def key_of(x):
    return hsh("ord", x % P) if isinstance(x, int) else hsh("ord", x)


class Block:
    def __init__(self, binders):
        self.items = []
        self.binders = binders      # all binders visible
        self.memo = {}


class CG:
    def __init__(self):
        self.n = 0
        self.scopes = [Block(frozenset())]
        self.free = set()

    def tmp(self):
        self.n += 1
        return "t%d" % self.n

    def scope_for(self, node):
        fv = [v for v in freevars(node) if v.op in ("var", "nv", "lv")]
        for s in self.scopes:
            if all(v in s.binders or v in self.free for v in fv):
                return s
        raise Unsupported("unbound index %s in closed form" % ", ".join(
            str(v.a[0]) for v in fv if v not in self.scopes[-1].binders and v not in self.free))

    def gen(self, n, cj=False):
        if n.op == "int":
            return str(n.a[0])
        if n.op == "bool":
            return "True" if n.a[0] else "False"
        if n.op in ("var", "nv"):
            return "v_%d" % n.id
        key = (n, cj)
        sc = self.scope_for(n)
        r = sc.memo.get(key)
        if r is not None:
            return r
        # evaluate the node with `sc` as innermost scope
        i = self.scopes.index(sc)
        saved = self.scopes
        self.scopes = saved[:i + 1]
        try:
            r = self.emit(n, cj, sc)
        finally:
            self.scopes = saved
        sc.memo[key] = r
        return r

    def put(self, sc, expr):
        t = self.tmp()
        sc.items.append("%s = %s" % (t, expr))
        return t

    def emit(self, n, cj, sc):
        op, a = n.op, n.a
        g = lambda x: self.gen(x)
        gr = lambda x: self.gen(x, cj)
        # ---- integers
        if op == "sym":
            return self.put(sc, "M.syms[%r]" % a[0])
        if op == "mask":
            return self.put(sc, "M.masks[%r]" % a[0])
        if op == "cst":
            return self.put(sc, "M.syms[%r]" % (a[0],))
        if op == "poly":
            ts = []
            for m, c in a[0]:
                fs = []
                for at, k in m:
                    if at.op == "p2" and k == 1 and c > 1:
                        # the constant part of an exponent is kept in the coefficient
                        fs.append("_cp2(%d, %s)" % (c, g(at.a[0])))
                        c = 1
                        continue
                    fs += [g(at)] * k
                if c != 1 or not fs:
                    fs = [str(c)] + fs
                ts.append("*".join(fs))
            return self.put(sc, " + ".join(ts))
        if op == "p2":
            return self.put(sc, "_p2(%s)" % g(a[0]))
        if op in ("and", "or", "xor"):
            return self.put(sc, {"and": " & ", "or": " | ", "xor": " ^ "}[op].join(g(x) for x in a[0]))
        if op == "not":
            return self.put(sc, "ALL ^ %s" % g(a[0]))
        if op == "pc":
            return self.put(sc, "(%s & ALL).bit_count()" % g(a[0]))
        if op == "ilog2":
            return self.put(sc, "_ilog2(%s)" % g(a[0]))
        if op in ("div", "rem", "shl", "shr"):
            return self.put(sc, "_%s(%s, %s)" % (op, g(a[0]), g(a[1])))
        if op == "ite":
            return self.put(sc, "%s if %s else %s" % (g(a[1]), g(a[0]), g(a[2])))
        if op == "tab":
            return self.put(sc, "_tabf(%s, (%s,))" % (g(a[0]), ", ".join(g(x) for x in a[1])))
        if op == "ifn":
            nm = a[0]
            xs = [g(x) if isn(x) else repr(x) for x in a[1:]]
            if nm == "acs":
                return self.put(sc, "acs(%s)" % ", ".join(xs))
            if nm == "strlen":
                return self.put(sc, "_slen(%s)" % xs[0])
            if nm in ("tz", "il", "ob", "eb"):
                return self.put(sc, "_%s(%s)" % (nm, ", ".join(xs)))
            return self.put(sc, "M.fun(%s)" % ", ".join([repr(nm), "False"] + xs))
        # ---- booleans
        if op == "eq":
            return self.put(sc, "%s == %s" % (g(a[0]), g(a[1])))
        if op == "lt":
            return self.put(sc, "%s < %s" % (g(a[0]), g(a[1])))
        if op == "bnot":
            return self.put(sc, "not %s" % g(a[0]))
        if op in ("band", "bor"):
            return self.put(sc, (" and " if op == "band" else " or ").join(g(x) for x in a[0]))
        if op == "odd":
            return self.put(sc, "%s & 1 == 1" % g(a[0]))
        if op == "isz":
            return self.put(sc, "%s %% P == 0" % g(a[0]))
        if op == "req":
            return self.put(sc, "(%s - %s) %% P == 0" % (g(a[0]), g(a[1])))
        if op == "flt":
            return self.put(sc, "M.lt(%s, %s)" % (g(a[0]), g(a[1])))
        if op == "ba":
            nm = a[0]
            if nm == "xor":
                return self.put(sc, "bool(%s)" % " ^ ".join(g(x) for x in a[1:]))
            if nm == "kept0":
                return self.put(sc, "%s == P" % g(a[1]))
            if nm == "fle":
                return self.put(sc, "not M.lt(%s, %s)" % (g(a[2]), g(a[1])))
            if nm == "str_contains":
                return self.put(sc, "_contains(M, %s, %s)" % (g(a[1]), g(a[2])))
            if nm == "str_starts":
                return self.put(sc, "_starts(M, %s, %s)" % (g(a[1]), g(a[2])))
            if nm == "streq":
                return self.put(sc, "%s == %s" % (g(a[1]), g(a[2])))
            return self.put(sc, "M.pred(%s)" % ", ".join([repr(nm)] + [
                ("%s %% P" % g(x)) if T.sort(x) == "r" else g(x) for x in a[1:]]))
        # ---- ring
        if op == "rc":
            re, im = a
            v = re.numerator * pow(re.denominator, P - 2, P)
            if im:
                i = im.numerator * pow(im.denominator, P - 2, P) * IOTA
                v += -i if cj else i
            return str(v % P)
        if op == "rd":
            nm = a[0] + ("~" if cj else "")
            return self.put(sc, "M.rd(%r, (%s))" % (nm, "".join(g(x) + ", " for x in a[1])))
        if op == "radd":
            return self.put(sc, "(" + " + ".join(gr(x) for x in a[0]) + ") % P")
        if op == "rmul":
            e = gr(a[0][0])
            for x in a[0][1:]:
                e = "%s * %s %% P" % (e, gr(x))
            return self.put(sc, e)
        if op == "rinv":
            return self.put(sc, "_inv(%s)" % gr(a[0]))
        if op == "rite":
            return self.put(sc, "%s if %s else %s" % (gr(a[1]), g(a[0]), gr(a[2])))
        if op == "rtab":
            return self.put(sc, "_tabf(%s, (%s,))" % (g(a[0]), ", ".join(gr(x) for x in a[1])))
        if op == "rf":
            return self.rfun(n, cj, sc)
        if op in ("rsum", "isum", "ior", "ixor"):
            t = self.tmp()
            sc.items.append("%s = 0" % t)

            def body(blk):
                e = self.gen(a[2], cj) if op == "rsum" else self.gen(a[2])
                blk.items.append("%s %s= %s" % (t, {"ior": "|", "ixor": "^"}.get(op, "+"), e))
            self.loops(sc, list(a[0]), a[1], body, None, a[2])
            if op == "rsum":
                sc.items.append("%s %%= P" % t)
            return t
        if op == "ex":
            t = self.tmp()
            sc.items.append("%s = False" % t)

            def body(blk):
                blk.items.append("%s = True" % t)
                blk.items.append("break")
            self.loops(sc, list(a[0]), a[1], body, t)
            return t
        if op in ("last", "slast"):
            t = self.tmp()
            b = gr(a[3])
            sc.items.append("%s = %s" % (t, b))

            def body(blk):
                blk.items.append("%s = %s" % (t, self.gen(a[2], cj)))
            self.loops(sc, list(a[0]), a[1], body, None)
            return t
        # ---- strings
        if op == "str":
            return repr(a[0])
        if op == "site":
            return self.put(sc, "%s if %s else %s" % (g(a[1]), g(a[0]), g(a[2])))
        if op == "sf":
            return self.put(sc, "M.sfun(%s)" % ", ".join([repr(a[0])] + [
                ("%s %% P" % g(x) if T.sort(x) == "r" else g(x)) if isn(x) else repr(x) for x in a[1:]]))
        if op == "scat":
            return self.put(sc, " + ".join(g(x) for x in a[0]))
        if op == "semp":
            return self.put(sc, "%s == ''" % g(a[0]))
        if op == "sfor":
            t = self.tmp()
            sc.items.append("%s = []" % t)

            def body(blk):
                blk.items.append("%s.append(((%s), %s))" % (t, "".join(self.gen(x) + ", " for x in a[2]), self.gen(a[3])))
            self.loops(sc, list(a[0]), a[1], body, None)
            return self.put(sc, "''.join(x[1] for x in sorted(%s))" % t)
        raise Unsupported("evaluation of %s" % op)

    def rfun(self, n, cj, sc):
        nm = n.a[0]
        if nm == "conj":
            return self.gen(n.a[1], not cj)
        if nm == "kept0":               # zero, but told apart by not being reduced
            return "P"
        if nm in ("into_c", "from_c", "f32", "widen"):
            return self.gen(n.a[1], cj)
        if nm in ("re", "im"):
            x, y = self.gen(n.a[1]), self.gen(n.a[1], True)
            if nm == "re":
                return self.put(sc, "(%s + %s) * %d %% P" % (x, y, pow(2, P - 2, P)))
            return self.put(sc, "(%s - %s) * %d %% P" % (x, y, pow(2 * IOTA, P - 2, P)))
        if nm in ("norm", "abs"):
            x, y = self.gen(n.a[1]), self.gen(n.a[1], True)
            return self.put(sc, "M.fun('sqrt', True, %s * %s %% P)" % (x, y))
        if nm in ("norm_sqr",):
            x, y = self.gen(n.a[1]), self.gen(n.a[1], True)
            return self.put(sc, "%s * %s %% P" % (x, y))
        if nm == "r2inv":
            return self.put(sc, "pow(%d, %s, P)" % (pow(2, P - 2, P), self.gen(n.a[1])))
        if nm == "int":
            return self.put(sc, "%s %% P" % self.gen(n.a[1]))
        xs = []
        for x in n.a[1:]:
            if not isn(x):
                xs.append(repr(x))
            elif T.sort(x) == "r":
                xs.append("%s %% P" % self.gen(x, cj))
            else:
                xs.append(self.gen(x))
        return self.put(sc, "M.fun(%s)" % ", ".join([repr(nm), str(nm in T.STRICT)] + xs))

    def loops(self, sc, bs, guard, body, stopflag, term=None):
        cj = list(guard.a[0]) if guard.op == "band" else ([] if guard is T.TRUE else [guard])
        cj.sort(key=lambda c: c.id)
        todo = list(cj)
        own = set(bs)
        # binder order: domains may depend on other binders
        order = []
        rest = list(bs)
        while rest:
            for b in rest:
                dom = b.a[1]
                if not any(o in freevars(dom) for o in rest if o is not b):
                    order.append(b)
                    rest.remove(b)
                    break
            else:
                raise Unsupported("cyclic index domains")
        saved = self.scopes
        blocks = []
        cur = sc
        vis = sc.binders
        pre = [c for c in todo if not any(b in freevars(c) for b in own)]
        try:
            if pre:
                conds = [self.gen(c) for c in pre]
                blk = Block(vis)
                blocks.append((cur, None, " and ".join(conds), blk))
                # a conditional block shares the binders; open it as a scope of its own
                self.scopes = self.scopes + [blk]
                blk.binders = vis | {("cond", id(blk))}
                cur = blk
                vis = blk.binders
                todo = [c for c in todo if c not in pre]
            for b in order:
                d = self.gen(b.a[1])
                rng = "range(_p2(%s))" % d if b.op == "var" else "range(%s)" % d
                vis = vis | {b}
                blk = Block(vis)
                cur_items = cur.items
                blocks.append((cur, "v_%d" % b.id, rng, blk))
                self.scopes = self.scopes + [blk]
                ready = [c for c in todo if all((x not in own) or x in vis for x in freevars(c))]
                todo = [c for c in todo if c not in ready]
                for c in ready:
                    e = self.gen(c)
                    blk.items.append("if not %s: continue" % e)
                cur = blk
            body(cur)
        finally:
            self.scopes = saved
        # attach loops innermost first, so that hoisted code precedes them
        for par, v, rng, blk in reversed(blocks):
            if v is None:
                par.items.append(("if", rng, blk))
                continue
            par.items.append(("for", v, rng, blk))
            if stopflag:
                par.items.append(("brk", stopflag, any(par is b2 for _, v2, _, b2 in blocks if v2 is not None)))

    def code(self, blk, ind, out):
        pad = "    " * ind
        for it in blk.items:
            if isinstance(it, str):
                out.append(pad + it)
            elif it[0] == "for":
                out.append("%sfor %s in %s:" % (pad, it[1], it[2]))
                n = len(out)
                self.code(it[3], ind + 1, out)
                if len(out) == n:
                    out.append(pad + "    pass")
            elif it[0] == "if":
                out.append("%sif %s:" % (pad, it[1]))
                n = len(out)
                self.code(it[2], ind + 1, out)
                if len(out) == n:
                    out.append(pad + "    pass")
            elif it[0] == "brk":
                if it[2]:
                    out.append("%sif %s: break" % (pad, it[1]))


Z4 = (0, 0, 0, 0)


def _mm(x, y):
    a, b, c, d = x
    e, f, g, h = y
    return ((a * e + b * g) % P, (a * f + b * h) % P, (c * e + d * g) % P, (c * f + d * h) % P)


def _ma(*xs):
    return (sum(x[0] for x in xs) % P, sum(x[1] for x in xs) % P, sum(x[2] for x in xs) % P,
            sum(x[3] for x in xs) % P)


def _minv(x):
    a, b, c, d = x
    det = (a * d - b * c) % P
    if det == 0:
        return (hsh("inv", x), 1, 2, 3)
    i = pow(det, P - 2, P)
    return (d * i % P, -b * i % P, -c * i % P, a * i % P)


class CGM(CG):
    """coefficients in a non-commutative ring (2x2 matrices over the prime field)"""

    def emit(self, n, cj, sc):
        op, a = n.op, n.a
        g = lambda x: self.gen(x)
        if op == "isz":
            return self.put(sc, "%s == Z4" % g(a[0]))
        if op == "req":
            return self.put(sc, "%s == %s" % (g(a[0]), g(a[1])))
        if op == "rc":
            v = CG.emit(self, n, cj, sc)
            return "(%s, 0, 0, %s)" % (v, v)
        if op == "rd":
            return self.put(sc, "M.rdm(%r, (%s))" % (a[0], "".join(g(x) + ", " for x in a[1])))
        if op == "radd":
            return self.put(sc, "_ma(%s)" % ", ".join(g(x) for x in a[0]))
        if op == "rmul":
            e = g(a[0][0])
            for x in a[0][1:]:
                e = "_mm(%s, %s)" % (e, g(x))
            return self.put(sc, e)
        if op == "rinv":
            return self.put(sc, "_minv(%s)" % g(a[0]))
        if op == "rtab":
            return self.put(sc, "(_tabf(%s, (%s,)) or Z4)" % (g(a[0]), ", ".join(g(x) for x in a[1])))
        if op == "rsum":
            t = self.tmp()
            sc.items.append("%s = Z4" % t)

            def body(blk):
                blk.items.append("%s = _ma(%s, %s)" % (t, t, self.gen(a[2])))
            self.loops(sc, list(a[0]), a[1], body, None, a[2])
            return t
        if op in ("rf", "flt"):
            raise Unsupported("function %s of a non-commutative coefficient" % (a[0],))
        return CG.emit(self, n, cj, sc)


# ---------------------------------------------------------------- many generators
class TooWide(Exception):
    """an index set too large to visit, with nothing that bounds the items that matter"""


class WModel(Model):
    """coefficients that vanish outside a few indices, so that sums over huge index sets have few terms"""

    def __init__(self, *a, consts=(), bare=0, **kw):
        Model.__init__(self, *a, **kw)
        self.supps = {}
        self.bare = bare            # how often an operand has only its first coefficient
        self.consts = [c for c in consts if c >= 0]

    def supp(self, name):
        base = name[:-1] if name.endswith("~") else name
        r = self.supps.get(base)
        if r is None:
            bd = self.bounds.get(base)
            if bd is None:
                raise TooWide("extent of %s" % base)
            total = 1
            for b in bd:
                total *= max(b, 0)
            if total <= 32:
                r = [()]
                for b in bd:
                    r = [t + (i,) for t in r for i in range(b)]
            else:
                rnd = random.Random("%s|%s|supp" % (self.seed, base))
                # index values are shared between operands and axes, so that products meet
                r = [(0,) * len(bd)] if rnd.random() < 0.5 else []
                bare = rnd.random() < self.bare
                if len(bd) == 3 and not bare:
                    # blades of null generators times a few rows and columns, which meet in products
                    r = [(w, i, j) for w in self.lead(bd[0]) for i in self.trail(bd[1]) for j in self.trail(bd[2])]
                    bare = True
                if len(bd) == 1 and not bare:
                    # generators
                    r += [(1 << rnd.randrange((bd[0] - 1).bit_length()),), ((bd[0] + 1) // 2,)]
                for n in range(0 if r and bare else 7 if len(bd) == 1 else 12):
                    r.append(tuple(rnd.choice(self.shared(b)) if len(bd) > 1 or n % 2 else self.index(rnd, b, n)
                                   for b in bd))
            self.supps[base] = r
            self.supps[base + "#"] = frozenset(r)
        return r

    def shared(self, b):
        """a few index values below b"""
        r = self.supps.get(b)
        if r is None:
            rnd = random.Random("%s|%d|shared" % (self.seed, b))
            r = self.supps[b] = [self.index(rnd, b, n) for n in (0, 2, 3, 5, 7)]
        return r

    def lead(self, b):
        x = random.Random("%s|%d|lead" % (self.seed, b)).randrange(max(b, 1))
        return sorted({0, b >> 1 if b > 1 else 0, x, (b - 1) ^ x if b > 1 else 0})

    def trail(self, b):
        return sorted(set(random.Random("%s|%d|trail" % (self.seed, b)).sample(self.shared(b), 2)))

    def index(self, rnd, b, n=None):
        """an index below b"""
        if b <= 1:
            return 0
        k = rnd.randrange(8) if n is None else n
        e = (b - 1).bit_length()
        if k == 0:
            v = b - 1
        elif k == 1:
            v = 1 << rnd.randrange(e)
        elif k == 2:
            v = sum(1 << i for i in {rnd.randrange(e) for _ in range(3)})
        elif k == 3 and self.consts:
            v = rnd.choice(self.consts) + rnd.choice((-1, 0, 0, 1))
        elif k == 4:
            v = (b - 1) ^ (1 << rnd.randrange(e))
        elif k == 5:
            v = rnd.randrange(min(b, 8))
        else:
            v = rnd.randrange(b)
        return v if 0 <= v < b else rnd.randrange(b)

    def rd(self, name, idx):
        base = name[:-1] if name.endswith("~") else name
        if idx and base in self.bounds:
            self.supp(base)
            if idx not in self.supps[base + "#"]:
                return 0
        return Model.rd(self, name, idx)


def _dom(M, size, cands):
    if size <= 128:
        return range(size)
    if cands is None:
        if size <= 4096:
            return range(size)
        raise TooWide("index set of %d" % size)
    return sorted({x for x in cands() if 0 <= x < size})


def _need(x):
    if not x:
        raise TooWide("no lower bound")
    return True


def _compl(s, o, n):
    """x below n with o & ~x == s"""
    if o & (n - 1) != n - 1:
        raise TooWide("complement in a part")
    return (s ^ o) & (n - 1)


def _window(r, c, u):
    if c <= 0:
        raise TooWide("decreasing window")
    lo, hi = -((u - 1 - r) // c), r // c
    if hi - lo > 1000:
        raise TooWide("window of %d" % (hi - lo))
    return range(lo, hi + 1)


class Wide:
    """index sets are visited only where a coefficient can be non-zero"""

    def solve(self, e, b, s, vis):
        """expressions for the values of b at which index term e can take the value s, or None"""
        if e is b:
            return [s]
        if b not in freevars(e):
            return None
        if not all(v in vis or v is b or v in self.free for v in freevars(e) if v.op in ("var", "nv", "lv")):
            return None
        if e.op == "xor":
            w = [x for x in e.a[0] if b in freevars(x)]
            if len(w) == 1:
                rest = " ^ ".join(self.gen(x) for x in e.a[0] if x is not w[0])
                return self.solve(w[0], b, "(%s ^ (%s))" % (s, rest), vis)
        if e.op == "and":
            # complement within the domain of b
            n = [x for x in e.a[0] if x.op == "not"]
            if len(n) == 1 and len(e.a[0]) == 2:
                o = e.a[0][1] if e.a[0][0] is n[0] else e.a[0][0]
                if b not in freevars(o) and b.op == "var" and n[0].a[0] is b and b not in freevars(b.a[1]):
                    return ["_compl(%s, %s, %s)" % (s, self.gen(o), self.gen(T.p2(b.a[1])))]
                if b not in freevars(o) and b.op == "var" and o is T.sub(T.p2(b.a[1]), T.ONE):
                    return self.solve(n[0].a[0], b, "(%s ^ (%s))" % (s, self.gen(o)), vis)
        if e.op == "poly":
            w, rest = [], []
            for m, c in e.a[0]:
                hit = [at for at, k in m if b in freevars(at)]
                if hit:
                    w.append((m, c, hit))
                else:
                    rest.append((m, c))
            if len(w) == 1 and len(w[0][2]) == 1:
                m, c, (at,) = w[0]
                if dict(m)[at] == 1:
                    r = self.gen(T.frompoly(dict(rest))) if rest else "0"
                    k = self.gen(T.frompoly({tuple((x, n) for x, n in m if x is not at): c}))
                    return self.solve(at, b, "_div(%s - %s, %s)" % (s, r, k), vis)
        if e.op == "ifn" and e.a[0] == "il":
            return self.solve(e.a[1], b, "_ob(%s)" % s, vis) or self.solve(e.a[2], b, "_eb(%s)" % s, vis)
        if e.op == "ite":
            x, y = self.solve(e.a[1], b, s, vis), self.solve(e.a[2], b, s, vis)
            return x + y if x and y else None
        return None

    def window(self, b, guard, vis):
        """b such that 0 <= r - c*b < u"""
        cj = guard.a[0] if guard.op == "band" else (guard,)
        for c in cj:
            if c.op != "lt" or b not in freevars(c.a[0]) or b in freevars(c.a[1]) or c.a[0].op != "poly" or \
                    T.bnot(T.lt(c.a[0], T.ZERO)) not in cj:
                continue
            if not all(v in vis or v is b or v in self.free for v in freevars(c) if v.op in ("var", "nv", "lv")):
                continue
            w = [(m, k) for m, k in c.a[0].a[0] if any(b in freevars(at) for at, _ in m)]
            if len(w) != 1 or dict(w[0][0]).get(b) != 1:
                continue
            (m, k), = w
            rest = T.frompoly({x: y for x, y in c.a[0].a[0] if x != m})
            step = T.frompoly({tuple((x, n) for x, n in m if x is not b): -k})
            if b in freevars(step):
                continue
            return "_window(%s, %s, %s)" % (self.gen(rest), self.gen(step), self.gen(c.a[1]))
        return None

    def below(self, t):
        out, seen, st = [], set(), [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "flt" and x.a[0] is T.R0:
                out.append(x)
            st.extend(T.children(x))
        return out

    def driver(self, b, guard, body, vis):
        """candidate values of b: outside them the guard fails or the body vanishes"""
        for c in (guard.a[0] if guard.op == "band" else (guard,)):
            if c.op == "eq" and b in freevars(c):
                for x, y in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                    if b in freevars(x) and b not in freevars(y) and \
                            all(v in vis or v in self.free for v in freevars(y) if v.op in ("var", "nv", "lv")):
                        r = self.solve(x, b, self.gen(y), vis)
                        if r:
                            return "(%s,)" % ", ".join(r)
        r = self.window(b, guard, vis)
        if r:
            return r
        reads = []
        seen, st = set(), [guard] + ([body] if body is not None else [])
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "rd" and b in freevars(x):
                reads.append(x)
            st.extend(T.children(x))
        groups = {}
        for x in reads:
            groups.setdefault(x.a[0], []).append(x)
        opts = sorted(groups.values(), key=lambda g: (len(g), g[0].a[0])) + ([reads] if len(groups) > 1 else [])
        for g in opts:
            out = []
            for x in g:
                for n, e in enumerate(x.a[1]):
                    if b in freevars(e):
                        r = self.solve(e, b, "s[%d]" % n, vis)
                        if r:
                            out += ["%s for s in M.supp(%r)" % (z, x.a[0]) for z in r]
                            break
                else:
                    break
            else:
                m = {x: T.R0 for x in g}
                rest = T.subst(guard, m)
                # nothing is below a positive bound but zero
                low = {x: T.TRUE for x in self.below(rest) if not any(v in vis or v is b for v in freevars(x.a[1]))}
                if low and T.subst(rest, low) is T.FALSE:
                    return "_need(%s) and [*%s]" % (" and ".join(self.gen(x.a[1]) + " % P" for x in low),
                                                    ", *".join("(%s)" % z for z in out))
                if rest is T.FALSE or (body is not None and T.subst(body, m) in (T.R0, T.ZERO)):
                    return "[*%s]" % ", *".join("(%s)" % z for z in out)
        return None

    def loops(self, sc, bs, guard, body, stopflag, term=None):
        cj = list(guard.a[0]) if guard.op == "band" else ([] if guard is T.TRUE else [guard])
        cj.sort(key=lambda c: c.id)
        todo = list(cj)
        own = set(bs)
        saved = self.scopes
        blocks = []
        cur = sc
        vis = sc.binders
        pre = [c for c in todo if not any(b in freevars(c) for b in own)]
        try:
            if pre:
                conds = [self.gen(c) for c in pre]
                blk = Block(vis)
                blocks.append((cur, None, " and ".join(conds), blk))
                self.scopes = self.scopes + [blk]
                blk.binders = vis | {("cond", id(blk))}
                cur = blk
                vis = blk.binders
                todo = [c for c in todo if c not in pre]
            rest = list(bs)
            while rest:
                can = [b for b in rest if not any(o in freevars(b.a[1]) for o in rest if o is not b)]
                if not can:
                    raise Unsupported("cyclic index domains")
                pick = None
                for b in can:
                    d = self.driver(b, guard, term, vis)
                    if d:
                        pick = (b, "lambda: " + d)
                        break
                if pick is None:
                    pick = (can[-1], "None")
                b, d = pick
                rest.remove(b)
                size = self.gen(b.a[1])
                rng = "_dom(M, %s, %s)" % ("_p2(%s)" % size if b.op == "var" else size, d)
                vis = vis | {b}
                blk = Block(vis)
                blocks.append((cur, "v_%d" % b.id, rng, blk))
                self.scopes = self.scopes + [blk]
                ready = [c for c in todo if all((x not in own) or x in vis for x in freevars(c))]
                todo = [c for c in todo if c not in ready]
                for c in ready:
                    e = self.gen(c)
                    blk.items.append("if not %s: continue" % e)
                cur = blk
            body(cur)
        finally:
            self.scopes = saved
        for par, v, rng, blk in reversed(blocks):
            if v is None:
                par.items.append(("if", rng, blk))
                continue
            par.items.append(("for", v, rng, blk))
            if stopflag:
                par.items.append(("brk", stopflag, any(par is b2 for _, v2, _, b2 in blocks if v2 is not None)))


class CGW(Wide, CG):
    pass


class CGMW(Wide, CGM):
    pass


def _spread(x):
    r = i = 0
    x &= ALL
    while x:
        if x & 1:
            r |= 1 << (2 * i)
        x >>= 1
        i += 1
    return r


def _il(h, l):
    """interleave: h at the odd bit positions, l at the even ones"""
    return _spread(h) << 1 | _spread(l)


def _eb(w):
    r = i = 0
    w &= ALL
    while w:
        if w & 1:
            r |= 1 << i
        w >>= 2
        i += 1
    return r


def _ob(w):
    return _eb(w >> 1)


_cc = {}


def compile_term(ts, free, nc=False, wide=False):
    """list of terms over free index variables -> python function (M, *values) -> tuple"""
    key = (tuple(ts), tuple(free), nc, wide)
    f = _cc.get(key)
    if f:
        return f
    cg = (CGMW if nc else CGW)() if wide else CGM() if nc else CG()
    cg.free = set(free)
    outs = [cg.gen(t) + (" % P" if T.sort(t) == "r" and not nc else "") for t in ts]
    lines = ["def f(M, %s):" % ", ".join(["v_%d" % v.id for v in free] + ["*_"])]
    cg.code(cg.scopes[0], 1, lines)
    lines.append("    return (%s,)" % ", ".join(outs))
    ns = {"P": P, "ALL": ALL, "acs": acs, "_p2": _p2, "_cp2": _cp2, "_shr": _shr, "_shl": _shl, "_div": _div, "_rem": _rem,
          "_tabf": _tabf, "_ilog2": _ilog2, "_tz": _tz, "_il": _il, "_ob": _ob, "_eb": _eb, "_inv": _inv, "Z4": Z4, "_mm": _mm, "_ma": _ma,
          "_minv": _minv, "_contains": _contains, "_slen": _slen, "_starts": _starts, "_dom": _dom, "_need": _need, "_window": _window, "_compl": _compl}
    try:
        exec(compile("\n".join(lines), "<closed form>", "exec"), ns)
    except (SyntaxError, RecursionError, MemoryError) as e:
        raise Unsupported("closed form too large to interpret (%s)" % type(e).__name__)
    _cc[key] = ns["f"]
    return ns["f"]


def _mlt(self, a, b):
    a %= P
    b %= P
    if not a or not b:                  # 0 is the least element, as it is among norms and precisions
        return bool(b) and not a
    return key_of(a) < key_of(b)


def _pred(self, name, *args):
    f = self.funs.get(name)
    if f:
        return bool(f(self, *args))
    return hsh("pred", name, *args) % 2 == 0


def _sfun(self, name, *args):
    f = self.funs.get("s:" + name)
    if f:
        return f(self, *args)
    return "\x02%s:%s\x03" % (name, ",".join(map(str, args)))


def _contains(M, s, chars):
    """some of the characters occur in the string; parts that are not literal text answer by a hash of themselves"""
    out = False
    for i, part in enumerate(s.replace("\x03", "\x02").split("\x02")):
        if i % 2 == 0:
            out = out or any(c in part for c in chars)
        else:
            out = out or any(hsh("contains", part, c) % 2 == 0 for c in chars)
    return out


def _slen(s):
    """length of a string; parts that are not literal text have some positive length"""
    return sum(1 + hsh("len", p) % 3 if i % 2 else len(p) for i, p in enumerate(s.replace("\x03", "\x02").split("\x02")))


def _starts(M, s, chars):
    """the string starts with one of the characters"""
    if s.startswith("\x02"):
        part = s[1:].split("\x03")[0]
        return any(hsh("starts", part, c) % 2 == 0 and hsh("contains", part, c) % 2 == 0 for c in chars)
    return s != "" and s[0] in chars


Model.lt = _mlt
Model.pred = _pred
Model.sfun = _sfun
