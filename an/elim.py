"""Binder elimination: sums, scatters and existential guards over index binders."""
from . import terms as T
from .terms import (INT, ZERO, ONE, TRUE, FALSE, R0, isn, mk, add, sub, mul, xor, and_, not_, p2, pc, ilog2, shr,
                    eq, lt, le, band, bor, bnot, topoly, frompoly, support, freevars, subst, nonneg, rite, radd,
                    rmul, vanishes, Unsupported)
from .vals import merge, vsubst


def conjuncts(g):
    if g is TRUE:
        return []
    if g.op == "band":
        return list(g.a[0])
    return [g]


def domain(b, t):
    """conditions for t to lie in the domain of binder b"""
    hi = p2(b.a[1]) if b.op == "var" else b.a[1]
    out = lt(t, hi)
    if not nonneg(t):
        out = band(out, bnot(lt(t, ZERO)))
    return out


def solve_eq(x, y, b, binders):
    """solve x == y for b -> (term, extra guard) or None"""
    fx, fy = b in freevars(x), b in freevars(y)
    if fx and fy:
        return None
    if fy:
        x, y = y, x
    return _solve(x, y, b, binders, TRUE)


def _solve(x, y, b, binders, extra):
    if x is b:
        return y, extra
    if x.op == "xor":
        own = [t for t in x.a[0] if b in freevars(t)]
        rest = [t for t in x.a[0] if b not in freevars(t)]
        if len(own) != 1:
            return None
        return _solve(own[0], xor(y, *rest), b, binders, extra)
    if x.op == "and":
        # complement within a block of ones
        own = [t for t in x.a[0] if b in freevars(t)]
        rest = [t for t in x.a[0] if b not in freevars(t)]
        if len(own) == 1 and own[0].op == "not" and own[0].a[0] is b and len(rest) == 1:
            sb = support(b)
            bl = T._blocks(rest[0])
            if sb is not None and bl and len(bl) == 1 and bl[0][0] is ZERO and nonneg(sub(bl[0][1], sb)) \
                    and nonneg(sub(sb, bl[0][1])):
                return and_(not_(y), rest[0]), band(extra, lt(y, p2(sb)))
        return None
    if x.op == "or":
        own = [t for t in x.a[0] if b in freevars(t)]
        rest = [t for t in x.a[0] if b not in freevars(t)]
        if len(own) == 1 and len(rest) == 1 and disjoint(own[0], rest[0]):
            return _solve(own[0], sub(y, rest[0]), b, binders,
                          band(extra, eq(and_(y, rest[0]), rest[0])))
        return None
    if x.op == "poly" or x.op == "p2":
        p = topoly(x)
        own = {m: c for m, c in p.items() if any(b in freevars(at) for at, k in m)}
        rest = frompoly({m: c for m, c in p.items() if m not in own})
        if len(own) != 1:
            return None
        (m, c), = own.items()
        oth = [(at, k) for at, k in m if at is not b]
        others = [q for q in binders if q is not b and q in freevars(rest)]
        if len(m) == 1 and m[0][0].op == "p2" and m[0][0].a[0] is b and c == 1:
            # 2^b (+ rest) == y
            if others:
                return None
            z = sub(y, rest)
            return ilog2(z), band(extra, eq(pc(z), ONE), bnot(lt(z, ONE)))
        if any(at is b and k == 1 for at, k in m) and not any(b in freevars(at) for at, k in oth):
            if not oth and c in (1, -1):
                if others:
                    return None
                z = sub(y, rest) if c == 1 else sub(rest, y)
                return z, (extra if nonneg(z) else band(extra, bnot(lt(z, ZERO))))
            # b * 2^e + u == y with u < 2^e
            e = T._monoexp(tuple(oth), c) if c > 0 else None
            if e is not None:
                s = support(rest)
                if s is not None and nonneg(sub(e, s)):
                    low = and_(y, sub(p2(e), ONE))
                    return shr(y, e), band(extra, eq(rest, low))
        return None
    return None


def disjoint(a, b):
    """a & b == 0 provable"""
    if and_(a, b) is ZERO:
        return True
    for x, y in ((a, b), (b, a)):
        s = support(x)
        if s is not None:
            p = topoly(y)
            if all(m != () and any(at.op == "p2" and nonneg(sub(at.a[0], s)) for at, k in m) for m in p):
                return True
    return False


def eliminate(binders, guard):
    """-> (remaining binders, guard, substitution)"""
    bs = list(binders)
    sub_ = {}
    progress = True
    while progress:
        progress = False
        cj = conjuncts(guard)
        for b in bs:
            for g in cj:
                if g.op != "eq" or b not in freevars(g):
                    continue
                r = solve_eq(g.a[0], g.a[1], b, bs)
                if r is None:
                    continue
                t, extra = r
                if b in freevars(t):
                    continue
                m = {b: t}
                ng = band(*[subst(x, m) for x in cj if x is not g], subst(extra, m), domain(b, t))
                sub_ = {k: subst(v, m) for k, v in sub_.items()}
                sub_[b] = t
                bs.remove(b)
                guard = ng
                progress = True
                break
            if progress:
                break
    return bs, guard, sub_


def exists(binders, guard):
    """exists over binder domains, with elimination"""
    if guard is FALSE:
        return FALSE
    if guard.op == "bor":
        return bor(*[exists(binders, g) for g in guard.a[0]])
    bs, g, _ = eliminate(binders, guard)
    if g.op == "bor" and bs:
        return bor(*[exists(bs, x) for x in g.a[0]])
    # conjuncts free of binders move out
    out, inn = [], []
    for c in conjuncts(g):
        (inn if any(b in freevars(c) for b in bs) else out).append(c)
    used = [b for b in bs if any(b in freevars(c) for c in inn)]
    unused = [b for b in bs if b not in used]
    for b in unused:
        # non-empty domain?
        if b.op == "nv":
            c = lt(ZERO, b.a[1])
            fv = freevars(c)
            if any(q in fv for q in used):
                inn.append(c)
            else:
                out.append(c)
    if not used:
        return band(*(out + inn))
    if len(used) == 1 and len(inn) == 1 and used[0].op == "nv":
        b = used[0]
        c = inn[0]
        # exists b < hi : not (b < d)   <=>   d < hi   (d >= 0)
        if c.op == "bnot" and c.a[0].op == "lt" and c.a[0].a[0] is b and b not in freevars(c.a[0].a[1]):
            d = c.a[0].a[1]
            if nonneg(d):
                return band(*out, lt(d, b.a[1]))
        if c.op == "lt" and c.a[1] is b and b not in freevars(c.a[0]) and nonneg(c.a[0]):
            return band(*out, lt(add(c.a[0], ONE), b.a[1]))
    return band(*out, T.mk("ex", tuple(used), band(*inn)))


def rsum(binders, guard, body):
    """sum over binders with guard, pushing conditions and eliminating binders"""
    if body is R0 or guard is FALSE:
        return R0
    if body.op == "radd":
        return radd(*[rsum(binders, guard, t) for t in body.a[0]])
    if body.op == "rmul" and body.a[0][0].op == "rc" and len(body.a[0]) == 2:
        return rmul(body.a[0][0], rsum(binders, guard, body.a[0][1]))
    if body.op == "rite" and body.a[2] is R0:
        return rsum(binders, band(guard, body.a[0]), body.a[1])
    if body.op == "rite" and body.a[1] is R0:
        return rsum(binders, band(guard, bnot(body.a[0])), body.a[2])
    if guard.op == "band":
        keep = [g for g in guard.a[0]
                if not (g.op == "bnot" and g.a[0].op == "isz" and vanishes(body, g.a[0].a[0]))]
        if len(keep) != len(guard.a[0]):
            return rsum(binders, band(*keep), body)
    elif guard.op == "bnot" and guard.a[0].op == "isz" and vanishes(body, guard.a[0].a[0]):
        guard = TRUE
    bs, g, s = eliminate(binders, guard)
    if s:
        body = subst(body, s)
        return rsum(bs, g, body) if bs else rite(g, body, R0)
    if not bs:
        return rite(g, body, R0)
    # conjuncts free of binders move out
    out, inn = [], []
    for c in conjuncts(g):
        (inn if any(b in freevars(c) for b in bs) else out).append(c)
    if body.op == "rsum":
        inner = mk("rsum", tuple(bs) + tuple(body.a[0]), band(*inn, body.a[1]), body.a[2])
        r = rsum(inner.a[0], inner.a[1], inner.a[2]) if inner is not body else inner
    else:
        r = mk("rsum", tuple(bs), band(*inn), body)
    return rite(band(*out), r, R0) if out else r


def scatter(binders, guard, value, base):
    """value stored for the binder instances selected by guard, base elsewhere"""
    if guard is FALSE:
        return base
    bs, g, s = eliminate(binders, guard)
    v = vsubst(value, s) if s else value
    if not bs:
        return merge(g, v, base)
    if isn(v) and not any(b in freevars(v) for b in bs):
        return merge(exists(bs, g), v, base)
    if isn(v) and T.sort(v) == "r" and isn(base):
        return mk("last", tuple(bs), g, v, base)
    if isn(v) and T.sort(v) == "s":
        return mk("slast", tuple(bs), g, v, base if isn(base) else mk("str", "uninitialised"))
    raise Unsupported("store through a non-injective index")
