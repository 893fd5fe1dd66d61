"""Transfer functions of library operations, selected by method name and receiver."""
import re

from fractions import Fraction as Fr

from . import terms as T
from .terms import (INT, ZERO, ONE, TRUE, FALSE, R0, R1, isn, mk, add, sub, mul, scale, xor, or_, and_, not_, p2,
                    shl, shr, div, rem, eq, lt, le, band, bor, bnot, bxor, odd, freevars, subst, rc, rd, radd,
                    rsub, rmul, rneg, rinv, rf, rite, ite, isz, nonneg, pc, ilog2, Unsupported)
from .vals import (St, En, Arr, Mp, Ref, Vw, It, Clo, FnV, Opq, VIte, Hole, UNIT, tup, some, NONE, ok, err, freshk,
                   vsubst, veq, merge, OPT, RES)
from . import elim
from .interp import (Diverge, State, simp, mkbinder, LoopCtx, pick, flt, fle, int2r, mkisum, smul)

RANGE = ("std::ops::Range", "core::ops::Range", "Range")
RANGEI = ("std::ops::RangeInclusive", "core::ops::RangeInclusive", "RangeInclusive")
RANGEF = ("std::ops::RangeFrom",)


def const_path(path, ty):
    name = path.split("::")[-1]
    if name == "EPSILON":
        return rf("float", mk("str", "EPSILON"))
    if name == "MAX":
        return INT((1 << 64) - 1)
    if name == "BITS":
        return INT(64)
    return None


# ------------------------------------------------------------------ iterators
def as_iter(I, st, v, ref=None):
    if isinstance(v, It):
        return v
    if isinstance(v, Ref):
        x = I.read(st, v)
        if isinstance(x, (It,)):
            return x
        if isinstance(x, (Ref,)):
            return as_iter(I, st, x)
        if isinstance(x, St) and x.kind in RANGE + RANGEI:
            return as_iter(I, st, x)
        if isinstance(x, Mp):
            return It("mp", v)
        return It("arr", view(I, st, v), False)
    if isinstance(v, St):
        if v.kind in RANGE:
            return It("range", v.f[0], v.f[1])
        if v.kind in RANGEI:
            return It("range", v.f[0], add(v.f[1], ONE))
        if v.kind in RANGEF:
            return It("from", v.f[0])
        if v.kind == "arr":
            return It("own", v)
        if v.kind.endswith("GradeIter"):
            return gradeiter(I, v)
    if isinstance(v, Vw):
        return It("arr", v, False)
    if isinstance(v, Arr):
        return It("own", v)
    if isinstance(v, Mp):
        return It("mpown", v)
    if isinstance(v, En) and v.key == OPT:
        return It("opt", v)
    if isinstance(v, VIte):
        raise Unsupported("gated iterator")
    if isinstance(v, Opq) and v.name == "iter":
        return v.a[0]
    raise Unsupported("iteration over %s" % type(v).__name__)


def gradeiter(I, v):
    """fresh GradeIter value by field names"""
    a = I.p.adt(v.kind)
    names = [f[0] for f in a["variants"][0][1]]
    f = dict(zip(names, v.f))
    return It("grade", add(f["pos"], ONE), f["weight"])


def handle(v):
    """a value that names a place or a piece of code, directly or inside a tuple"""
    return isinstance(v, (Ref, Vw, Clo, FnV, It)) or isinstance(v, St) and any(handle(x) for x in v.f)


def literal(it):
    """items of a literal array of places: each is visited on its own, as written"""
    if it.k == "own" and isinstance(it.a[0], St) and len(it.a[0].f) <= 8 and any(handle(x) for x in it.a[0].f):
        return list(it.a[0].f)
    if it.k == "enumerate":
        xs = literal(it.a[0])
        return xs and [tup(INT(i), x) for i, x in enumerate(xs)]
    if it.k == "rev":
        xs = literal(it.a[0])
        return xs and xs[::-1]
    if it.k == "zip":
        xs, ys = literal(it.a[0]), literal(it.a[1])
        if xs and ys:
            return [tup(x, y) for x, y in zip(xs, ys)]
        for i, zs in ((1, xs), (0, ys)):
            o = it.a[i]
            if zs and o.k == "own" and isinstance(o.a[0], St):
                return [tup(x, y) if i else tup(y, x) for x, y in zip(zs, o.a[0].f)]
    return None


def once(it):
    return it.k == "once" or it.k in ("map", "cloned", "inspect") and once(it.a[0])


def chain_parts(it):
    if it.k == "chain":
        return chain_parts(it.a[0]) + chain_parts(it.a[1])
    xs = literal(it)
    if xs:
        return [It("once", x) for x in xs]
    if it.k in ("map", "filter", "filter_map", "cloned", "inspect") and it.a[0].k in ("chain", "map", "filter", "cloned",
                                                                                  "filter_map", "inspect", "own",
                                                                                  "enumerate", "zip", "rev"):
        ps = chain_parts(it.a[0])
        if len(ps) > 1:
            return [It(it.k, p, *it.a[1:]) for p in ps]
    return [it]


def imin(a, b):
    if nonneg(sub(b, a)):
        return a
    if nonneg(sub(a, b)):
        return b
    return ite(lt(a, b), a, b)


def monus(a, b):
    d = sub(a, b)
    if nonneg(d):
        return d
    return ite(lt(a, b), ZERO, d)


def count(I, st, it):
    """number of items if the iterator is indexable, else None"""
    k = it.k
    if k == "range":
        return sub(it.a[1], it.a[0])
    if k == "arr":
        if len(it.a[0].shape) == 1:
            return it.a[0].shape[0]
        return None
    if k == "axis":
        return it.a[0].shape[it.a[1]]
    if k == "own":
        v = it.a[0]
        if isinstance(v, St):
            return INT(len(v.f))
        return v.shape[0] if len(v.shape) == 1 else None
    if k == "tmpl":
        return it.a[1]
    if k in ("map", "enumerate", "cloned", "rev", "inspect"):
        return count(I, st, it.a[0])
    if k == "zip":
        a, b = count(I, st, it.a[0]), count(I, st, it.a[1])
        if it.a[0].k == "from":
            return b
        if it.a[1].k == "from":
            return a
        if a is None or b is None:
            return None
        return imin(a, b)
    if k == "take":
        a = count(I, st, it.a[0])
        if it.a[0].k in ("repeat", "from"):
            return it.a[1]
        return None if a is None else imin(a, it.a[1])
    if k == "skip":
        a = count(I, st, it.a[0])
        return None if a is None else monus(a, it.a[1])
    if k == "step":
        a = count(I, st, it.a[0])
        return None if a is None else div(add(a, sub(it.a[1], ONE)), it.a[1])
    if k == "once":
        return ONE
    if k == "empty":
        return ZERO
    return None


def nth(I, st, it, o):
    k = it.k
    if k == "range":
        return add(it.a[0], o)
    if k == "from":
        return add(it.a[0], o)
    if k == "arr":
        v, indexed = it.a
        r = v.at((o,))
        return tup(o, r) if indexed else r
    if k == "axis":
        return axis_view(it.a[0], it.a[1], o)
    if k == "own":
        v = it.a[0]
        return pick(v.f, o) if isinstance(v, St) else v.at((o,))
    if k == "tmpl":
        return tmpl_item(I, st, it, o)
    if k == "map":
        x = nth(I, st, it.a[0], o)
        return I.call_value(st, it.a[1], [x])
    if k == "inspect":
        x = nth(I, st, it.a[0], o)
        I.call_value(st, it.a[1], [I.tmpref(st, x)])
        return x
    if k == "enumerate":
        return tup(o, nth(I, st, it.a[0], o))
    if k == "cloned":
        return clone(I, st, nth(I, st, it.a[0], o))
    if k == "rev":
        n = count(I, st, it.a[0])
        return nth(I, st, it.a[0], sub(sub(n, ONE), o))
    if k == "zip":
        return tup(nth(I, st, it.a[0], o), nth(I, st, it.a[1], o))
    if k == "take":
        return nth(I, st, it.a[0], o)
    if k == "skip":
        return nth(I, st, it.a[0], add(o, it.a[1]))
    if k == "step":
        return nth(I, st, it.a[0], mul(o, it.a[1]))
    if k == "once":
        return it.a[0]
    if k == "repeat":
        return it.a[0]
    raise Unsupported("nth item of %s" % k)


def tmpl_item(I, st, it, o):
    var, n, val = it.a[0], it.a[1], it.a[2]
    v = vsubst(val, {var: o})
    if len(it.a) > 3 and it.a[3]:
        # items are references
        return I.tmpref(st, v)
    return v


def pull(I, st, it, ctx):
    """one symbolic item: adds binders to ctx and conditions to st; -> (item, ordinal)"""
    n = count(I, st, it)
    if n is not None:
        if n is ZERO:
            raise Diverge()
        if ctx.single:
            return nth(I, st, it, ZERO), ZERO
        n = I_simp_int(n, st.facts)
        o = mkbinder(n)
        ctx.binders.append(o)
        ctx.count = n
        ctx.ord = o
        ctx.pos = (o,)
        return nth(I, st, it, o), o
    k = it.k
    if k == "arr":
        v, indexed = it.a
        bs = [mkbinder(s) for s in v.shape]
        ctx.binders.extend(bs)
        r = v.at(tuple(bs))
        ctx.ord = None
        ctx.pos = tuple(bs)
        if indexed:
            return tup(St("tup", bs), r), None
        return r, None
    if k == "own":
        v = it.a[0]
        bs = [mkbinder(s) for s in v.shape]
        ctx.binders.extend(bs)
        ctx.pos = tuple(bs)
        return v.at(tuple(bs)), None
    if k in ("mp", "mpown"):
        ref = it.a[0]
        m = I.read(st, ref) if k == "mp" else ref
        if isinstance(m, Ref):
            ref = m
            m = I.read(st, ref)
        b, guard = map_key(I, st, m)
        ctx.binders.append(b)
        ctx.pos = (b,)         # any order: ascending stands for it
        st.assume(simp(guard, st.facts))
        if k == "mpown":
            return tup(b, m.at(b)), None
        return tup(I.tmpref(st, b), ref.ext(("ix", (b,)))), None
    if k in ("keys", "values"):
        x, _ = pull(I, st, it.a[0], ctx)
        return (x.f[0] if k == "keys" else x.f[1]), None
    if k == "grade":
        n, w = it.a
        b = T.VAR(T.fresh("g"), n)
        ctx.binders.append(b)
        ctx.pos = (b,)
        st.assume(simp(eq(pc(b), w), st.facts))
        return b, None
    if k == "map":
        x, o = pull(I, st, it.a[0], ctx)
        return I.call_value(st, it.a[1], [x]), o
    if k == "inspect":
        x, o = pull(I, st, it.a[0], ctx)
        I.call_value(st, it.a[1], [I.tmpref(st, x)])
        return x, o
    if k == "cloned":
        x, o = pull(I, st, it.a[0], ctx)
        return clone(I, st, x), o
    if k == "filter":
        x, o = pull(I, st, it.a[0], ctx)
        c = I.call_value(st, it.a[1], [I.tmpref(st, x)])
        st.assume(simp(c, st.facts))
        ctx.count = None
        ctx.ord = None
        return x, None
    if k == "filter_map":
        x, o = pull(I, st, it.a[0], ctx)
        v = I.call_value(st, it.a[1], [x])
        d, pay = opt_parts(v)
        st.assume(simp(d, st.facts))
        ctx.count = None
        ctx.ord = None
        return pay, None
    if k == "flat":
        x, o = pull(I, st, it.a[0], ctx)
        v = I.call_value(st, it.a[1], [x]) if it.a[1] is not None else x
        outer = ctx.pos
        y, _ = pull(I, st, as_iter(I, st, v), ctx)
        ctx.pos = outer + ctx.pos if outer and ctx.pos else None
        ctx.count = None
        ctx.ord = None
        return y, None
    if k == "rev":
        x, o = pull(I, st, it.a[0], ctx)
        ctx.pos = tuple(sub(ZERO, q) for q in ctx.pos) if ctx.pos else None
        return x, None
    if k == "opt":
        d, pay = opt_parts(it.a[0])
        st.assume(simp(d, st.facts))
        return pay, None
    if k == "empty":
        raise Diverge()
    if k == "enumerate":
        base = len(st.facts)
        x, o = pull(I, st, it.a[0], ctx)
        ctx.count = None
        if ctx.pos:
            return tup(I.earlier(ctx.binders, band(*st.facts[base:]), ONE, ctx), x), None
        return tup(T.ifn("rank", mk("str", T.fresh("rank")), *ctx.binders), x), None
    if k == "zip":
        sh, sh2 = mshape(it.a[0]), mshape(it.a[1])
        if sh is None or sh2 is None or len(sh) != len(sh2) or not all(
                simp(eq(x, y), st.facts) is TRUE for x, y in zip(sh, sh2)):
            raise Unsupported("iteration over zip of differently shaped sequences")
        bs = tuple(mkbinder(n) for n in sh)
        ctx.binders.extend(bs)
        ctx.ord = None
        ctx.pos = bs
        return itemat(I, st, it, bs), None
    if k == "from" and I.conf.get("series"):
        o = mkbinder(INT(1 << 63))
        ctx.binders.append(o)
        ctx.ord, ctx.count = o, INT(1 << 63)
        return add(it.a[0], o), o
    raise Unsupported("iteration over %s" % k)


def mshape(it):
    """shape of the array that an item-by-item sequence walks through in memory order, else None"""
    if it.k in ("arr", "own"):
        return it.a[0].shape
    if it.k in ("map", "cloned", "inspect"):
        return mshape(it.a[0])
    if it.k == "zip":
        return mshape(it.a[0])
    return None


def itemat(I, st, it, bs):
    """item of such a sequence at array position bs"""
    if it.k == "arr":
        r = it.a[0].at(bs)
        return tup(St("tup", list(bs)), r) if it.a[1] else r
    if it.k == "own":
        return it.a[0].at(bs)
    if it.k == "map":
        return I.call_value(st, it.a[1], [itemat(I, st, it.a[0], bs)])
    if it.k == "cloned":
        return clone(I, st, itemat(I, st, it.a[0], bs))
    if it.k == "inspect":
        x = itemat(I, st, it.a[0], bs)
        I.call_value(st, it.a[1], [I.tmpref(st, x)])
        return x
    return tup(itemat(I, st, it.a[0], bs), itemat(I, st, it.a[1], bs))


def I_simp_int(n, facts):
    if n.op == "ite":
        c = simp(n.a[0], facts)
        return ite(c, I_simp_int(n.a[1], facts), I_simp_int(n.a[2], facts))
    return n


def map_key(I, st, m):
    e = keybound(m.body, m.k)
    if e is None:
        e = I.mapdim
    if e is None:
        raise Unsupported("unbounded map keys")
    b = T.VAR(T.fresh("k"), e)
    body = m.at(b)
    return b, bnot(isz(body))


def emax(a, b):
    if a is None or b is None:
        return None
    if nonneg(sub(a, b)):
        return a
    if nonneg(sub(b, a)):
        return b
    return None


RDSUP = {}


def keybound(t, k):
    """exponent e with content zero outside keys < 2^e, or None"""
    if t is R0:
        return ZERO
    op = t.op
    if op == "rd":
        if t.a[1] and t.a[1][0] is k:
            return RDSUP.get(t.a[0])
        return None
    if op == "rmul":
        best = None
        for u in t.a[0]:
            e = keybound(u, k)
            if e is not None:
                best = e if best is None or nonneg(sub(best, e)) else best
        return best
    if op == "radd":
        e = ZERO
        for u in t.a[0]:
            e = emax(e, keybound(u, k))
            if e is None:
                return None
        return e
    if op == "rsum":
        e = condbound(t.a[1], k)
        return e if e is not None else keybound(t.a[2], k)
    if op == "rite":
        c = t.a[0]
        out = []
        for cc, x in ((c, t.a[1]), (bnot(c), t.a[2])):
            e = condbound(cc, k)
            f = keybound(x, k)
            if e is None:
                e = f
            elif f is not None and nonneg(sub(e, f)):
                e = f
            out.append(e)
        return emax(out[0], out[1])
    if op == "rf" and t.a[0] in T.STRICT:
        return keybound(t.a[1], k)
    if op == "rtab":
        e = ZERO
        for u in t.a[1]:
            e = emax(e, keybound(u, k))
            if e is None:
                return None
        return e
    return None


def condbound(c, k):
    best = None
    for g in elim.conjuncts(c):
        e = None
        if g.op == "eq":
            o = g.a[1] if g.a[0] is k else (g.a[0] if g.a[1] is k else None)
            if o is not None:
                e = T.support(o)
        elif g.op == "lt" and g.a[0] is k:
            p = T.topoly(g.a[1])
            if len(p) == 1:
                (m, cc), = p.items()
                e = T._monoexp(m, cc)
        if e is not None and (best is None or nonneg(sub(best, e))):
            best = e
    return best


def opt_parts(v):
    if isinstance(v, VIte):
        d1, p1 = opt_parts(v.x)
        d2, p2_ = opt_parts(v.y)
        return T.bite(v.c, d1, d2), merge(v.c, p1, p2_) if p1 is not None and p2_ is not None else (p1 or p2_)
    if not isinstance(v, En):
        raise Unsupported("expected Option, found %s" % type(v).__name__)
    return eq(v.d, ONE), (v.p[1][0] if 1 in v.p else None)


def consume(I, st, it, step):
    """run `step(state, item)` for every item, summarised; returns None (effects in st)"""
    for part in chain_parts(it):
        def body(s, ctx):
            try:
                x, o = pull(I, s, part, ctx)
                ctx.ord = o
                step(s, x)
            except Diverge:
                return []
            return [("next", s)]
        done, early = (I.visit if once(part) else I.summarise)(st, body)
        if not done:
            raise Diverge()
        st.become(done[0])


def single_next(I, st, r):
    """next() outside a recognised loop"""
    v = I.read(st, r)
    it = as_iter(I, st, v, r)
    n = count(I, st, it)
    if n is None:
        raise Unsupported("single next() on %s" % it.k)
    has = simp(lt(it.a[1], count(I, st, it.a[0])) if it.k == "skip" else lt(ZERO, n), st.facts)
    I.write(st, r, It("skip", it.a[0], add(it.a[1], ONE)) if it.k == "skip" else It("skip", it, ONE))
    if has is FALSE:
        return NONE
    x = nth(I, st, it, ZERO)
    return En(OPT, ite(has, ONE, ZERO), {1: (x,)})


# ------------------------------------------------------------------ arrays
def view(I, st, v):
    """array-like value -> full view"""
    if isinstance(v, Vw):
        return v
    if isinstance(v, Ref):
        x = I.read(st, v)
        if isinstance(x, Vw):
            return x
        if isinstance(x, Ref):
            return view(I, st, x)
        if isinstance(x, Arr):
            vs = [freshk() for _ in x.shape]
            return Vw(v, x.shape, vs, vs)
        if isinstance(x, St) and x.kind == "arr":
            k = freshk()
            return Vw(v, (INT(len(x.f)),), (k,), (k,))
        if isinstance(x, VIte):
            a, b = arrays_of(x)
            if a is not None:
                vs = [freshk() for _ in a.shape]
                return Vw(v, [ite(x.c, p, q) for p, q in zip(a.shape, b.shape)], vs, vs)
    if isinstance(v, Arr) or (isinstance(v, St) and v.kind == "arr"):
        return view(I, st, I.tmpref(st, v))
    raise Unsupported("array view of %s" % type(v).__name__)


def arrays_of(x):
    if isinstance(x, VIte) and isinstance(x.x, Arr) and isinstance(x.y, Arr):
        return x.x, x.y
    return None, None


def isarr(I, st, v):
    while isinstance(v, Ref):
        v = I.read(st, v)
    return isinstance(v, (Arr, Vw)) or (isinstance(v, St) and v.kind == "arr")


def materialise(I, st, v, kind="nd"):
    """owned copy of a view"""
    w = view(I, st, v)
    ks = [freshk() for _ in w.shape]
    return Arr(w.shape, ks, clone(I, st, I.read(st, w.at(tuple(ks)))), kind)


def axis_view(v, ax, i):
    """sub-view with axis `ax` fixed to i"""
    vs = v.vs[:ax] + v.vs[ax + 1:]
    shape = v.shape[:ax] + v.shape[ax + 1:]
    m = {v.vs[ax]: i}
    return Vw(v.base, shape, vs, [subst(e, m) for e in v.ix])


def slice_view(v, specs):
    """specs per axis: (lo, hi, step) or index"""
    vs, shape, m = [], [], {}
    for k, s, sp in zip(v.vs, v.shape, specs):
        if isn(sp):
            m[k] = sp
        else:
            lo, hi, step = sp
            nk = freshk()
            vs.append(nk)
            if hi is None:
                hi = s
            n = sub(hi, lo)
            if step is not ONE:
                n = div(add(n, sub(step, ONE)), step)
            shape.append(n)
            m[k] = add(lo, mul(nk, step))
    return Vw(v.base, shape, vs, [subst(e, m) for e in v.ix])


def store_view(I, st, w, f):
    """for every index v of view w: base[w.ix(v)] = f(v)"""
    base = I.read(st, w.base)
    if isinstance(base, Vw):
        m = dict(zip(base.vs, w.ix))
        return store_view(I, st, Vw(base.base, w.shape, w.vs, [subst(e, m) for e in base.ix]), f)
    if isinstance(base, Ref):
        return store_view(I, st, Vw(base, w.shape, w.vs, w.ix), f)
    if not isinstance(base, Arr):
        raise Unsupported("store into a view of %r" % (base,))
    bs = [mkbinder(s) for s in w.shape]
    m = dict(zip(w.vs, bs))
    val = f(tuple(bs))
    g = band(*[eq(k, subst(e, m)) for k, e in zip(base.ks, w.ix)])
    facts = tuple(lt(k, s) for k, s in zip(base.ks, base.shape))
    rb, g2, s2 = elim.eliminate(bs, g)
    g2 = simp(g2, facts)
    if rb:
        body = elim.scatter(rb, g2, vsubst(val, s2), base.body)
    else:
        body = merge(g2, vsubst(val, s2), base.body)
    I.write(st, w.base, Arr(base.shape, base.ks, body, base.kind))


def shape_arg(I, st, v):
    v = I.deep(st, v)
    if isn(v):
        return [v]
    if isinstance(v, St) and v.kind in ("arr", "tup"):
        out = []
        for x in v.f:
            out.append(I.deep(st, x))
        return out
    if isinstance(v, St) and v.kind == "dim":
        return list(v.f)
    if isinstance(v, Arr):
        n = v.shape[0]
        if T.isint(n):
            return [v.at((INT(i),)) for i in range(n.a[0])]
    raise Unsupported("shape %s" % type(v).__name__)


def index_arg(I, st, v):
    v = I.deep(st, v)
    if isn(v):
        return (v,)
    if isinstance(v, St) and v.kind in ("arr", "tup", "dim"):
        return tuple(I.deep(st, x) for x in v.f)
    raise Unsupported("array index %s" % type(v).__name__)


def axis_arg(I, st, v):
    v = I.deep(st, v)
    if isinstance(v, St) and len(v.f) == 1:
        v = v.f[0]
    if isn(v) and T.isint(v):
        return v.a[0]
    raise Unsupported("axis")


def elem(I, st, v):
    """scalar (or structured) value behind references"""
    return I.deep(st, v)


def zero_of(I, st, ty, fr):
    return ring_const(I, st, ty, 0)


def ring_const(I, st, ty, n):
    if ty[0] == "sym" or ty in (("prim", "f64"), ("prim", "f32")) or \
            (ty[0] == "adt" and ty[1].endswith("::Complex")):
        return rc(n)
    if ty[0] == "prim":
        return INT(n)
    return None


def clone(I, st, v):
    if isinstance(v, Ref):
        return clone(I, st, I.read(st, v))
    if isinstance(v, VIte):
        return merge(v.c, clone(I, st, v.x), clone(I, st, v.y))
    if isinstance(v, Vw):
        return v
    if isinstance(v, Hole):
        raise Unsupported("read of a value that depends on loop order (%s)" % v.why)
    return v


# ---------------------------------------------------------------- dispatcher
REG = {}


def model(*names):
    def deco(f):
        for n in names:
            REG.setdefault(n, []).append(f)
        return f
    return deco


NI = NotImplemented

PANIC_PATHS = ("core::panicking::", "std::rt::panic", "core::option::unwrap_failed", "core::option::expect_failed",
               "core::result::unwrap_failed", "std::panicking", "core::slice::index::", "std::process::")


class Call:
    __slots__ = ("I", "fr", "st", "f", "t", "a", "span", "name", "path")

    def __init__(self, I, fr, st, f, t, a, span):
        self.I, self.fr, self.st, self.f, self.t, self.a, self.span = I, fr, st, f, t, a, span
        self.name = f["name"]
        self.path = f["path"]


def builtin(I, fr, st, f, targs, args, span):
    path = f["path"]
    if any(path.startswith(p) for p in PANIC_PATHS):
        if I.record_panics:
            I.panics.append({"kind": "panic", "fn": I.stack[-1].fn.get("path") if I.stack else "?", "span": span,
                             "cond": TRUE, "facts": st.facts, "stack": [x.fn.get("path") for x in I.stack]})
        raise Diverge()
    c = Call(I, fr, st, f, targs, args, span)
    for m in REG.get(f["name"], ()):
        r = m(c)
        if r is not NI:
            return r
    raise Unsupported("call of %s (%s)" % (path, ", ".join(type(I.deep(st, a)).__name__ if not isn(a) else T.sort(a)
                                                            for a in args)))


def isring(x):
    return isn(x) and T.sort(x) == "r"


def isint_(x):
    return isn(x) and T.sort(x) == "i"


def isbool(x):
    return isn(x) and T.sort(x) == "b"


def isstr(x):
    return isn(x) and T.sort(x) == "s"


# ---- ring / arithmetic traits
def arith(name, fr_, fi):
    assign = name + "_assign"

    @model(name)
    def _m(c):
        I, st = c.I, c.st
        a, b = I.deep(st, c.a[0]), I.deep(st, c.a[1])
        return arith2(I, st, fr_, fi, a, b, c)

    @model(assign)
    def _ma(c):
        I, st = c.I, c.st
        a, b = I.deep(st, c.a[0]), I.deep(st, c.a[1])
        if isinstance(a, (Arr, Vw)):
            w = view(I, st, c.a[0])
            if isinstance(b, (Arr, Vw)):
                wb = view(I, st, b if isinstance(b, Vw) else c.a[1])
                store_view(I, st, w, lambda i: arith2(I, st, fr_, fi, I.read(st, w.at(i)), I.read(st, wb.at(i)), c))
            else:
                store_view(I, st, w, lambda i: arith2(I, st, fr_, fi, I.read(st, w.at(i)), b, c))
            return UNIT
        r = arith2(I, st, fr_, fi, a, b, c)
        if r is NI:
            return r
        if not isinstance(c.a[0], Ref):
            return NI
        I.write_checked(st, c.a[0], r, c.span)
        return UNIT


def arith2(I, st, fr_, fi, a, b, c):
    if isinstance(a, VIte):
        return merge(a.c, arith2(I, st, fr_, fi, a.x, b, c), arith2(I, st, fr_, fi, a.y, b, c))
    if isinstance(b, VIte):
        return merge(b.c, arith2(I, st, fr_, fi, a, b.x, c), arith2(I, st, fr_, fi, a, b.y, c))
    if isn(a) and isn(b):
        if isring(a) or isring(b):
            return fr_(toring(a), toring(b))
        if isint_(a) and isint_(b):
            return fi(a, b)
        if isstr(a) and isstr(b) and fi is add:
            return T.scat(a, b)
        return NI
    if isinstance(a, (Arr, Vw)) and isinstance(b, (Arr, Vw)):
        wa, wb = view(I, st, a), view(I, st, b)
        if len(wa.shape) != len(wb.shape):
            raise Unsupported("broadcast")
        for x, y in zip(wa.shape, wb.shape):
            I.require(st, eq(x, y), "ndarray shape mismatch", c.span)
        ks = [freshk() for _ in wa.shape]
        return Arr(wa.shape, ks, arith2(I, st, fr_, fi, I.read(st, wa.at(tuple(ks))), I.read(st, wb.at(tuple(ks))), c))
    if isinstance(a, (Arr, Vw)) and isn(b):
        wa = view(I, st, a)
        ks = [freshk() for _ in wa.shape]
        return Arr(wa.shape, ks, arith2(I, st, fr_, fi, I.read(st, wa.at(tuple(ks))), b, c))
    if isn(a) and isinstance(b, (Arr, Vw)):
        wa = view(I, st, b)
        ks = [freshk() for _ in wa.shape]
        return Arr(wa.shape, ks, arith2(I, st, fr_, fi, a, I.read(st, wa.at(tuple(ks))), c))
    return NI


def toring(a):
    if isring(a):
        return a
    return int2r(a)


arith("add", radd, add)
arith("sub", rsub, sub)
arith("mul", rmul, smul)
arith("div", lambda a, b: rmul(a, rinv(b)), div)
arith("rem", lambda a, b: rf("rem", a, b), rem)


def bitarith(name, fi, fb):
    @model(name)
    def _m(c):
        a, b = c.I.deep(c.st, c.a[0]), c.I.deep(c.st, c.a[1])
        if isint_(a) and isint_(b):
            return fi(a, b)
        if isbool(a) and isbool(b) and fb:
            return fb(a, b)
        return NI

    @model(name + "_assign")
    def _ma(c):
        a, b = c.I.deep(c.st, c.a[0]), c.I.deep(c.st, c.a[1])
        if isint_(a) and isint_(b):
            r = fi(a, b)
        elif isbool(a) and isbool(b) and fb:
            r = fb(a, b)
        else:
            return NI
        c.I.write(c.st, c.a[0], r)
        return UNIT


bitarith("bitxor", xor, bxor)
bitarith("bitand", and_, band)
bitarith("bitor", or_, bor)
bitarith("shl", shl, None)
bitarith("shr", shr, None)


def to_text(v):
    """an integer as text"""
    return mk("str", str(v.a[0])) if v.op == "int" else mk("sf", "to_string", v)


@model("neg")
def m_neg(c):
    a = c.I.deep(c.st, c.a[0])
    return neg1(c, a)


def neg1(c, a):
    if isinstance(a, VIte):
        return merge(a.c, neg1(c, a.x), neg1(c, a.y))
    if isring(a):
        return rneg(a)
    if isint_(a):
        return scale(a, -1)
    if isinstance(a, (Arr, Vw)):
        w = view(c.I, c.st, a)
        ks = [freshk() for _ in w.shape]
        return Arr(w.shape, ks, neg1(c, c.I.read(c.st, w.at(tuple(ks)))))
    return NI


@model("not")
def m_not(c):
    a = c.I.deep(c.st, c.a[0])
    if isbool(a):
        return bnot(a)
    if isint_(a):
        return not_(a)
    return NI


@model("zero", "one")
def m_zero(c):
    n = 0 if c.name == "zero" else 1
    r = ring_const(c.I, c.st, c.t[0], n) if c.t else None
    return NI if r is None else r


@model("is_zero", "is_one")
def m_iszero(c):
    a = c.I.deep(c.st, c.a[0])
    if isring(a):
        return isz(a) if c.name == "is_zero" else T.req(a, R1)
    if isint_(a):
        return eq(a, ZERO if c.name == "is_zero" else ONE)
    return NI


@model("set_zero", "set_one")
def m_setzero(c):
    a = c.I.deep(c.st, c.a[0])
    n = 0 if c.name == "set_zero" else 1
    if isring(a):
        c.I.write_checked(c.st, c.a[0], rc(n), c.span)
        return UNIT
    return NI


@model("eq", "ne")
def m_eq(c):
    if "iter::Iterator" in c.path:
        r = iter_eq(c)
        return r if r is NI or c.name == "eq" else bnot(r)
    r = veq_cond(c.I, c.st, c.a[0], c.a[1], c)
    if r is NI:
        return NI
    return r if c.name == "eq" else bnot(r)


def iter_eq(c):
    """two iterations give equally many items, equal in pairs"""
    I, st = c.I, c.st
    x, y = as_iter(I, st, c.a[0]), as_iter(I, st, c.a[1])
    n, m = count(I, st, x), count(I, st, y)
    if n is None or m is None:
        return NI
    cell = I.newcell(st, TRUE)
    bad = []

    def step(s, p):
        p = I.deep(s, p)
        q = veq_cond(I, s, p.f[0], p.f[1], c)
        if q is NI:
            bad.append(1)
            return
        s.cells[cell] = band(s.cells[cell], q)
    consume(I, st, It("zip", x, y), step)
    v = st.cells.pop(cell)
    if bad:
        return NI
    if isinstance(v, Hole):
        raise Unsupported(v.why)
    return band(eq(n, m), v)


def veq_cond(I, st, a, b, c):
    a, b = I.deep(st, a), I.deep(st, b)
    if isinstance(a, VIte):
        return T.bite(a.c, veq_cond(I, st, a.x, b, c), veq_cond(I, st, a.y, b, c))
    if isinstance(b, VIte):
        return T.bite(b.c, veq_cond(I, st, a, b.x, c), veq_cond(I, st, a, b.y, c))
    if isn(a) and isn(b):
        if T.sort(a) == "b":
            return bnot(bxor(a, b))
        return eq(a, b)
    if isinstance(a, En) and isinstance(b, En):
        e = eq(a.d, b.d)
        for k in a.p:
            if k in b.p:
                for x, y in zip(a.p[k], b.p[k]):
                    q = veq_cond(I, st, x, y, c)
                    if q is NI:
                        return NI
                    e = band(e, bor(bnot(eq(a.d, INT(k))), q))
        return e
    if isinstance(a, (Arr, Vw)) or isinstance(b, (Arr, Vw)) or (isinstance(a, St) and a.kind == "arr"):
        wa, wb = view(I, st, a), view(I, st, b)
        if len(wa.shape) != len(wb.shape):
            return FALSE
        bs = [mkbinder(s) for s in wa.shape]
        q = veq_cond(I, st, wa.at(tuple(bs)), wb.at(tuple(bs)), c)
        if q is NI:
            return NI
        return band(*[eq(x, y) for x, y in zip(wa.shape, wb.shape)], bnot(elim.exists(bs, bnot(q))))
    if isinstance(a, St) and isinstance(b, St) and len(a.f) == len(b.f):
        e = TRUE
        for x, y in zip(a.f, b.f):
            q = veq_cond(I, st, x, y, c)
            if q is NI:
                return NI
            e = band(e, q)
        return e
    if isinstance(a, Mp) and isinstance(b, Mp):
        k, g = map_key(I, st, a)
        k2, g2 = map_key(I, st, b)
        e = emax(k.a[1], k2.a[1])
        if e is None:
            raise Unsupported("map equality")
        kk = T.VAR(T.fresh("k"), e)
        return bnot(elim.exists([kk], bnot(T.req(a.at(kk), b.at(kk)))))
    return NI


@model("lt", "le", "gt", "ge")
def m_cmp(c):
    a, b = c.I.deep(c.st, c.a[0]), c.I.deep(c.st, c.a[1])
    if not (isn(a) and isn(b)):
        return NI
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[c.name]
    return c.I.binop(c.st, op, a, b)


@model("cmp")
def m_cmp3(c):
    a, b = c.I.deep(c.st, c.a[0]), c.I.deep(c.st, c.a[1])
    if isint_(a) and isint_(b):
        return c.I.binop(c.st, "Cmp", a, b)
    return NI


@model("is_even", "is_odd")
def m_even(c):
    a = c.I.deep(c.st, c.a[0])
    if isint_(a):
        return odd(a) if c.name == "is_odd" else bnot(odd(a))
    return NI


@model("count_ones")
def m_co(c):
    return pc(c.I.deep(c.st, c.a[0]))


@model("count_zeros")
def m_cz(c):
    return sub(INT(64), pc(c.I.deep(c.st, c.a[0])))


@model("ilog2")
def m_il(c):
    a = c.I.deep(c.st, c.a[0])
    c.I.require(c.st, bnot(eq(a, ZERO)), "ilog2 of zero", c.span)
    return ilog2(a)


@model("trailing_zeros")
def m_tz(c):
    a = c.I.deep(c.st, c.a[0])
    p = T.topoly(a)
    if len(p) == 1:
        (m, k), = p.items()
        e = T._monoexp(m, k)
        if e is not None:
            return e
    return T.ifn("tz", a)


@model("leading_zeros")
def m_lz(c):
    a = c.I.deep(c.st, c.a[0])
    if T.isint(a):
        return INT(64 - a.a[0].bit_length())
    return ite(eq(a, ZERO), INT(64), sub(INT(63), ilog2(a)))


@model("is_power_of_two")
def m_ip2(c):
    a = c.I.deep(c.st, c.a[0])
    return eq(pc(a), ONE)


@model("next_power_of_two")
def m_np2(c):
    a = c.I.deep(c.st, c.a[0])
    p = T.topoly(a)
    if len(p) == 1:
        (m, k), = p.items()
        if T._monoexp(m, k) is not None:
            return a
    return NI


@model("wrapping_add", "saturating_add", "checked_add", "wrapping_sub", "wrapping_mul", "saturating_mul", "wrapping_shl",
       "wrapping_shr", "unchecked_add", "unchecked_sub")
def m_wr(c):
    a = c.I.deep(c.st, c.a[0]) if not isinstance(c.a[0], Ref) or isn(c.I.deep(c.st, c.a[0])) else c.a[0]
    b = c.I.deep(c.st, c.a[1])
    if not (isint_(a) and isint_(b)):
        return NI
    op = c.name.split("_")[1]
    if op == "sub" and c.name.startswith("wrapping") and not nonneg(sub(a, b)):
        return NI
    r = {"add": add, "sub": sub, "mul": smul, "shl": shl, "shr": shr}[op](a, b)
    ty = re.search(r"\b([ui]\d+|usize)\b", c.path)
    if ty and c.name.startswith("wrapping") and op in ("shl", "shr"):
        r = c.I.shift_in(("prim", ty.group(1)), op.capitalize(), a, b)
    elif ty and c.name.startswith("wrapping"):
        r = T.wrap(r, ("prim", ty.group(1)))
    if c.name.startswith("checked"):
        return fits(r, prim_of(c.path))
    return r


def prim_of(path):
    m = re.search(r"\b([ui]\d+|[ui]size)\b", path)
    return m.group(1) if m else None


def fits(r, ty):
    """the value if the type can hold it"""
    if not ty or ty[1:] in ("64", "128", "size"):
        return some(r)
    w = int(ty[1:])
    lo, hi = (0, 1 << w) if ty[0] == "u" else (-(1 << w - 1), 1 << w - 1)
    return En(OPT, ite(T.bor(lt(r, INT(lo)), bnot(lt(r, INT(hi)))), ZERO, ONE), {1: (r,)})


@model("rotate_left", "rotate_right")
def m_rot(c):
    a, b = c.I.deep(c.st, c.a[0]), c.I.deep(c.st, c.a[1])
    ty = re.search(r"\bu(\d+|size)\b", c.path)
    if not (ty and "num::" in c.path and isint_(a) and isint_(b)):
        return NI
    w = 64 if ty.group(1) == "size" else int(ty.group(1))
    k = rem(b, INT(w))
    if c.name == "rotate_right":
        k = rem(sub(INT(w), k), INT(w))
    return add(T.wrap(shl(a, k), ("prim", ty.group(0))), ite(eq(k, ZERO), ZERO, shr(a, sub(INT(w), k))))


@model("saturating_sub")
def m_ss(c):
    a, b = c.I.deep(c.st, c.a[0]), c.I.deep(c.st, c.a[1])
    if isint_(a) and isint_(b):
        return monus(a, b)
    return NI


@model("checked_sub")
def m_cs(c):
    a, b = c.I.deep(c.st, c.a[0]), c.I.deep(c.st, c.a[1])
    if isint_(a) and isint_(b):
        return En(OPT, ite(lt(a, b), ZERO, ONE), {1: (sub(a, b),)})
    return NI


@model("checked_shl", "checked_div", "checked_rem", "checked_mul")
def m_cshl(c):
    a, b = c.I.deep(c.st, c.a[0]), c.I.deep(c.st, c.a[1])
    if not (isint_(a) and isint_(b)):
        return NI
    ty = prim_of(c.path)
    if c.name == "checked_shl":
        w = 64 if not ty or ty.endswith("size") else int(ty[1:])
        return En(OPT, ite(lt(b, INT(w)), ONE, ZERO), {1: (T.wrap(shl(a, b), ("prim", ty)) if w < 64 else shl(a, b),)})
    if c.name == "checked_mul":
        return fits(smul(a, b), ty)
    f = div if c.name == "checked_div" else rem
    return En(OPT, ite(eq(b, ZERO), ZERO, ONE), {1: (f(a, b),)})


@model("pow")
def m_pow(c):
    a, b = c.I.deep(c.st, c.a[0]), c.I.deep(c.st, c.a[1])
    if isint_(a) and isint_(b):
        if a is INT(2):
            return p2(b)
        if T.isint(b):
            r = ONE
            for _ in range(b.a[0]):
                r = smul(r, a)
            return r
        if a is INT(-1):
            return ite(odd(b), INT(-1), ONE)
    return NI


@model("powi", "powu")
def m_powi(c):
    a, b = c.I.deep(c.st, c.a[0]), c.I.deep(c.st, c.a[1])
    if isring(a) and isint_(b):
        if T.isint(b) and b.a[0] >= 0:
            r = R1
            for _ in range(b.a[0]):
                r = rmul(r, a)
            return r
        if a.op == "rc" and a.a == (2, 0):
            return rf("pow2", b)
        if a.op == "rc" and a.a == (-1, 0):
            return rite(odd(b), rc(-1), R1)
        if a.op == "rc" and a.a in ((0, 1), (0, -1)):
            return ipow(b if a.a[1] == 1 else scale(b, 3))
        return rf("powi", a, b)
    return NI


@model("min", "max")
def m_minmax(c):
    if len(c.a) != 2:
        return NI
    a, b = c.I.deep(c.st, c.a[0]), c.I.deep(c.st, c.a[1])
    if isint_(a) and isint_(b):
        if c.name == "min":
            return imin(a, b)
        return ite(lt(a, b), b, a) if not nonneg(sub(a, b)) and not nonneg(sub(b, a)) else (
            a if nonneg(sub(a, b)) else b)
    if isring(a) and isring(b):
        return rf(c.name, *sorted((a, b), key=lambda t: t.id))
    return NI


@model("abs_diff")
def m_absdiff(c):
    a, b = c.I.deep(c.st, c.a[0]), c.I.deep(c.st, c.a[1])
    if isint_(a) and isint_(b):
        return ite(lt(a, b), sub(b, a), sub(a, b))
    return NI


@model("sqrt", "ceil", "floor", "exp", "ln", "recip", "inv", "abs", "norm", "norm_sqr", "conj", "signum", "re", "im",
       "round", "sin", "cos", "l1_norm", "is_nan", "is_finite", "is_infinite", "is_sign_negative")
def m_rfun(c):
    a = c.I.deep(c.st, c.a[0])
    if isint_(a) and c.name == "abs":
        return ite(lt(a, ZERO), scale(a, -1), a)
    if not isring(a):
        return NI
    n = c.name
    if n in ("recip", "inv"):
        return rinv(a)
    if n == "abs":
        n = "norm"
    if n == "norm_sqr":
        return rf("re", rmul(rf("conj", a), a))
    if n.startswith("is_"):
        return mk("ba", n, a)
    return rf(n, a)


@model("mul_add")
def m_muladd(c):
    a, b, d = [c.I.deep(c.st, x) for x in c.a]
    if isring(a):
        return radd(rmul(a, b), d)
    return NI


@model("scale", "unscale")
def m_scale(c):
    a, b = [c.I.deep(c.st, x) for x in c.a]
    if isring(a) and isring(b):
        return rmul(a, b if c.name == "scale" else rinv(b))
    return NI


@model("new")
def m_new(c):
    p = c.path
    if "Complex" in p:
        a, b = c.a
        return radd(a, rmul(rc(0, 1), b))
    if "HashMap" in p or "BTreeMap" in p:
        return Mp(freshk(), R0)
    if "Box" in p or "Rc" in p or "Arc" in p or "Cell" in p:
        return c.a[0]
    if "Vec::" in p or "Vec<" in p:
        return Arr((ZERO,), (freshk(),), Hole("empty"), "vec")
    if "String" in p:
        return mk("str", "")
    if "RangeInclusive" in p:
        return St("std::ops::RangeInclusive", (c.a[0], c.a[1]))
    if "fmt::Arguments" in p:
        from .strs import arguments
        return arguments(c)
    return NI


@model("with_capacity")
def m_withcap(c):
    if "HashMap" in c.path:
        return Mp(freshk(), R0)
    if "Vec" in c.path:
        return Arr((ZERO,), (freshk(),), Hole("empty"), "vec")
    if "String" in c.path:
        return mk("str", "")
    return NI


@model("default")
def m_default(c):
    if "ndarray" in c.path or "ArrayBase" in c.path:
        return m_zeros(c)
    if c.t:
        t = c.t[0]
        r = ring_const(c.I, c.st, t, 0)
        if r is not None:
            return r
        if t[0] == "adt" and "HashMap" in t[1]:
            return Mp(freshk(), R0)
        if t[0] == "adt" and t[1].endswith("Option"):
            return NONE
        if t == ("prim", "bool"):
            return FALSE
        if t[0] == "tuple":
            return UNIT
    return NI


@model("from", "into", "from_complex", "into_complex", "to_owned", "into_owned", "to_string", "as_ref", "as_mut",
       "borrow", "borrow_mut", "deref", "deref_mut", "as_str", "must_use", "black_box", "identity", "as_slice",
       "as_mut_slice", "into_boxed_slice", "try_into", "try_from", "as_deref", "to_vec", "into_vec", "into_inner",
       "as_slice_mut", "into_raw_vec", "as_mut_ptr", "as_ptr", "assume_init", "cast", "from_ref", "reborrow")
def m_conv(c):
    I, st = c.I, c.st
    n = c.name
    if n == "from" and "SliceInfoElem" in (c.f.get("res_path") or c.path) or (
            n in ("from", "into") and any("SliceInfoElem" in str(t) for t in c.t)):
        return slice_elem(I, st, c.a[0])
    a = c.a[0]
    if n == "assume_init" and I.conf.get("count_writes"):
        I.events.append({"ev": "exposed", "fn": I.stack[-1].fn.get("path"), "val": I.deep(st, a)})
    if n in ("from", "into"):
        v = I.deep(st, a)
        dst = c.t[0] if n == "from" else (c.t[1] if len(c.t) > 1 else None)
        src = (c.t[1] if len(c.t) > 1 else None) if n == "from" else c.t[0]
        if isring(v):
            return v
        if isbool(v) and dst and dst[0] == "prim":
            return ite(v, ONE, ZERO)
        if isint_(v):
            if dst and (dst[0] == "sym" or dst in (("prim", "f64"), ("prim", "f32"))):
                return int2r(v)
            return v
        if isstr(v):
            return v
        if isinstance(v, (St, Arr, Vw, En)) and not isinstance(a, Ref):
            if dst is not None and src is not None and dst == src:
                return a
            if isinstance(v, (Arr, Vw)) or v.kind == "arr" if isinstance(v, St) else False:
                return materialise(I, st, v)
            return a if dst == src else NI
        return a if dst is not None and dst == src else NI
    if n == "into_complex":
        v = I.deep(st, a)
        return rf("into_c", v) if isring(v) else NI
    if n == "from_complex":
        v = I.deep(st, a)
        return rf("from_c", v) if isring(v) else NI
    if n in ("to_owned", "into_owned", "to_vec"):
        v = I.deep(st, a)
        if isinstance(v, (Arr, Vw)):
            return materialise(I, st, a if isinstance(a, Ref) else v, "vec" if n == "to_vec" else "nd")
        return v
    if n in ("as_ref", "as_mut", "as_deref"):
        v = I.read(st, a) if isinstance(a, Ref) else a
        if isinstance(v, En) and v.key in (OPT, RES):
            q = {}
            for k, p in v.p.items():
                q[k] = tuple(a.ext(("d", k), ("f", i)) for i in range(len(p)))
            return En(v.key, v.d, q)
        return a
    if n == "to_string":
        v = I.deep(st, a)
        if isstr(v):
            return v
        if isn(v):
            return to_text(v)
        return NI
    if n in ("as_mut_ptr", "as_ptr"):
        r = a
        while isinstance(r, Ref) and isinstance(I.read(st, r), Ref):
            r = I.read(st, r)
        return Opq("eptr", r, ZERO)
    if n == "try_into" or n == "try_from":
        dst = (c.t[0] if n == "try_from" else c.t[1]) if len(c.t) > 1 else None
        v = I.deep(st, a)
        if isint_(v) and dst and dst[0] == "prim" and re.fullmatch(r"[ui](\d+|size)", dst[1]):
            w = 64 if dst[1][1:] == "size" else int(dst[1][1:])
            lo, hi = (0, 1 << w) if dst[1][0] == "u" else (-(1 << w - 1), 1 << w - 1)
            bad = T.bor(lt(v, INT(lo)), bnot(lt(v, INT(hi)))) if w < 64 else lt(v, INT(lo))
            return En(RES, ite(bad, ONE, ZERO), {0: (v,), 1: (UNIT,)})
        if isinstance(v, Arr) and len(v.shape) == 1 and dst and dst[0] == "array" and dst[2][0] == "cst":
            k = dst[2][1]
            k = INT(k) if isinstance(k, int) else k
            if isn(k):
                return En(RES, ite(eq(v.shape[0], k), ZERO, ONE), {0: (a,), 1: (a,)})
        return ok(a)
    return a


def slice_elem(I, st, v):
    v = I.deep(st, v)
    if isn(v):
        return Opq("slc", "ix", v)
    if isinstance(v, St):
        if v.kind in RANGE:
            return Opq("slc", "rng", v.f[0], v.f[1])
        if v.kind in RANGEI:
            return Opq("slc", "rng", v.f[0], add(v.f[1], ONE))
        if v.kind.endswith("RangeFull"):
            return Opq("slc", "rng", ZERO, None)
        if v.kind.endswith("RangeFrom"):
            return Opq("slc", "rng", v.f[0], None)
        if v.kind.endswith("RangeTo"):
            return Opq("slc", "rng", ZERO, v.f[0])
        if v.kind.endswith("ndarray::Slice") or v.kind.endswith("Slice"):
            hi = v.f[1]
            d, pay = opt_parts(hi)
            return Opq("slc", "rng", v.f[0], pay if d is TRUE else None, v.f[2])
    if isinstance(v, Opq) and v.name == "slc":
        return v
    raise Unsupported("slice element")


@model("clone", "cloned", "copied")
def m_clone(c):
    I, st = c.I, c.st
    a = c.a[0]
    if c.name in ("cloned", "copied"):
        if isinstance(a, En):
            return En(a.key, a.d, {k: tuple(clone(I, st, x) for x in p) for k, p in a.p.items()})
        if isinstance(a, VIte):
            return merge(a.c, m_clone_v(c, a.x), m_clone_v(c, a.y))
        it = as_iter(I, st, a)
        return It("cloned", it)
    if isinstance(a, Ref):
        return clone(I, st, a)
    return NI


def m_clone_v(c, a):
    if isinstance(a, En):
        return En(a.key, a.d, {k: tuple(clone(c.I, c.st, x) for x in p) for k, p in a.p.items()})
    raise Unsupported("cloned")


@model("clone_from")
def m_clonefrom(c):
    c.I.write(c.st, c.a[0], clone(c.I, c.st, c.a[1]))
    return UNIT


@model("size_of")
def m_sizeof(c):
    return mk("sym", "size_of")


# ---- Option / Result / Try
@model("branch")
def m_branch(c):
    v = c.a[0]
    return try_branch(c, v)


def try_branch(c, v):
    if isinstance(v, VIte):
        return merge(v.c, try_branch(c, v.x), try_branch(c, v.y))
    if not isinstance(v, En):
        return NI
    CF = "core::ops::ControlFlow"
    if v.key == RES:
        p = {}
        if 0 in v.p or v.d is not ONE:
            p[0] = (v.p[0][0] if v.p.get(0) else UNIT,)
        p[1] = (En(RES, ONE, {1: v.p[1]} if 1 in v.p else {}),)
        return En(CF, v.d, p)
    if v.key == OPT:
        p = {1: (NONE,)}
        if 1 in v.p:
            p[0] = (v.p[1][0],)
        return En(CF, ite(eq(v.d, ONE), ZERO, ONE), p)
    return NI


@model("from_residual")
def m_fromres(c):
    return c.a[0]


@model("from_output")
def m_fromout(c):
    t = c.t[0] if c.t else None
    if t and t[0] == "adt" and t[1].endswith("Result"):
        return ok(c.a[0])
    return some(c.a[0])


def opt_good(v):
    """index of the success variant"""
    return 1 if v.key == OPT else 0


@model("unwrap", "expect", "unwrap_unchecked")
def m_unwrap(c):
    v = c.a[0]
    return unwrap_v(c, v)


def unwrap_v(c, v):
    if isinstance(v, VIte):
        base = len(c.st.facts)
        outs = []
        for cond, x in ((v.c, v.x), (bnot(v.c), v.y)):
            s = c.st.copy()
            try:
                s.assume(simp(cond, s.facts))
                c2 = Call(c.I, c.fr, s, c.f, c.t, c.a, c.span)
                outs.append((s, cond, unwrap_v(c2, x)))
            except Diverge:
                pass
        if not outs:
            raise Diverge()
        m = c.I.merge_states([o[0] for o in outs], base)
        c.st.become(m)
        if len(outs) == 1:
            return outs[0][2]
        return merge(v.c, outs[0][2], outs[1][2])
    if not isinstance(v, En) or v.key not in (OPT, RES):
        return NI
    g = opt_good(v)
    c.I.require(c.st, eq(v.d, INT(g)), "unwrap", c.span)
    return v.p[g][0] if v.p.get(g) else UNIT


@model("unwrap_err", "expect_err")
def m_unwrap_err(c):
    v = c.a[0]
    if isinstance(v, En) and v.key == RES:
        c.I.require(c.st, eq(v.d, ONE), "unwrap_err", c.span)
        return v.p[1][0]
    return NI


@model("unwrap_or", "unwrap_or_else", "unwrap_or_default", "map_or", "map_or_else")
def m_unwrapor(c):
    v = c.a[0]
    if isinstance(v, VIte) and isinstance(v.x, En):
        a = m_unwrapor(Call(c.I, c.fr, c.st, c.f, c.t, [v.x] + list(c.a[1:]), c.span))
        b = m_unwrapor(Call(c.I, c.fr, c.st, c.f, c.t, [v.y] + list(c.a[1:]), c.span))
        return merge(v.c, a, b)
    if not isinstance(v, En) or v.key not in (OPT, RES):
        return NI
    g = opt_good(v)
    good = eq(v.d, INT(g))
    n = c.name

    def dflt(st):
        if n == "unwrap_or" or n == "map_or":
            return c.a[1]
        if n == "unwrap_or_default":
            t = [x for x in c.t]
            r = ring_const(c.I, st, t[0], 0)
            if r is None:
                raise Unsupported("unwrap_or_default")
            return r
        a = [] if v.key == OPT else [v.p[1][0] if v.p.get(1) else UNIT]
        return c.I.call_value(st, c.a[1], a)

    def value(st):
        x = v.p[g][0] if v.p.get(g) else UNIT
        if n == "map_or":
            return c.I.call_value(st, c.a[2], [x])
        if n == "map_or_else":
            return c.I.call_value(st, c.a[2], [x])
        return x
    return fork(c.I, c.st, good, value, dflt)


def fork(I, st, cond, fa, fb):
    cond = simp(cond, st.facts)
    if cond is TRUE:
        return fa(st)
    if cond is FALSE:
        return fb(st)
    base = len(st.facts)
    outs = []
    for cc, f in ((cond, fa), (bnot(cond), fb)):
        s = st.copy()
        try:
            s.assume(cc)
            outs.append((s, f(s)))
        except Diverge:
            outs.append(None)
    if outs[0] is None and outs[1] is None:
        raise Diverge()
    if outs[0] is None or outs[1] is None:
        s, v = outs[0] or outs[1]
        st.become(s)
        return v
    st.become(I.merge_states([outs[0][0], outs[1][0]], base))
    return merge(cond, outs[0][1], outs[1][1])


@model("is_some", "is_none", "is_ok", "is_err")
def m_issome(c):
    v = c.I.deep(c.st, c.a[0])
    if isinstance(v, VIte):
        return T.bite(v.c, issome1(c.name, v.x), issome1(c.name, v.y))
    if not isinstance(v, En):
        return NI
    return issome1(c.name, v)


def issome1(n, v):
    if isinstance(v, VIte):
        return T.bite(v.c, issome1(n, v.x), issome1(n, v.y))
    if not isinstance(v, En):
        raise Unsupported("is_some of %s" % type(v).__name__)
    one = eq(v.d, ONE)
    return one if n in ("is_some", "is_err") else bnot(one)


@model("ok", "err", "ok_or", "ok_or_else", "or", "or_else", "and_then", "and", "map_err")
def m_optcomb(c):
    v = c.a[0]
    n = c.name
    I, st = c.I, c.st
    if not isinstance(v, En) or v.key not in (OPT, RES):
        return NI
    g = opt_good(v)
    good = eq(v.d, INT(g))
    if n == "ok":
        return En(OPT, ite(good, ONE, ZERO), {1: v.p[0]} if 0 in v.p else {})
    if n == "err":
        return En(OPT, ite(good, ZERO, ONE), {1: v.p[1]} if 1 in v.p else {})
    if n in ("ok_or", "ok_or_else"):
        def fa(s):
            return ok(v.p[1][0])

        def fb(s):
            return err(c.a[1] if n == "ok_or" else I.call_value(s, c.a[1], []))
        return fork(I, st, good, fa, fb)
    if n in ("or", "or_else"):
        def fb(s):
            if n == "or":
                return c.a[1]
            return I.call_value(s, c.a[1], [] if v.key == OPT else [v.p[1][0]])
        return fork(I, st, good, lambda s: v, fb)
    if n == "and_then":
        def fa(s):
            return I.call_value(s, c.a[1], [v.p[g][0]])
        bad = NONE if v.key == OPT else En(RES, ONE, {1: v.p[1]} if 1 in v.p else {})
        return fork(I, st, good, fa, lambda s: bad)
    if n == "and":
        bad = NONE if v.key == OPT else En(RES, ONE, {1: v.p[1]} if 1 in v.p else {})
        return fork(I, st, good, lambda s: c.a[1], lambda s: bad)
    if n == "map_err":
        def fb(s):
            return err(I.call_value(s, c.a[1], [v.p[1][0]]))
        return fork(I, st, good, lambda s: En(RES, ZERO, {0: v.p[0]}), fb)
    return NI


@model("then", "then_some")
def m_then(c):
    b = c.a[0]
    if not isbool(b):
        return NI
    if c.name == "then_some":
        return En(OPT, ite(b, ONE, ZERO), {1: (c.a[1],)})
    return fork(c.I, c.st, b, lambda s: some(c.I.call_value(s, c.a[1], [])), lambda s: NONE)


@model("take", "replace", "insert", "get_or_insert_with")
def m_take(c):
    I, st = c.I, c.st
    if c.path.startswith(("std::mem::", "core::mem::")):
        old = I.read(st, c.a[0])
        if c.name == "replace":
            I.write(st, c.a[0], c.a[1])
            return old
        if c.name == "take":
            if isinstance(old, Arr):
                I.write(st, c.a[0], Arr((ZERO,), (freshk(),), Hole("empty"), old.kind))
                return old
            return NI
    if isinstance(c.a[0], Ref):
        old = I.read(st, c.a[0])
        if isinstance(old, En) and old.key == OPT:
            if c.name == "take":
                I.write(st, c.a[0], NONE)
                return old
            if c.name == "replace":
                I.write(st, c.a[0], some(c.a[1]))
                return old
    return NI


@model("swap")
def m_swap(c):
    I, st = c.I, c.st
    if len(c.a) == 2:
        a, b = c.a
        x, y = I.read(st, a), I.read(st, b)
        I.write(st, a, y)
        I.write(st, b, x)
        return UNIT
    if len(c.a) == 3 and isarr(I, st, c.a[0]):
        w = view(I, st, c.a[0])
        i, j = index_arg(I, st, c.a[1]), index_arg(I, st, c.a[2])
        bounds(c, w, i)
        bounds(c, w, j)
        x, y = I.read(st, w.at(i)), I.read(st, w.at(j))
        I.write(st, w.at(i), y)
        I.write(st, w.at(j), x)
        return UNIT
    return NI


# ---- iterator construction
@model("into_iter", "iter", "iter_mut", "drain", "by_ref", "into_values", "fuse", "peekable", "into_iter_sorted")
def m_iter(c):
    I, st = c.I, c.st
    a = c.a[0]
    if isinstance(a, It):
        return a
    if isinstance(a, Ref):
        v = I.read(st, a)
        while isinstance(v, Ref):
            a = v
            v = I.read(st, a)
        if isinstance(v, It):
            return a if c.name == "by_ref" else v
        if isinstance(v, Mp):
            return It("mp", a)
        if isinstance(v, En) and v.key == OPT:
            return It("opt", En(OPT, v.d, {k: tuple(a.ext(("d", k), ("f", i)) for i in range(len(p)))
                                           for k, p in v.p.items()}))
        if isinstance(v, St) and (v.kind in RANGE or v.kind.endswith("GradeIter")):
            return a if c.name in ("by_ref",) else as_iter(I, st, v)
        return It("arr", view(I, st, a), False)
    if isinstance(a, St) and a.kind.endswith("GradeIter"):
        return a if False else as_iter(I, st, a)
    return as_iter(I, st, a)


@model("indexed_iter", "indexed_iter_mut")
def m_indexed(c):
    return It("arr", view(c.I, c.st, c.a[0]), True)


@model("keys", "values", "values_mut", "into_keys")
def m_keys(c):
    a = c.a[0]
    return It("keys" if "key" in c.name else "values", It("mp", a))


@model("axis_iter", "axis_iter_mut", "outer_iter", "outer_iter_mut", "rows", "rows_mut", "columns", "columns_mut",
       "genrows", "gencolumns", "lanes")
def m_axisiter(c):
    I, st = c.I, c.st
    w = view(I, st, c.a[0])
    if c.name.startswith("axis"):
        ax = axis_arg(I, st, c.a[1])
    elif c.name.startswith(("outer", "rows", "genrows")):
        ax = 0
    elif c.name.startswith(("columns", "gencolumns")) and len(w.shape) == 2:
        ax = 1
    else:
        return NI
    if c.name.startswith("rows") and len(w.shape) != 2:
        return NI
    return It("axis", w, ax)


@model("map", "filter", "filter_map", "inspect", "flat_map", "flatten", "enumerate", "rev", "zip", "take", "skip",
       "step_by", "chain")
def m_adapt(c):
    I, st = c.I, c.st
    n = c.name
    a = c.a[0]
    # Option/Result map
    if isinstance(a, (En, VIte)) and n in ("map", "filter", "zip", "flatten"):
        return opt_map(c, a)
    if n == "map":
        v = I.deep(st, a)
        if "ArrayBase" in c.path or (isinstance(v, Vw) or (isinstance(v, Arr) and isinstance(a, Ref))):
            return array_map(c, a, True)
        if isinstance(v, (Arr,)) or (isinstance(v, St) and v.kind == "arr" and "array" in c.path):
            return array_map(c, a, False)
    if n == "zip" and "std::iter::zip" not in c.path and "core::iter::zip" not in c.path or n == "zip":
        if n == "zip":
            x, y = as_iter(I, st, a), as_iter(I, st, c.a[1])
            return It("zip", x, y)
    if not isinstance(a, (It, St, Ref, Opq)):
        return NI
    it = as_iter(I, st, a)
    if n == "map":
        return It("map", it, c.a[1])
    if n == "filter":
        return It("filter", it, c.a[1])
    if n == "filter_map":
        return It("filter_map", it, c.a[1])
    if n == "inspect":
        return It("inspect", it, c.a[1])
    if n == "flat_map":
        return It("flat", it, c.a[1])
    if n == "flatten":
        return It("flat", it, None)
    if n == "enumerate":
        return It("enumerate", it)
    if n == "rev":
        return It("rev", it)
    if n == "take":
        return It("take", it, c.a[1])
    if n == "skip":
        return It("skip", it, c.a[1])
    if n == "step_by":
        return It("step", it, c.a[1])
    if n == "chain":
        return It("chain", it, as_iter(I, st, c.a[1]))
    return NI


@model("zip_eq")
def m_zipfn(c):
    return It("zip", as_iter(c.I, c.st, c.a[0]), as_iter(c.I, c.st, c.a[1]))


@model("once", "repeat", "empty", "repeat_n")
def m_once(c):
    if c.name == "empty":
        return It("empty")
    if c.name == "repeat_n":
        return It("take", It("repeat", c.a[0]), c.a[1])
    return It(c.name, c.a[0])


@model("from_fn")
def m_fromfn(c):
    if "array" in c.path:
        n = c.t[1] if len(c.t) > 1 else None
        cs = [t for t in c.t if t[0] == "cst"]
        if not cs:
            return NI
        n = cs[0][1]
        k = freshk()
        v = c.I.call_value(c.st, c.a[0], [k])
        return Arr((n,), (k,), v, "arr")
    return NI


def opt_map(c, a):
    if isinstance(a, VIte):
        return merge(a.c, opt_map(c, a.x), opt_map(c, a.y))
    if not isinstance(a, En):
        return NI
    g = opt_good(a)
    good = eq(a.d, INT(g))
    if c.name == "map":
        def fa(s):
            v = c.I.call_value(s, c.a[1], [a.p[g][0]])
            return some(v) if a.key == OPT else ok(v)
        bad = NONE if a.key == OPT else En(RES, ONE, {1: a.p[1]} if 1 in a.p else {})
        return fork(c.I, c.st, good, fa, lambda s: bad)
    if c.name == "filter":
        def fa(s):
            r = c.I.tmpref(s, a.p[1][0])
            b = c.I.call_value(s, c.a[1], [r])
            return En(OPT, ite(b, ONE, ZERO), {1: a.p[1]})
        return fork(c.I, c.st, good, fa, lambda s: NONE)
    return NI


def array_map(c, a, byref):
    I, st = c.I, c.st
    w = view(I, st, a)
    ks = [freshk() for _ in w.shape]
    r = w.at(tuple(ks))
    facts = st.facts
    x = r if byref else I.read(st, r)
    v = I.call_value(st, c.a[1], [x])
    st.facts = facts
    return Arr(w.shape, ks, v, "nd" if byref else "arr")


@model("mapv", "mapv_into")
def m_mapv(c):
    I, st = c.I, c.st
    w = view(I, st, c.a[0])
    ks = [freshk() for _ in w.shape]
    facts = st.facts
    v = I.call_value(st, c.a[1], [clone(I, st, I.read(st, w.at(tuple(ks))))])
    st.facts = facts
    return Arr(w.shape, ks, v, "nd")


@model("map_inplace", "mapv_inplace", "par_map_inplace")
def m_mapinplace(c):
    I, st = c.I, c.st
    w = view(I, st, c.a[0])

    def f(idx):
        facts = st.facts
        x = I.read(st, w.at(idx))
        if c.name == "mapv_inplace":
            v = I.call_value(st, c.a[1], [x])
        else:
            r = I.tmpref(st, x)
            I.call_value(st, c.a[1], [r])
            v = I.read(st, r)
        st.facts = facts
        return v
    store_view(I, st, w, f)
    return UNIT


@model("zip_mut_with")
def m_zipmut(c):
    I, st = c.I, c.st
    w = view(I, st, c.a[0])
    u = view(I, st, c.a[1])

    def f(idx):
        r = I.tmpref(st, I.read(st, w.at(idx)))
        I.call_value(st, c.a[2], [r, u.at(idx)])
        return I.read(st, r)
    store_view(I, st, w, f)
    return UNIT


# ---- iterator consumers
@model("next")
def m_next(c):
    r = c.a[0]
    if not isinstance(r, Ref):
        return NI
    return c.I.next_call(c.st, r)


@model("for_each")
def m_foreach(c):
    I = c.I
    a = c.a[0]
    it = as_iter(I, c.st, a)
    consume(I, c.st, it, lambda s, x: I.call_value(s, c.a[1], [x]))
    return UNIT


@model("all", "any")
def m_all(c):
    I, st = c.I, c.st
    a = c.a[0]
    v = I.deep(st, a)
    if isinstance(v, Opq) and v.name == "chars":
        from .strs import charset
        k = charset(I, st, c.a[1])
        if k is None or c.name == "all":
            return NI
        return mk("ba", "str_contains", v.a[0], mk("str", k))
    it = as_iter(I, st, I.read(st, a) if isinstance(a, Ref) and isinstance(I.read(st, a), (It, St, Ref)) else a)
    bad = None
    cell = I.newcell(st, TRUE if c.name == "all" else FALSE)

    def step(s, x):
        b = I.call_value(s, c.a[1], [x])
        if c.name == "all":
            s.cells[cell] = band(s.cells[cell], b)
        else:
            s.cells[cell] = bor(s.cells[cell], b)
    consume(I, st, it, step)
    v = st.cells.pop(cell)
    if isinstance(v, Hole):
        raise Unsupported(v.why)
    return v


@model("find", "position", "find_map")
def m_find(c):
    """the first item in iteration order that satisfies the predicate"""
    I, st = c.I, c.st
    if c.path.split("::")[0] not in ("std", "core"):
        return NI
    a = c.a[0]
    v = I.deep(st, a)
    if isstr(v):
        return NI
    it = as_iter(I, st, v if isinstance(a, Ref) else a)
    if c.name == "position":
        it = It("enumerate", it)
    cell = I.newcell(st, NONE)

    def body(s, ctx):
        try:
            x, o = pull(I, s, it, ctx)
            ctx.ord = o
            if c.name == "position":
                d, pay = I.call_value(s, c.a[1], [x.f[1]]), x.f[0]
            elif c.name == "find":
                d, pay = I.call_value(s, c.a[1], [I.tmpref(s, x)]), x
            else:
                d, pay = opt_parts(I.call_value(s, c.a[1], [x]))
        except Diverge:
            return []
        d = simp(d, s.facts)
        outs = []
        if d is not TRUE:
            s1 = s.copy()
            s1.assume(bnot(d))
            outs.append(("next", s1))
        if d is not FALSE:
            s2 = s.copy()
            s2.assume(d)
            s2.cells[cell] = some(pay)
            outs.append(("exit", s2))
        return outs
    base = len(st.facts)
    done, early = I.summarise(st, body)
    outs = [(s, s.cells[cell]) for b, s in early] + [(s, NONE) for s in done]
    v = outs[-1][1]
    for s, x in reversed(outs[:-1]):
        v = merge(band(*s.facts[base:]), x, v)
    st.become(I.merge_states([s for s, _ in outs], base))
    return v


@model("fold")
def m_fold(c):
    I, st = c.I, c.st
    it = as_iter(I, st, c.a[0])
    cell = I.newcell(st, c.a[1])

    def step(s, x):
        s.cells[cell] = I.call_value(s, c.a[2], [s.cells[cell], x])
    consume(I, st, it, step)
    v = st.cells.pop(cell)
    if isinstance(v, Hole):
        raise Unsupported(v.why)
    return v


@model("try_fold", "try_for_each")
def m_tryfold(c):
    I, st = c.I, c.st
    it = as_iter(I, st, I.deep(st, c.a[0]))
    fold = c.name == "try_fold"
    cell = I.newcell(st, c.a[1] if fold else UNIT)
    f = c.a[2] if fold else c.a[1]
    bad = []

    def body(s, ctx):
        try:
            x, o = pull(I, s, it, ctx)
            ctx.ord = o
            v = I.call_value(s, f, [s.cells[cell], x] if fold else [x])
        except Diverge:
            return []
        if not isinstance(v, En):
            raise Unsupported("try_fold")
        g = opt_good(v)
        good = simp(eq(v.d, INT(g)), s.facts)
        outs = []
        if good is not FALSE:
            s1 = s.copy()
            s1.assume(good)
            s1.cells[cell] = v.p[g][0] if v.p.get(g) else UNIT
            outs.append(("next", s1))
        if good is not TRUE:
            s2 = s.copy()
            s2.assume(bnot(good))
            s2.cells[cell] = En(v.key, INT(1 - g), {1 - g: v.p[1 - g]} if 1 - g in v.p else {})
            outs.append(("exit", s2))
        return outs
    base = len(st.facts)
    done, early = I.summarise(st, body)
    t = c.t
    outs = []
    for b, s in early:
        outs.append((s, s.cells[cell]))
    kind = outs[0][1].key if outs and isinstance(outs[0][1], En) else RES
    for s in done:
        v = s.cells[cell]
        outs.append((s, ok(v) if kind == RES else some(v)))
    v = outs[-1][1]
    for s, x in reversed(outs[:-1]):
        v = merge(band(*s.facts[base:]), x, v)
    st.become(I.merge_states([s for s, _ in outs], base))
    return v


@model("sum", "product")
def m_sum(c):
    I, st = c.I, c.st
    if c.name == "product":
        return NI
    a = c.a[0]
    if isinstance(a, Ref) and isarr(I, st, a) or isinstance(a, (Arr, Vw)):
        w = view(I, st, a)
        bs = [mkbinder(s) for s in w.shape]
        v = I.read(st, w.at(tuple(bs)))
        return elim.rsum(bs, TRUE, v) if isring(v) else mkisum(bs, TRUE, v)
    it = as_iter(I, st, a)
    ty = c.t[1] if len(c.t) > 1 else None
    init = ring_const(I, st, ty, 0) if ty else R0
    if init is None:
        return NI
    cell = I.newcell(st, init)

    def step(s, x):
        x = I.deep(s, x)
        s.cells[cell] = radd(s.cells[cell], x) if isring(x) else add(s.cells[cell], x)
    consume(I, st, it, step)
    v = st.cells.pop(cell)
    if isinstance(v, Hole):
        raise Unsupported(v.why)
    return v


@model("count")
def m_count(c):
    I, st = c.I, c.st
    return iter_len(I, st, as_iter(I, st, c.a[0]))


def iter_len(I, st, it):
    n = count(I, st, it)
    if n is not None:
        return n
    cell = I.newcell(st, ZERO)

    def step(s, x):
        s.cells[cell] = add(s.cells[cell], ONE)
    consume(I, st, it, step)
    return st.cells.pop(cell)


@model("collect", "from_iter", "to_vec_iter")
def m_collect(c):
    I, st = c.I, c.st
    it = as_iter(I, st, c.a[0])
    ty = c.t[1] if c.name == "collect" and len(c.t) > 1 else (c.t[0] if c.t else None)
    if ty and ty[0] == "adt" and "HashMap" in ty[1]:
        cell = I.newcell(st, Mp(freshk(), R0))

        def step(s, x):
            m = s.cells[cell]
            v = I.map_store(s, m, x.f[0], x.f[1], c.span, "collect")
            s.cells[cell] = Mp(m.k, merge(eq(m.k, x.f[0]), v, m.body))
        consume(I, st, it, step)
        return st.cells.pop(cell)
    n = count(I, st, it)
    if n is None:
        return Opq("iter", it)
    k = freshk()
    facts = st.facts
    v = nth(I, st, it, k)
    st.facts = facts
    return Arr((n,), (k,), v, "vec")


@model("collect_vec")
def m_collectvec(c):
    return m_collect(c)


@model("is_empty")
def m_isempty(c):
    v = c.I.deep(c.st, c.a[0])
    if isinstance(v, (Arr, Vw)):
        return eq(v.shape[0], ZERO)
    if isinstance(v, Mp):
        b, g = map_key(c.I, c.st, v)
        return bnot(elim.exists([b], g))
    if isstr(v):
        return T.sempty(v)
    if isinstance(v, Opq) and v.name == "iter":
        return eq(iter_len(c.I, c.st, v.a[0]), ZERO)
    if isinstance(v, St) and v.kind in RANGE:
        return bnot(lt(v.f[0], v.f[1]))
    return NI


@model("len")
def m_len(c):
    I, st = c.I, c.st
    v = I.deep(st, c.a[0])
    if isinstance(v, Opq) and v.name == "iter":
        return iter_len(I, st, v.a[0])
    return len1(c, v)


def len1(c, v):
    I, st = c.I, c.st
    if isinstance(v, VIte):
        return ite(v.c, len1(c, v.x), len1(c, v.y))
    if isinstance(v, (Arr, Vw)):
        n = ONE
        for s in v.shape:
            n = mul(n, s)
        return n
    if isinstance(v, St) and v.kind == "arr":
        return INT(len(v.f))
    if isinstance(v, Mp):
        b, g = map_key(I, st, v)
        return mkisum([b], g, ONE)
    if isstr(v):
        if v.op == "str":
            return INT(len(v.a[0].encode()))
        if v.op == "site":
            return ite(v.a[0], len1(c, v.a[1]), len1(c, v.a[2]))
        return T.ifn("strlen", v)
    if isinstance(v, (It,)) or (isinstance(v, St) and v.kind in RANGE):
        n = count(I, st, as_iter(I, st, v))
        if n is not None:
            return n
    return NI


@model("contains")
def m_contains(c):
    I, st = c.I, c.st
    v = I.deep(st, c.a[0])
    if isstr(v):
        from .strs import charset
        k = charset(I, st, c.a[1])
        if k is None:
            return NI
        return mk("ba", "str_contains", v, mk("str", k))
    if isinstance(v, St) and v.kind in RANGE:
        x = I.deep(st, c.a[1])
        return band(le(v.f[0], x), lt(x, v.f[1]))
    if isinstance(v, St) and v.kind in RANGEI:
        x = I.deep(st, c.a[1])
        return band(le(v.f[0], x), le(x, v.f[1]))
    if isinstance(v, (Arr, Vw)) or (isinstance(v, St) and v.kind == "arr"):
        w = view(I, st, c.a[0])
        x = I.deep(st, c.a[1])
        b = mkbinder(w.shape[0])
        y = I.deep(st, I.read(st, w.at((b,))))
        if isn(x) and isn(y):
            return elim.exists([b], eq(x, y))
    return NI


@model("binary_search")
def m_bsearch(c):
    """finds a present element only if the sequence is sorted, which is not tracked"""
    I, st = c.I, c.st
    v = I.deep(st, c.a[0])
    if isinstance(v, (Arr, Vw)) or (isinstance(v, St) and v.kind == "arr"):
        w = view(I, st, c.a[0])
        x = I.deep(st, c.a[1])
        b = mkbinder(w.shape[0])
        y = I.deep(st, I.read(st, w.at((b,))))
        if isn(x) and isn(y):
            ok = band(elim.exists([b], eq(x, y)), mk("ba", "sorted_enough_to_find", x))
            return En(RES, ite(ok, ZERO, ONE), {0: [T.ifn("bsearch_at", x)], 1: [T.ifn("bsearch_at", x)]})
    return NI


# ---- maps
def mapref(c):
    r = c.a[0]
    I, st = c.I, c.st
    if not isinstance(r, Ref):
        return None, None
    v = I.read(st, r)
    while isinstance(v, Ref):
        r = v
        v = I.read(st, r)
    if isinstance(v, Mp):
        return r, v
    return None, None


@model("get", "get_mut", "contains_key")
def m_mapget(c):
    I, st = c.I, c.st
    r, m = mapref(c)
    if m is None:
        if c.name == "contains_key":
            return NI
        return arr_get(c)
    k = I.deep(st, c.a[1])
    present = bnot(isz(m.at(k)))
    if c.name == "contains_key":
        return present
    return En(OPT, ite(present, ONE, ZERO), {1: (r.ext(("ix", (k,))),)})


def arr_get(c):
    I, st = c.I, c.st
    if not isarr(I, st, c.a[0]):
        return NI
    w = view(I, st, c.a[0])
    i = c.a[1]
    iv = I.deep(st, i)
    if isinstance(iv, St) and iv.kind in RANGE:
        return NI
    idx = index_arg(I, st, i)
    if len(idx) != len(w.shape):
        return NI
    inb = band(*[lt(a, s) for a, s in zip(idx, w.shape)])
    return En(OPT, ite(inb, ONE, ZERO), {1: (w.at(idx),)})


@model("first", "last", "first_mut", "last_mut")
def m_first(c):
    I, st = c.I, c.st
    if not isarr(I, st, c.a[0]):
        return NI
    w = view(I, st, c.a[0])
    n = w.shape[0]
    i = ZERO if c.name.startswith("first") else sub(n, ONE)
    return En(OPT, ite(eq(n, ZERO), ZERO, ONE), {1: (w.at((i,)),)})


@model("insert")
def m_insert(c):
    I, st = c.I, c.st
    r, m = mapref(c)
    if m is None:
        return NI
    k, v = c.a[1], c.a[2]
    v = I.map_store(st, m, k, v, c.span, "insert")
    old = m.at(k)
    I.write(st, r, Mp(m.k, merge(eq(m.k, k), v, m.body)))
    return En(OPT, ite(isz(old), ZERO, ONE), {1: (old,)})


@model("remove", "remove_entry")
def m_remove(c):
    I, st = c.I, c.st
    r, m = mapref(c)
    if m is None:
        return NI
    k = I.deep(st, c.a[1])
    old = m.at(k)
    I.write(st, r, Mp(m.k, merge(eq(m.k, k), R0, m.body)))
    I.events.append({"ev": "mapremove", "key": k})
    return En(OPT, ite(isz(old), ZERO, ONE), {1: (old,)})


@model("retain")
def m_retain(c):
    I, st = c.I, c.st
    r, m = mapref(c)
    if m is None:
        return NI
    k = freshk()
    x = m.at(k)
    facts = st.facts
    cell = I.newcell(st, x)
    st.assume(bnot(isz(x)))
    b = I.call_value(st, c.a[1], [I.tmpref(st, k), Ref(cell)])
    y = st.cells.pop(cell)
    after = State(st.cells, st.facts + tuple(elim.conjuncts(b)))
    if y is not x:
        y = I.map_store(after, m, k, y, c.span, "retain")
    if simp(isz(y), after.facts) is T.FALSE:
        I.events.append({"ev": "mapclean"})
    st.facts = facts
    I.write(st, r, Mp(k, rite(isz(x), R0, rite(b, y, R0))))
    return UNIT


@model("clear")
def m_clear(c):
    I, st = c.I, c.st
    r, m = mapref(c)
    if m is not None:
        I.write(st, r, Mp(m.k, R0))
        return UNIT
    return NI


@model("extend")
def m_extend(c):
    I, st = c.I, c.st
    r, m = mapref(c)
    if m is None:
        return NI
    it = as_iter(I, st, c.a[1])

    def step(s, x):
        mm = I.read(s, r)
        k, v = I.deep(s, x.f[0]), I.deep(s, x.f[1])
        v = I.map_store(s, mm, k, v, c.span, "extend")
        I.write(s, r, Mp(mm.k, merge(eq(mm.k, k), v, mm.body)))
    consume(I, st, it, step)
    return UNIT


@model("entry")
def m_entry(c):
    r, m = mapref(c)
    if m is None:
        return NI
    return Opq("entry", r, c.a[1])


@model("or_insert", "or_insert_with", "or_default", "and_modify")
def m_entry_ops(c):
    I, st = c.I, c.st
    e = c.a[0]
    if not (isinstance(e, Opq) and e.name == "entry"):
        return NI
    r, k = e.a
    m = I.read(st, r)
    x = m.at(k)
    present = bnot(isz(x))
    if c.name == "and_modify":
        def fa(s):
            cell = I.newcell(s, x)
            I.call_value(s, c.a[1], [Ref(cell)])
            y = s.cells.pop(cell)
            y = I.map_store(s, m, k, y, c.span, "and_modify")
            I.write(s, r, Mp(m.k, merge(eq(m.k, k), y, m.body)))
            return UNIT
        fork(I, st, present, fa, lambda s: UNIT)
        return Opq("entry", r, k)

    def fb(s):
        if c.name == "or_insert":
            v = c.a[1]
        elif c.name == "or_insert_with":
            v = I.call_value(s, c.a[1], [])
        else:
            v = R0
        v = I.map_store(s, m, k, v, c.span, "or_insert")
        I.write(s, r, Mp(m.k, merge(eq(m.k, k), v, m.body)))
        return UNIT
    fork(I, st, present, lambda s: UNIT, fb)
    return r.ext(("ix", (k,)))


# ---- arrays: construction and access
@model("zeros", "ones")
def m_zeros(c):
    I, st = c.I, c.st
    sh = shape_arg(I, st, c.a[0])
    return Arr(sh, [freshk() for _ in sh], R0 if c.name != "ones" else R1, "nd")


@model("from_elem")
def m_fromelem(c):
    I, st = c.I, c.st
    if "ArrayBase" in c.path:
        sh = shape_arg(I, st, c.a[0])
        return Arr(sh, [freshk() for _ in sh], c.a[1], "nd")
    # vec![x; n]
    return Arr((c.a[1],), (freshk(),), c.a[0], "vec")


@model("from_shape_fn", "from_shape_simple_fn")
def m_fromshapefn(c):
    I, st = c.I, c.st
    sh = shape_arg(I, st, c.a[0])
    ks = [freshk() for _ in sh]
    facts = st.facts
    arg = ks[0] if len(ks) == 1 else St("tup", ks)
    for k, n in zip(ks, sh):
        st.assume(simp(lt(k, n), st.facts))
    v = I.call_value(st, c.a[1], [arg] if c.name == "from_shape_fn" else [])
    st.facts = facts
    return Arr(sh, ks, v, "nd")


@model("eye")
def m_eye(c):
    n = c.I.deep(c.st, c.a[0])
    ks = [freshk(), freshk()]
    return Arr((n, n), ks, rite(eq(ks[0], ks[1]), R1, R0), "nd")


@model("from_diag")
def m_fromdiag(c):
    w = view(c.I, c.st, c.a[0])
    ks = [freshk(), freshk()]
    n = w.shape[0]
    return Arr((n, n), ks, rite(eq(ks[0], ks[1]), c.I.read(c.st, w.at((ks[0],))), R0), "nd")


@model("from_vec", "from_iter", "from_shape_vec")
def m_fromvec(c):
    I, st = c.I, c.st
    if c.name == "from_iter":
        return NI
    if c.name == "from_shape_vec":
        return NI
    v = I.deep(st, c.a[0])
    if isinstance(v, Arr):
        return Arr(v.shape, v.ks, v.body, "nd")
    if isinstance(v, St) and v.kind == "arr":
        return materialise(I, st, v)
    return NI


@model("view", "view_mut", "into_view", "reborrow", "as_array", "cell_view", "row_view")
def m_view(c):
    return view(c.I, c.st, c.a[0])


@model("t", "reversed_axes")
def m_t(c):
    if isinstance(c.a[0], Arr):             # an owned array with its axes reversed
        x = c.a[0]
        return Arr(tuple(reversed(x.shape)), tuple(reversed(x.ks)), x.body, x.kind)
    w = view(c.I, c.st, c.a[0])
    return Vw(w.base, tuple(reversed(w.shape)), tuple(reversed(w.vs)), w.ix)


@model("index_axis", "index_axis_mut", "row", "row_mut", "column", "column_mut", "index_axis_move")
def m_indexaxis(c):
    I, st = c.I, c.st
    w = view(I, st, c.a[0])
    if c.name.startswith("row"):
        ax, i = 0, c.a[1]
    elif c.name.startswith("col"):
        ax, i = 1, c.a[1]
    else:
        ax, i = axis_arg(I, st, c.a[1]), c.a[2]
    i = I.deep(st, i)
    I.require(st, lt(i, w.shape[ax]), "index_axis", c.span)
    return axis_view(w, ax, i)


@model("split_at", "split_at_mut")
def m_splitat(c):
    I, st = c.I, c.st
    w = view(I, st, c.a[0])
    if len(c.a) == 3:
        ax, n = axis_arg(I, st, c.a[1]), I.deep(st, c.a[2])
    else:
        ax, n = 0, I.deep(st, c.a[1])
    I.require(st, le(n, w.shape[ax]), "split_at", c.span)
    full = [(ZERO, None, ONE)] * len(w.shape)
    lo = list(full)
    lo[ax] = (ZERO, n, ONE)
    hi = list(full)
    hi[ax] = (n, None, ONE)
    return tup(slice_view(w, lo), slice_view(w, hi))


@model("chunks", "chunks_exact", "exact_chunks", "exact_chunks_mut", "chunks_mut", "chunks_exact_mut")
def m_chunks(c):
    I, st = c.I, c.st
    w = view(I, st, c.a[0])
    n = I.deep(st, c.a[1])
    if len(w.shape) != 1 or not isn(n):
        return NI
    cnt = div(w.shape[0], n)
    if "exact" not in c.name and mul(cnt, n) is not w.shape[0]:
        return NI
    I.require(st, lt(ZERO, n), "chunks of zero items", c.span)
    # view with two axes: (chunk, offset)
    k1, k2 = freshk(), freshk()
    m = {w.vs[0]: add(mul(k1, n), k2)}
    return It("axis", Vw(w.base, (cnt, n), (k1, k2), [subst(e, m) for e in w.ix]), 0)


@model("new_unchecked")
def m_newunchecked(c):
    if "SliceInfo" in c.path:
        return c.a[0]
    return NI


@model("next_in_dim", "next_out_dim")
def m_nextdim(c):
    return UNIT


@model("slice", "slice_mut", "slice_move", "multi_slice_mut")
def m_slice(c):
    I, st = c.I, c.st
    w = view(I, st, c.a[0])
    info = I.deep(st, c.a[1])
    specs = slice_specs(I, st, info)
    if len(specs) != len(w.shape):
        raise Unsupported("slice rank")
    for sp, s in zip(specs, w.shape):
        if isn(sp):
            I.require(st, lt(sp, s), "slice index", c.span)
        elif sp[1] is not None:
            I.require(st, band(le(sp[0], sp[1]), le(sp[1], s)), "slice range", c.span)
    return slice_view(w, specs)


def slice_specs(I, st, info):
    if isinstance(info, St) and info.kind == "arr":
        out = []
        for e in info.f:
            e = I.deep(st, e)
            if isinstance(e, Opq) and e.name == "slc":
                if e.a[0] == "ix":
                    out.append(e.a[1])
                else:
                    out.append((e.a[1], e.a[2], e.a[3] if len(e.a) > 3 else ONE))
            elif isinstance(e, En):
                # SliceInfoElem literal
                if T.isint(e.d) and e.d.a[0] == 0:
                    s, en, step = e.p[0]
                    d, pay = opt_parts(en)
                    out.append((s, pay if d is TRUE else None, step))
                elif T.isint(e.d) and e.d.a[0] == 1:
                    out.append(e.p[1][0])
                else:
                    raise Unsupported("slice element")
            else:
                raise Unsupported("slice element")
        return out
    if isinstance(info, Opq) and info.name == "slc":
        return [info.a[1] if info.a[0] == "ix" else (info.a[1], info.a[2], ONE)]
    if isinstance(info, St) and info.f and isinstance(info.f[-1], (St,)) and info.f[-1].kind == "arr":
        return slice_specs(I, st, info.f[-1])
    for x in getattr(info, "f", ()):
        if isinstance(x, St) and x.kind == "arr":
            return slice_specs(I, st, x)
    raise Unsupported("slice info")


def bounds(c, w, idx):
    c.I.require(c.st, band(*[lt(a, s) for a, s in zip(idx, w.shape)]), "index out of bounds", c.span)


@model("index", "index_mut", "uget", "uget_mut", "get_unchecked", "get_unchecked_mut")
def m_index(c):
    I, st = c.I, c.st
    r, m = mapref(c)
    if m is not None:
        k = I.deep(st, c.a[1])
        I.require(st, bnot(isz(m.at(k))), "missing map key", c.span)
        return r.ext(("ix", (k,)))
    if not isarr(I, st, c.a[0]):
        return NI
    w = view(I, st, c.a[0])
    iv = I.deep(st, c.a[1])
    if isinstance(iv, St) and (iv.kind in RANGE + RANGEI or iv.kind.endswith(("RangeFull", "RangeFrom", "RangeTo"))):
        return slice_view(w, slice_specs(I, st, slice_elem(I, st, iv)))
    idx = index_arg(I, st, iv)
    if len(idx) != len(w.shape):
        return NI
    bounds(c, w, idx)
    return w.at(idx)


@model("dim", "raw_dim", "shape", "ndim", "nrows", "ncols", "len_of", "is_square", "strides", "into_pattern",
       "ncolumns")
def m_dim(c):
    I, st = c.I, c.st
    if c.name == "into_pattern":
        v = I.deep(st, c.a[0])
        return v
    if not isarr(I, st, c.a[0]):
        return NI
    w = view(I, st, c.a[0])
    n = c.name
    if n == "nrows":
        return w.shape[0]
    if n == "ncols":
        return w.shape[1]
    if n == "ndim":
        return INT(len(w.shape))
    if n == "len_of":
        return w.shape[axis_arg(I, st, c.a[1])]
    if n == "is_square":
        return eq(w.shape[0], w.shape[1])
    if n == "dim":
        return w.shape[0] if len(w.shape) == 1 else St("tup", w.shape)
    if n == "raw_dim":
        return St("dim", w.shape)
    if n == "shape":
        return I.tmpref(st, St("arr", w.shape))
    return NI


@model("assign", "fill", "assign_to")
def m_assign(c):
    I, st = c.I, c.st
    if c.name == "assign_to":
        return NI
    w = view(I, st, c.a[0])
    if c.name == "fill":
        store_view(I, st, w, lambda i: c.a[1])
        return UNIT
    src = view(I, st, c.a[1])
    if len(src.shape) != len(w.shape):
        raise Unsupported("broadcast assign")
    for x, y in zip(w.shape, src.shape):
        I.require(st, eq(x, y), "ndarray shape mismatch", c.span)
    snap = I.tmpref(st, materialise(I, st, src))
    sv = view(I, st, snap)
    store_view(I, st, w, lambda i: I.read(st, sv.at(i)))
    return UNIT


@model("copy_from_slice", "clone_from_slice")
def m_copyslice(c):
    return m_assign(Call(c.I, c.fr, c.st, dict(c.f, name="assign"), c.t, c.a, c.span))


@model("dot")
def m_dot(c):
    I, st = c.I, c.st
    if not (isarr(I, st, c.a[0]) and isarr(I, st, c.a[1])):
        return NI
    a, b = view(I, st, c.a[0]), view(I, st, c.a[1])
    I.require(st, eq(a.shape[-1], b.shape[0]), "dot shape mismatch", c.span)
    ka = [freshk() for _ in a.shape[:-1]]
    kb = [freshk() for _ in b.shape[1:]]
    j = mkbinder(a.shape[-1])
    body = rmul(I.read(st, a.at(tuple(ka) + (j,))), I.read(st, b.at((j,) + tuple(kb))))
    s = elim.rsum([j], TRUE, body)
    ks = ka + kb
    if not ks:
        return s
    return Arr(a.shape[:-1] + b.shape[1:], ks, s, "nd")


@model("general_mat_mul")
def m_gmm(c):
    I, st = c.I, c.st
    al, be = I.deep(st, c.a[0]), I.deep(st, c.a[3])
    a, b, d = view(I, st, c.a[1]), view(I, st, c.a[2]), view(I, st, c.a[4])

    def f(idx):
        j = mkbinder(a.shape[1])
        s = elim.rsum([j], TRUE, rmul(I.read(st, a.at((idx[0], j))), I.read(st, b.at((j, idx[1])))))
        return radd(rmul(al, s), rmul(be, I.read(st, d.at(idx))))
    store_view(I, st, d, f)
    return UNIT


@model("into_shape_clone", "to_shape", "into_shape", "into_shape_with_order", "reshape")
def m_reshape(c):
    I, st = c.I, c.st
    w = view(I, st, c.a[0])
    sh = shape_arg(I, st, c.a[1])
    n1, n2 = ONE, ONE
    for s in w.shape:
        n1 = mul(n1, s)
    for s in sh:
        n2 = mul(n2, s)
    good = eq(n1, n2)
    ks = [freshk() for _ in sh]
    # drop unit axes when the rest coincides
    s1 = [(i, s) for i, s in enumerate(w.shape) if s is not ONE]
    s2 = [(i, s) for i, s in enumerate(sh) if s is not ONE]
    if [s for _, s in s1] == [s for _, s in s2]:
        idx = [ZERO] * len(w.shape)
        for (i, _), (j, _) in zip(s1, s2):
            idx[i] = ks[j]
    else:
        flat = ZERO
        for k, s in zip(ks, sh):
            flat = add(mul(flat, s), k)
        idx = []
        for s in reversed(w.shape):
            idx.insert(0, flat)
            if len(w.shape) > 1:
                idx[0] = rem(flat, s)
                flat = div(flat, s)
    body = clone(I, st, I.read(st, w.at(tuple(idx))))
    a = Arr(sh, ks, body, "nd")
    if c.name == "reshape":
        return a
    return En(RES, ite(good, ZERO, ONE), {0: (a,), 1: (Opq("ShapeError"),)})


@model("insert_axis")
def m_insaxis(c):
    I, st = c.I, c.st
    w = view(I, st, c.a[0])
    ax = axis_arg(I, st, c.a[1])
    k = freshk()
    return Vw(w.base, w.shape[:ax] + (ONE,) + w.shape[ax:], w.vs[:ax] + (k,) + w.vs[ax:], w.ix)


@model("append", "push_row", "push_column", "push_axis")
def m_append(c):
    I, st = c.I, c.st
    if c.name != "append" or len(c.a) != 3:
        return NI
    a = I.read(st, c.a[0])
    if not isinstance(a, Arr):
        return NI
    ax = axis_arg(I, st, c.a[1])
    b = view(I, st, c.a[2])
    n0 = a.shape[ax]
    good = band(*[eq(x, y) for i, (x, y) in enumerate(zip(a.shape, b.shape)) if i != ax])
    idx = list(a.ks)
    idx[ax] = sub(idx[ax], n0)
    if b.shape[ax] is ONE:
        idx[ax] = ZERO
        body = merge(eq(a.ks[ax], n0), I.read(st, b.at(tuple(idx))), a.body)
    else:
        body = merge(lt(a.ks[ax], n0), a.body, I.read(st, b.at(tuple(idx))))
    sh = list(a.shape)
    sh[ax] = add(n0, b.shape[ax])
    I.write(st, c.a[0], Arr(sh, a.ks, body, a.kind))
    return En(RES, ite(good, ZERO, ONE), {0: (UNIT,), 1: (Opq("ShapeError"),)})


@model("concatenate", "stack")
def m_concat(c):
    I, st = c.I, c.st
    if c.name == "stack":
        return NI
    ax = axis_arg(I, st, c.a[0])
    v = I.deep(st, c.a[1])
    if not (isinstance(v, St) and v.kind == "arr"):
        return NI
    ws = [view(I, st, x) for x in v.f]
    ks = [freshk() for _ in ws[0].shape]
    body = None
    off = ZERO
    offs = []
    for w in ws:
        offs.append(off)
        off = add(off, w.shape[ax])
    for w, o in reversed(list(zip(ws, offs))):
        idx = list(ks)
        idx[ax] = sub(idx[ax], o)
        x = clone(I, st, I.read(st, w.at(tuple(idx))))
        body = x if body is None else merge(lt(ks[ax], add(o, w.shape[ax])), x, body)
    sh = list(ws[0].shape)
    sh[ax] = off
    return ok(Arr(sh, ks, body, "nd"))


@model("diag", "diag_mut")
def m_diag(c):
    w = view(c.I, c.st, c.a[0])
    k = freshk()
    return Vw(w.base, (imin(w.shape[0], w.shape[1]),), (k,), [subst(e, {v: k for v in w.vs}) for e in w.ix])


@model("push")
def m_push(c):
    I, st = c.I, c.st
    a = I.read(st, c.a[0])
    if isinstance(a, Arr):
        n = a.shape[0]
        body = c.a[1] if isinstance(a.body, Hole) and n is ZERO else merge(eq(a.ks[0], n), c.a[1], a.body)
        I.write(st, c.a[0], Arr((add(n, ONE),), a.ks, body, a.kind))
        return UNIT
    if isstr(a):
        I.write(st, c.a[0], sconcat(a, I.deep(st, c.a[1])))
        return UNIT
    return NI


@model("push_str")
def m_pushstr(c):
    I, st = c.I, c.st
    a = I.read(st, c.a[0])
    I.write(st, c.a[0], sconcat(a, I.deep(st, c.a[1])))
    return UNIT


def sconcat(a, b):
    return T.scat(a, b)


# ---- MaybeUninit / raw pointers
@model("uninit", "zeroed")
def m_uninit(c):
    t = c.t[0] if c.t else None
    if t and t[0] == "array" and t[2][0] == "cst":
        return Arr((t[2][1],), (freshk(),), T.R0 if c.I.conf.get("count_writes") else Opq("uninit"), "arr")
    return T.R0 if c.I.conf.get("count_writes") else Hole("uninitialised memory")


@model("wrapping_add", "add", "offset", "wrapping_offset")
def m_ptradd(c):
    a = c.a[0]
    if isinstance(a, Opq) and a.name == "eptr":
        return Opq("eptr", a.a[0], add(a.a[1], c.a[1]))
    return NI


def rawsum(c, r, v):
    """when writes are counted, an element holds the sum of what was written to it"""
    return T.radd(c.I.read(c.st, r), v) if c.I.conf.get("count_writes") else v


@model("write")
def m_ptrwrite(c):
    a = c.a[0]
    if isinstance(a, Opq) and a.name == "eptr":
        arr = c.I.read(c.st, a.a[0])
        if isinstance(arr, Arr):
            c.I.require(c.st, lt(a.a[1], arr.shape[0]), "raw write out of bounds", c.span)
            c.I.events.append({"ev": "rawwrite", "fn": c.I.stack[-1].fn.get("path"), "idx": a.a[1], "facts": c.st.facts})
            r = a.a[0].ext(("ix", (a.a[1],)))
            c.I.write(c.st, r, rawsum(c, r, c.a[1]))
            return UNIT
    if isinstance(a, Ref) and len(c.a) == 2:
        c.I.write(c.st, a, rawsum(c, a, c.a[1]))
        return a
    return NI


@model("drop", "forget")
def m_drop(c):
    return UNIT


@model("type_name")
def m_tn(c):
    return mk("sf", "type_name")


from . import strs      # noqa: E402,F401  (string and formatter models)


# ---- rounding division, unit powers
def ipow(n):
    """i^n"""
    m = rem(n, INT(4))
    return rite(eq(m, ZERO), R1, rite(eq(m, ONE), rc(0, 1), rite(eq(m, INT(2)), rc(-1), rc(0, -1))))


@model("i")
def m_imag_unit(c):
    return rc(0, 1) if "Complex" in c.path and not c.a else NI


@model("div_ceil", "next_multiple_of", "is_multiple_of", "div_euclid", "rem_euclid", "div_floor", "mod_floor")
def m_divceil(c):
    a, b = [c.I.deep(c.st, x) for x in c.a]
    if not (isint_(a) and isint_(b) and nonneg(a) and nonneg(b)):
        return NI
    if c.name != "is_multiple_of":
        c.I.require(c.st, bnot(eq(b, ZERO)), "division by zero", c.span)
    if c.name in ("div_euclid", "div_floor"):
        return div(a, b)
    if c.name in ("rem_euclid", "mod_floor"):
        return rem(a, b)
    if c.name == "is_multiple_of":
        return bor(band(eq(b, ZERO), eq(a, ZERO)), band(bnot(eq(b, ZERO)), eq(rem(a, b), ZERO)))
    q = div(add(a, sub(b, ONE)), b)
    return q if c.name == "div_ceil" else mul(q, b)


@model("checked_ilog2")
def m_checkedlog(c):
    a = c.I.deep(c.st, c.a[0])
    return En(OPT, ite(eq(a, ZERO), ZERO, ONE), {1: (ilog2(a),)})


@model("clamp")
def m_clamp(c):
    a, lo, hi = [c.I.deep(c.st, x) for x in c.a]
    if all(isint_(x) for x in (a, lo, hi)):
        return ite(lt(a, lo), lo, ite(lt(hi, a), hi, a))
    return NI


@model("is_some_and", "is_ok_and", "is_none_or")
def m_issomeand(c):
    I, st = c.I, c.st
    v = I.deep(st, c.a[0])
    if not isinstance(v, En):
        return NI
    good = 0 if c.name == "is_ok_and" else 1
    has = simp(eq(v.d, INT(good)), st.facts)
    if has is FALSE or good not in v.p:
        return TRUE if c.name == "is_none_or" else FALSE
    r = I.call_value(st, c.a[1], [v.p[good][0]])
    if not isn(r):
        return NI
    return bor(bnot(has), r) if c.name == "is_none_or" else band(has, r)


@model("nth")
def m_nth(c):
    I, st = c.I, c.st
    r = c.a[0]
    if not isinstance(r, Ref):
        return NI
    it = as_iter(I, st, I.read(st, r), r)
    I.write(st, r, It("skip", it, I.deep(st, c.a[1])))
    return single_next(I, st, r)


@model("reduce")
def m_reduce(c):
    I, st = c.I, c.st
    it = as_iter(I, st, c.a[0])
    n = count(I, st, it)
    if n is None:
        return NI
    cell = I.newcell(st, nth(I, st, it, ZERO))

    def step(s, x):
        s.cells[cell] = I.call_value(s, c.a[1], [s.cells[cell], x])
    consume(I, st, It("skip", it, ONE), step)
    v = st.cells.pop(cell)
    if isinstance(v, Hole):
        raise Unsupported(v.why)
    return En(OPT, ite(eq(n, ZERO), ZERO, ONE), {1: (v,)})


# ---- ndarray::Zip: several arrays of one shape walked in lockstep
def zip_part(I, st, x):
    if isinstance(x, It):
        return x
    return It("arr", view(I, st, x), False)


def m_zip_from(c):
    if "Zip" not in c.path or len(c.a) != 1:
        return NI
    if c.name == "indexed":
        return Opq("Zip", True, zip_part(c.I, c.st, c.a[0]))
    return Opq("Zip", False, zip_part(c.I, c.st, c.a[0]))


def m_zip_and(c):
    z = c.a[0]
    if not (isinstance(z, Opq) and z.name == "Zip"):
        return NI
    p = zip_part(c.I, c.st, c.a[1])
    a, b = mshape(z.a[1]), mshape(p)
    if a is None or b is None or len(a) != len(b):
        return NI
    for x, y in zip(a, b):
        c.I.require(c.st, eq(x, y), "Zip of different shapes", c.span)
    return Opq("Zip", *z.a, p)


def zip_args(I, s, z, bs):
    xs = [itemat(I, s, p, bs) for p in z.a[1:]]
    if z.a[0]:
        xs = [bs[0] if len(bs) == 1 else St("tup", list(bs))] + xs
    return xs


def m_zip_each(c):
    z = c.a[0]
    if not (isinstance(z, Opq) and z.name == "Zip"):
        return NI
    I, st = c.I, c.st

    def body(s, ctx):
        bs = [mkbinder(n) for n in mshape(z.a[1])]
        ctx.binders.extend(bs)
        ctx.pos = tuple(bs)
        try:
            I.call_value(s, c.a[1], zip_args(I, s, z, bs))
        except Diverge:
            return []
        return [("next", s)]
    done, early = I.summarise(st, body)
    if not done:
        raise Diverge()
    st.become(done[0])
    return UNIT


def m_zip_collect(c):
    z = c.a[0]
    if not (isinstance(z, Opq) and z.name == "Zip"):
        return NI
    I, st = c.I, c.st
    sh = mshape(z.a[1])
    ks = [freshk() for _ in sh]
    facts = st.facts
    for k, n in zip(ks, sh):
        st.assume(simp(lt(k, n), st.facts))
    v = I.call_value(st, c.a[1], zip_args(I, st, z, ks))
    st.facts = facts
    return Arr(sh, ks, v, "nd")


for _n, _f in (("from", m_zip_from), ("indexed", m_zip_from), ("and", m_zip_and), ("for_each", m_zip_each),
               ("map_collect", m_zip_collect), ("par_for_each", m_zip_each)):
    REG.setdefault(_n, []).insert(0, _f)
