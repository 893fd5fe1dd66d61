"""Shared vocabulary of the specifications."""
from .. import terms as T
from ..terms import (INT, ZERO, ONE, TRUE, FALSE, R0, R1, add, sub, mul, xor, and_, or_, not_, p2, pc, eq, lt, le,
                     band, bor, bnot, bxor, odd, rc, rd, radd, rsub, rmul, rneg, rinv, rf, scale, rite, ite, isz, rsum, VAR,
                     NVAR, Unsupported)
from ..session import (Sess, Missing, mvty, storage, TS, AL, F64, USIZE, MV, ARRAY, SPARSE, QST, QALG, CPX, EVEN,
                       FFTR, SIGN, C64, CX64, CX32, F32, tname)
from ..vals import St, En, Arr, Mp, Ref, Vw, It, Opq, VIte, tup, some, NONE, freshk, OPT, RES
from ..ctx import grow_plain

QAL = ("adt", QALG, ())
KINDS = ("array", "sparse")


def acs(a, b):
    return T.ifn("acs", a, b)


def full(alg):
    return sub(p2(alg["dim"]), ONE)


def comp(x, alg):
    return xor(x, full(alg))


def sgn(par, x):
    """(-1)^par * x"""
    return rite(par, rneg(x), x)


def geo_null(a, b, alg):
    return bnot(eq(and_(a, b, alg["proj_mask"]), ZERO))


def geo_par(a, b, alg):
    return bxor(odd(acs(a, b)), odd(pc(and_(a, b, alg["imag_mask"]))))


def wedge_null(a, b):
    return bnot(eq(and_(a, b), ZERO))


def ipow(n):
    """i^n"""
    m = T.rem(n, INT(4))
    return rite(eq(m, ZERO), R1, rite(eq(m, ONE), rc(0, 1), rite(eq(m, INT(2)), rc(-1), rc(0, -1))))


def kvar(alg, name="k"):
    return VAR(name, alg["dim"])


def fresh_var(alg, p="j"):
    return VAR(T.fresh(p), alg["dim"])


QALGD = {"m": INT(2), "s": ZERO, "dim": INT(2), "real_mask": ZERO, "imag_mask": INT(3), "proj_mask": ZERO}


def setups(cx, kinds=("array", "sparse", "q")):
    """(label, session, multivector type, algebra data) for each storage"""
    for k in kinds:
        if k == "q":
            s = cx.sess(alg=None)
            s.I.mapdim = INT(2)
            yield "quaternion storage", s, mvty("q", TS, QAL), QALGD
        else:
            s = cx.sess()
            yield {"array": "dense storage", "sparse": "sparse storage"}[k], s, mvty(k), s.alg


def qmodels(cx):
    n = 4 if cx.tier == "quick" else 24
    return [{"syms": {"m": 2, "s": 0}, "masks": {"R": 0, "I": 3}, "seed": "q%d.%d" % (cx.seed, i), "dim": 2}
            for i in range(n)]


def models_of(cx, alg):
    return qmodels(cx) if alg is QALGD else None


def where(target):
    key, b, env = target
    return "%s (%s)" % (b["path"], b.get("span"))


def contract_ac_sign(cx):
    """the summary used for ac_product_sign / ac_negated_product_sign, checked against their bodies"""
    for name, neg in (("ac_product_sign", False), ("ac_negated_product_sign", True)):
        with cx.clause("%s equals the transposition parity" % name):
            s = cx.sess(contracts=False)
            t = s.method(name, AL, "algebra::ClAlgebra")
            a, b = VAR("x", s.alg["dim"]), VAR("y", s.alg["dim"])
            r = s.call(t, [a, b])
            par = odd(acs(a, b))
            want = s.sign(FALSE, bnot(par) if neg else par)
            ms = dim_models(cx)
            cx.equal("%s(x, y)" % name, r.d, want, [a, b], models=ms, where=where(t),
                     cap=4096 if cx.tier == "quick" else 60000, budget=10 ** 9)
            cx.no_panics(s, models=[m for m in ms if m["dim"] <= 7])


def dim_models(cx):
    dims = list(range(0, 12)) + [16, 17, 31, 32, 33, 47, 62, 63]
    out = []
    for i, d in enumerate(dims):
        import random
        rnd = random.Random("%d|%d" % (cx.seed, d))
        s = rnd.randrange(0, d + 1) if d else 0
        m = d - s
        R = rnd.randrange(1 << m)
        out.append({"syms": {"m": m, "s": s}, "masks": {"R": R, "I": ((1 << m) - 1) & ~R}, "dim": d,
                    "seed": "d%d.%d" % (cx.seed, i), "grow": grow_plain})
    return out


def spellings(ty, rhs=None):
    rhs = rhs or ty
    return [("value-value", ty, rhs), ("ref-ref", ("ref", ty, False), ("ref", rhs, False)),
            ("value-ref", ty, ("ref", rhs, False)), ("ref-value", ("ref", ty, False), rhs)]


def operand(s, v, ty):
    return s.ref(v) if ty[0] == "ref" else v


def each(cx, kinds=("array", "sparse", "q")):
    """like setups, but the caller asks for a fresh session per clause"""
    for k in kinds:
        lbl = {"array": "dense storage", "sparse": "sparse storage", "q": "quaternion storage"}[k]
        q = k == "q"

        def new(q=q, **kw):
            s = cx.sess(**kw)
            if q:
                s.I.mapdim = INT(2)
            return s
        ty = (lambda t=TS, k=k, q=q: mvty(k, t, QAL) if q else mvty(k, t))
        yield k, lbl, new, ty


def algof(s, kind):
    return QALGD if kind == "q" else s.alg


def same(cx, s, ref, name, alg, what, **kw):
    """an operand behind a reference still holds its initial coefficients"""
    k = kvar(alg)
    cx.equal("%s afterwards" % what, s.content(ref, k), rd(name, k), [k], models=models_of(cx, alg), **kw)


def items(s, v):
    """symbolic items of an iterator value: [(binders, guard, item, state)] per concatenated part"""
    from .. import models
    from ..interp import LoopCtx, Diverge
    it = models.as_iter(s.I, s.st, v)
    out = []
    for p in models.chain_parts(it):
        st = s.st.copy()
        base = len(st.facts)
        ctx = LoopCtx(None, None, None, "spec")
        try:
            x, o = models.pull(s.I, st, p, ctx)
        except Diverge:
            continue
        out.append((tuple(ctx.binders), band(*st.facts[base:]), x, st))
    return out


def enum_forms(s, v, k):
    """(multiplicity, value sum) of index k in an iterator of (index, &coefficient)"""
    from ..interp import mkisum
    from .. import elim
    mult, val = ZERO, R0
    for bs, g, x, st in items(s, v):
        if not (isinstance(x, St) and len(x.f) == 2):
            raise Unsupported("enumerated item is not a pair")
        ix = s.I.deep(st, x.f[0])
        if isinstance(ix, St) and len(ix.f) == 1:
            ix = ix.f[0]
        c = s.I.deep(st, x.f[1])
        gg = band(g, eq(ix, k))
        mult = add(mult, T.isum(bs, gg, ONE))
        val = radd(val, T.rsum(bs, gg, c))
    return mult, val


def result_parts(s, r):
    """(condition for Ok, Ok payload, error variant index) of a Result value"""
    r = s.deep(r)
    if isinstance(r, VIte):
        c1, p1, e1 = result_parts(s, r.x)
        c2, p2_, e2 = result_parts(s, r.y)
        from ..vals import merge
        pay = p1 if p2_ is None else p2_ if p1 is None else merge(r.c, p1, p2_)
        er = e1 if e2 is None else e2 if e1 is None else ite(r.c, e1, e2)
        return T.bite(r.c, c1, c2), pay, er
    if not isinstance(r, En):
        raise Unsupported("expected a Result, found %s" % type(r).__name__)
    pay = r.p[0][0] if 0 in r.p else None
    e = r.p[1][0] if 1 in r.p else None
    if e is not None:
        e = s.deep(e)
        if isinstance(e, En):
            e = e.d
        elif not T.isn(e):
            raise Unsupported("error payload %s" % type(e).__name__)
    return eq(r.d, ZERO), pay, e


def err_is(s, name):
    from ..session import err_variant
    return INT(err_variant(s.p, name))


def with_len(models, name, vals):
    """extend every model by a length symbol"""
    out = []
    for m in models:
        for v in vals(m):
            if v < 0:
                continue
            x = dict(m)
            x["syms"] = dict(m["syms"])
            x["syms"][name] = v
            x["seed"] = "%s|%s%d" % (m["seed"], name, v)
            out.append(x)
    return out


def small(cx, alg, d=4):
    """models of small dimension"""
    ms = models_of(cx, alg)
    return [m for m in cx.models(ms) if m["dim"] <= d]
