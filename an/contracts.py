"""Summaries of the recursive kernels.

A recursive function cannot be expanded; its callers use the closed form below,
and the closed form itself is checked against the function body by induction on
the size exponent: the body is analysed with the summary in place of the inner
calls, once for the smallest size and once for an arbitrary larger one.  The
functions are recognised by their parameter types, not by name.
"""
from . import elim
from . import models
from . import terms as T
from .terms import (INT, ZERO, ONE, TRUE, R0, SYM, VAR, add, sub, mul, xor, and_, not_, p2, pc, eq, bnot, bxor, band,
                    odd, rd, rmul, rneg, radd, rite, rsum, rc, shr, Unsupported)
from .vals import Arr, Vw, En, St, Ref, UNIT, freshk, vsubst, ok, RES
from .interp import merge


def sgn(par, x):
    return rite(par, rneg(x), x)


def acs(a, b):
    return T.ifn("acs", a, b)


def viewsig(t):
    """('view'|'mut'|'own', rank, element) of an array type, else None"""
    if t[0] == "ref":
        return viewsig(t[1])
    if t[0] != "adt" or not t[1].endswith("ndarray::ArrayBase"):
        return None
    rep, dim = t[2][0], t[2][1]
    try:
        rank = dim[2][0][2][1]
        if T.isn(rank):
            rank = rank.a[0]
    except (IndexError, TypeError):
        return None
    if rep[1].endswith("OwnedRepr"):
        return ("own", rank, rep[2][0])
    if rep[1].endswith("ViewRepr"):
        r = rep[2][0]
        if r[0] == "ref":
            return ("mut" if r[2] else "view", rank, r[1])
    return None


def signature(prog, b):
    ins = []
    for x in b.get("inputs") or []:
        s = viewsig(prog.ty(x))
        ins.append(s[:2] if s else None)
    return tuple(ins)


def outsig(prog, b):
    t = prog.ty(b["output"])
    if t[0] == "adt" and t[1] == "core::result::Result":
        s = viewsig(t[2][0])
        return ("result", s[:2] if s else None)
    s = viewsig(t)
    return (None, s[:2] if s else None)


def log2(t):
    """exponent of a size term"""
    if T.isint(t):
        n = t.a[0]
        if n > 0 and n & (n - 1) == 0:
            return INT(n.bit_length() - 1)
        raise Unsupported("size %d is not a power of two" % n)
    p = T.topoly(t)
    if len(p) == 1:
        (m, c), = p.items()
        e = T._monoexp(m, c)
        if e is not None:
            return e
    raise Unsupported("size %s is not a power of two" % T.show(t))


class ArrFn:
    """content of an array argument as a function of its indices"""

    def __init__(self, I, st, v):
        self.w = models.view(I, st, v)
        self.ks = tuple(freshk() for _ in self.w.shape)
        self.body = I.read(st, self.w.at(self.ks))
        if not T.isn(self.body):
            raise Unsupported("array of structured values")
        self.shape = self.w.shape

    def at(self, *ix):
        return T.subst(self.body, dict(zip(self.ks, ix)))


def fresh(n, p="h"):
    return VAR(T.fresh(p), n)


# ------------------------------------------------------------------- wedge
def wedge_form(n, fa, fb, k):
    i = fresh(n)
    return elim.rsum((i,), eq(and_(i, not_(k)), ZERO), sgn(odd(acs(i, xor(i, k))), rmul(fa(i), fb(xor(i, k)))))


def wedge_contract(I, st, b, env, args):
    I.used_contracts.add(b["path"])
    fa, fb = ArrFn(I, st, args[0]), ArrFn(I, st, args[1])
    dst = models.view(I, st, args[2])
    n = log2(fa.shape[0])
    models.store_view(I, st, dst, lambda ix: wedge_form(n, fa.at, fb.at, ix[0]))
    return UNIT


# -------------------------------------------------------------------- wmul
def wmul_form(s, n, fa, fb, w, r, c):
    u, k = fresh(s), fresh(n)
    v = xor(u, w)
    par = bxor(odd(acs(u, v)), band(odd(pc(v)), odd(pc(xor(r, k)))))
    return elim.rsum((u, k), eq(and_(u, not_(w)), ZERO), sgn(par, rmul(fa(u, r, k), fb(v, k, c))))


def wmul_contract(I, st, b, env, args):
    I.used_contracts.add(b["path"])
    fa, fb = ArrFn(I, st, args[0]), ArrFn(I, st, args[1])
    dst = models.view(I, st, args[2])
    s, n = log2(fa.shape[0]), log2(fa.shape[1])
    models.store_view(I, st, dst, lambda ix: wmul_form(s, n, fa.at, fb.at, *ix))
    return UNIT


# ------------------------------------------------------------------ clifft
def inter(h, l):
    """interleave: bits of h at odd positions, bits of l at even positions"""
    return T.ifn("il", h, l)


def ilacs(h, l, h2, l2):
    """transpositions of interleave(h, l) against interleave(h2, l2)"""
    return T.add(acs(l, l2), acs(l, h2), acs(h, l2), acs(h, h2), pc(and_(l, h2)))


def clifft_form(n, fc, i, j):
    """entry (i, j) of the Cl(n,n) matrix"""
    h = fresh(n)
    par = bxor(odd(pc(and_(h, i))), odd(acs(xor(i, j), j)))
    return elim.rsum((h,), TRUE, sgn(par, fc(inter(h, xor(h, i, j)))))


def half(e):
    """e / 2 for an exponent with even coefficients"""
    p = T.topoly(e)
    if any(c % 2 for c in p.values()):
        return None
    return T.frompoly({m: c // 2 for m, c in p.items()})


def even_exp(I, st, size):
    """n with size == 4^n"""
    n = half(log2(size))
    if n is None:
        raise Unsupported("transform of an array of size %s" % T.show(size))
    return n


def opaque(shape):
    ks = [freshk() for _ in shape]
    return Arr(shape, ks, T.rf("opaque", *ks), "nd")


def is_pow2(t):
    try:
        log2(t)
        return TRUE
    except Unsupported:
        return eq(pc(t), ONE)


def clifft_entry(I, st, v):
    fc = ArrFn(I, st, v)
    if I.conf.get("shapes"):
        return fc, None
    return fc, even_exp(I, st, fc.shape[0])


def side_of(I, st, size):
    """side of the square matrix holding `size` coefficients (size a power of four)"""
    try:
        e = log2(size)
    except Unsupported:
        e = T.ilog2(size)
    h = half(e)
    if h is None:
        h = T.div(e, INT(2))
    return p2(h)


def clifft_contract(I, st, b, env, args):
    try:
        fc, n = clifft_entry(I, st, args[0])
    except Unsupported:
        return NotImplemented       # not a size the summary is about: follow the body
    I.used_contracts.add(b["path"])
    if n is None:
        s = side_of(I, st, fc.shape[0])
        return err_shape(I, bnot(is_pow2(fc.shape[0])), opaque((s, s)))
    i, j = freshk(), freshk()
    return ok(Arr((p2(n), p2(n)), (i, j), clifft_form(n, fc.at, i, j), "nd"))


def clifft_into_contract(I, st, b, env, args):
    try:
        fc, n = clifft_entry(I, st, args[0])
    except Unsupported:
        return NotImplemented       # not a size the summary is about: follow the body
    I.used_contracts.add(b["path"])
    dst = models.view(I, st, args[1])
    if n is None:
        models.store_view(I, st, dst, lambda ix: T.rf("opaque", *ix))
        return err_shape(I, bnot(is_pow2(fc.shape[0])), UNIT)
    for s in dst.shape:
        I.require(st, eq(s, p2(n)), "shape of the transform destination", None)
    models.store_view(I, st, dst, lambda ix: clifft_form(n, fc.at, *ix))
    return ok(UNIT)


def iclifft_form(n, fm, w):
    h, l = T.ifn("ob", w), T.ifn("eb", w)
    x = xor(h, l)
    i = fresh(n)
    par = bxor(odd(pc(and_(h, i))), odd(acs(x, xor(i, x))))
    return rmul(T.rf("r2inv", n), elim.rsum((i,), TRUE, sgn(par, fm(i, xor(i, x)))))


def err_shape(I, cond, val):
    """Err(InvalidShape) when cond"""
    from .session import err_variant
    e = En("ClError", INT(err_variant(I.p, "InvalidShape")), {})
    return En(RES, T.ite(cond, ONE, ZERO), {0: (val,), 1: (e,)})


def iclifft_shape(I, st, v):
    fm = ArrFn(I, st, v)
    bad = bnot(band(eq(fm.shape[0], fm.shape[1]), is_pow2(fm.shape[0])))
    return fm, bad


def iclifft_contract(I, st, b, env, args):
    I.used_contracts.add(b["path"])
    fm, bad = iclifft_shape(I, st, args[0])
    if I.conf.get("shapes") or bad is not T.FALSE:
        return err_shape(I, bad, opaque((T.mul(fm.shape[0], fm.shape[1]),)))
    n = log2(fm.shape[0])
    w = freshk()
    return ok(Arr((p2(T.scale(n, 2)),), (w,), iclifft_form(n, fm.at, w), "nd"))


def iclifft_into_contract(I, st, b, env, args):
    I.used_contracts.add(b["path"])
    fm, bad = iclifft_shape(I, st, args[0])
    dst = models.view(I, st, args[1])
    if I.conf.get("shapes") or bad is not T.FALSE:
        base = ArrFn(I, st, dst)
        models.store_view(I, st, dst, lambda ix: rite(bad, base.at(*ix), T.rf("opaque", *ix)))
        return err_shape(I, bad, UNIT)
    n = log2(fm.shape[0])
    I.require(st, eq(dst.shape[0], p2(T.scale(n, 2))), "size of the inverse transform destination", None)
    models.store_view(I, st, dst, lambda ix: iclifft_form(n, fm.at, ix[0]))
    return ok(UNIT)


# -------------------------------------------------------- imaginary flip
def iflip_form(n, fm, i, j):
    f = sub(p2(n), ONE)
    return sgn(odd(acs(xor(i, j), f)), fm(xor(i, f), xor(j, f)))


def iflip_contract(I, st, b, env, args):
    I.used_contracts.add(b["path"])
    fm = ArrFn(I, st, args[0])
    if I.conf.get("shapes"):
        models.store_view(I, st, fm.w, lambda ix: T.rf("opaque", *ix))
        return UNIT
    n = log2(fm.shape[0])
    models.store_view(I, st, fm.w, lambda ix: iflip_form(n, fm.at, *ix))
    return UNIT


# ------------------------------------------------------------ recognition
TABLE = {
    ((("mut", 1), ("view", 1), ("mut", 1)), (None, None)): ("wedge", wedge_contract),
    ((("view", 1), ("view", 1), ("mut", 1)), (None, None)): ("wedge", wedge_contract),
    ((("mut", 3), ("view", 3), ("mut", 3)), (None, None)): ("wmul", wmul_contract),
    ((("view", 3), ("view", 3), ("mut", 3)), (None, None)): ("wmul", wmul_contract),
    ((("view", 1),), ("result", ("own", 2))): ("clifft", clifft_contract),
    ((("view", 1), ("mut", 2)), ("result", None)): ("clifft_into", clifft_into_contract),
    ((("view", 2),), ("result", ("own", 1))): ("iclifft", iclifft_contract),
    ((("view", 2), ("mut", 1)), ("result", None)): ("iclifft_into", iclifft_into_contract),
    ((("mut", 2),), (None, None)): ("iflip", iflip_contract),
}


def recognised(prog):
    """recursive functions with a known summary: [(key, body, role, contract)]"""
    out = []
    for k in sorted(prog.recursive()):
        b = prog.bodies[k]
        if "output" not in b:
            continue            # a closure inside a recursive function
        r = TABLE.get((signature(prog, b), outsig(prog, b)))
        if r:
            out.append((k, b, r[0], r[1]))
    return out


def register(I):
    drop = getattr(I.p, "dropped", ())
    for k, b, role, c in recognised(I.p):
        if k not in drop:
            I.contracts[k] = noting(k, c)


def noting(key, contract):
    """the summary, with a note of every call: target, size of the first array, facts"""
    def call(I, st, b, env, args):
        size = ONE
        for x in models.view(I, st, args[0]).shape:
            size = mul(size, x)
        I.reccalls.append((key, size, tuple(st.facts)))
        return contract(I, st, b, env, args)
    return call


def note_calls(cx, s, key, size, ms):
    """edges of the recursion from `key` along which the array need not get smaller"""
    from .ctx import freevars
    from . import evalm
    edges = cx.__dict__.setdefault("_recedges", {})
    checked = cx.__dict__.setdefault("_recchecked", [0])
    for target, z, facts in s.I.reccalls:
        checked[0] += 1
        cond = band(T.le(size, z), *facts)
        if cond is T.FALSE:
            continue
        vs = sorted([v for v in freevars(cond) if v.op in ("var", "nv")], key=lambda v: v.id)
        try:
            f = evalm.compile_term([T.mk("ex", tuple(vs), cond) if vs else cond], [])
        except Unsupported:
            continue
        for md in ms:
            if f(cx.mk_model(md, {}, (), None))[0]:
                edges.setdefault((key, target), md["syms"])
                break


def recursion_ends(cx, what):
    """no cycle of calls on arrays that need not get smaller"""
    from .mir import _scc_cycles
    from .ctx import span_str
    edges = getattr(cx, "_recedges", {})
    with cx.clause("the recursion of %s works on ever smaller arrays" % what):
        cx.cur["compared"] = cx.__dict__.get("_recchecked", [0])[0]
        g = {}
        for a, b in edges:
            g.setdefault(a, set()).add(b)
            g.setdefault(b, set())
        for k in sorted(_scc_cycles(g)):
            b = cx.prog.bodies[k]
            at = [m for (x, y), m in edges.items() if x == k]
            cx.violate("recursion", "%s calls itself on an array that is not smaller: the call never returns" % b["path"],
                       where="%s (%s)" % (b["path"], span_str(b.get("span"))), detail={"size": str(at[:1])})


# ---------------------------------------------------------- verification
def _view(s, v):
    r = s.ref(v)
    ks = tuple(freshk() for _ in v.shape)
    return Vw(r, v.shape, ks, ks), r


def _arr(s, name, exps):
    ks = tuple(VAR(T.fresh("z"), e) for e in exps)
    v = Arr(tuple(p2(e) for e in exps), ks, rd(name, *ks), "nd")
    return _view(s, v)


def _case(s, role, L, W=None):
    """arguments for a kernel at size exponent L, and the required outputs:
    (args, [(what, ref, free variables, required term)])"""
    from .terms import rd as R
    fa, fb, fd = (lambda *ix: R("a", *ix)), (lambda *ix: R("b", *ix)), (lambda *ix: R("d", *ix))
    if role == "wedge":
        a, ra = _arr(s, "a", (L,))
        b, rb = _arr(s, "b", (L,))
        d, rdst = _arr(s, "d", (L,))
        k = VAR("k", L)
        return [a, b, d], [("dest[k]", rdst, [k], wedge_form(L, fa, fb, k)), ("a[k] afterwards", ra, [k], R("a", k))]
    if role == "wmul":
        n = SYM("w")
        a, ra = _arr(s, "a", (L, n, n))
        b, rb = _arr(s, "b", (L, n, n))
        d, rdst = _arr(s, "d", (L, n, n))
        k, r, c = VAR("k", L), VAR("r", n), VAR("c", n)
        return [a, b, d], [("dest[w,r,c]", rdst, [k, r, c], wmul_form(L, n, fa, fb, k, r, c)),
                           ("a[w,r,c] afterwards", ra, [k, r, c], R("a", k, r, c))]
    if role in ("clifft", "clifft_into"):
        a, ra = _arr(s, "a", (T.scale(L, 2),))
        i, j = VAR("i", L), VAR("j", L)
        want = clifft_form(L, fa, i, j)
        if role == "clifft":
            return [a], [("result[i,j]", None, [i, j], want)]
        d, rdst = _arr(s, "d", (L, L))
        return [a, d], [("dest[i,j]", rdst, [i, j], want)]
    if role in ("iclifft", "iclifft_into"):
        a, ra = _arr(s, "a", (L, L))
        w = VAR("w", T.scale(L, 2))
        want = iclifft_form(L, fa, w)
        if role == "iclifft":
            return [a], [("result[w]", None, [w], want)]
        d, rdst = _arr(s, "d", (T.scale(L, 2),))
        return [a, d], [("dest[w]", rdst, [w], want)]
    if role == "iflip":
        a, ra = _arr(s, "a", (L, L))
        i, j = VAR("i", L), VAR("j", L)
        return [a], [("m[i,j]", ra, [i, j], iflip_form(L, fa, i, j))]
    raise Unsupported("role %s" % role)


def acyclic_without(prog, keep):
    """no call cycle among recursive functions avoids the functions in keep"""
    rec = prog.recursive()
    from .mir import _scc_cycles
    names = {k for k in rec if k not in keep}
    g = {k: {x for x in prog.callgraph[k] if x in names} for k in names}
    return _scc_cycles(g)


def check_kernel(cx, key, b, role, contract, drop):
    """compare one kernel body with its summary at the base size and at an arbitrary larger one"""
    from .ctx import span_str
    where = "%s (%s)" % (b["path"], span_str(b.get("span")))
    deep = 5 if role in ("wedge",) else 3
    if cx.tier == "thorough":
        deep += 1
    for lbl, L, syms in (("smallest size", ZERO, [{}]), ("inductive step", add(SYM("n"), ONE),
                                                         [{"n": v} for v in range(0, deep)])):
        cx.prog.dropped = drop
        s = cx.sess()
        first = [True]

        def once(I, st, bb, env, args):
            if first[0]:
                first[0] = False
                return NotImplemented
            return inner(I, st, bb, env, args)
        inner = noting(key, contract)
        s.I.contracts[key] = once
        args, outs = _case(s, role, L)
        gens = [g for g in b["generics"]]
        from .session import TS
        r = s.call((key, b, {}), args, extra=[TS] * len(gens))
        ms = []
        def grow(rnd, d):
            if role == "wmul":
                k = rnd.choice((d // 4, rnd.randrange(min(d, 24))))
                return {"syms": {"n": k, "w": (d - k) // 2}, "masks": {}, "dim": k + 1}
            return {"syms": {"n": d - 1 if role == "wedge" else d // 2 - 1, "w": 0}, "masks": {}, "dim": d}
        for y in syms:
            for w in ((0, 1, 2) if role == "wmul" else (0,)):
                x = dict(y)
                x["w"] = w
                x.setdefault("n", 0)
                dim = x["n"] + (1 if y else 0)
                ms.append({"syms": x, "masks": {}, "dim": dim, "seed": "%s.%d.%d.%d" % (role, cx.seed, x["n"], w)})
                if y:
                    ms[-1]["grow"] = grow
        bounds = {}
        if L is not ZERO:
            e = (lambda md: 2 << md["syms"]["n"])
            q = (lambda md: 4 << 2 * md["syms"]["n"])
            f = (lambda md: 1 << md["syms"]["w"])
            bounds = {"wedge": {k: (e,) for k in "abd"}, "wmul": {k: (e, f, f) for k in "abd"}, "clifft": {"a": (q,)},
                      "clifft_into": {"a": (q,), "d": (e, e)}, "iclifft": {"a": (e, e)},
                      "iclifft_into": {"a": (e, e), "d": (q,)}, "iflip": {"a": (e, e)}}[role]
        for what, ref, free, want in outs:
            if ref is None:
                v = s.deep(r)
                if isinstance(v, En):
                    if not (v.d is ZERO):
                        cx.always("%s: succeeds" % what, eq(v.d, ZERO), [], models=ms, bounds=bounds, where=where)
                    v = v.p[0][0]
                v = s.deep(v)
            else:
                v = s.I.read(s.st, ref)
                rr = s.deep(r)
                if isinstance(rr, En) and rr.d is not ZERO:
                    cx.always("%s: succeeds" % what, eq(rr.d, ZERO), [], models=ms, bounds=bounds, where=where)
            if not isinstance(v, Arr):
                raise Unsupported("kernel result is %s" % type(v).__name__)
            cx.equal("%s, %s" % (what, lbl), v.at(tuple(free)), want, free, models=ms, bounds=bounds, where=where,
                     nc=role == "wedge")
        cx.no_panics(s, models=ms, bounds=bounds)
        size = ONE
        for x in args[0].shape:
            size = mul(size, x)
        note_calls(cx, s, key, size, ms)


def kernel_shapes(cx, size_models):
    """the summaries' shape errors: the inverse kernels reject every matrix that is not square with a power-of-two side"""
    from .ctx import span_str
    R, C, N = SYM("R"), SYM("C"), SYM("N")
    for key, b, role, contract in recognised(cx.prog):
        if role not in ("iclifft", "iclifft_into", "clifft", "clifft_into") or key in cx.prog.dropped:
            continue
        where = "%s (%s)" % (b["path"], span_str(b.get("span")))
        with cx.clause("shape errors of the recursive kernel %s (%s)" % (b["path"], role)):
            s = cx.sess(conf={"shapes": True})
            first = [True]

            def once(I, st, bb, env, args):
                if first[0]:
                    first[0] = False
                    return NotImplemented
                return inner(I, st, bb, env, args)
            inner = noting(key, contract)
            s.I.contracts[key] = once
            from .session import TS, err_variant
            inv = role.startswith("i")
            shape = (R, C) if inv else (N,)
            args = [_sized(s, "a", shape)]
            if role == "iclifft_into":
                args.append(_sized(s, "d", (mul(R, C),)))
            if role == "clifft_into":
                e = p2(T.div(T.ilog2(N), INT(2)))
                args.append(_sized(s, "d", (e, e)))
            r = s.deep(s.call((key, b, {}), args, extra=[TS] * len(b["generics"])))
            good = band(eq(R, C), eq(pc(R), ONE)) if inv else eq(pc(N), ONE)
            ms = size_models("R", "C") if inv else size_models("N")
            if not inv:         # only reached with powers of four or with lengths that are no power of two
                ms = [m for m in ms if m["syms"]["N"] & (m["syms"]["N"] - 1) or
                      (m["syms"]["N"].bit_length() % 2 == 1)]
            kw = dict(models=ms, where=where, bounds={})
            cx.equal("%s succeeds" % b["path"], T.ite(eq(r.d, ZERO), ONE, ZERO), T.ite(good, ONE, ZERO), [], **kw)
            e = s.deep(r.p[1][0]) if 1 in r.p else None
            if isinstance(e, En):
                cx.equal("%s error" % b["path"], e.d, INT(err_variant(cx.prog, "InvalidShape")), [], cond=bnot(good),
                         **kw)
            cx.no_panics(s, models=ms, bounds={})
            note_calls(cx, s, key, mul(R, C) if inv else N, ms)
    recursion_ends(cx, "the transforms, for arrays of any shape")


def _sized(s, name, shape):
    ks = tuple(freshk() for _ in shape)
    return _view(s, Arr(shape, ks, rd(name, *ks), "nd"))[0]


def kernels(cx, roles):
    """establish the summaries of the recursive kernels with the given roles"""
    prog = cx.prog
    prog.dropped = frozenset(getattr(prog, "dropped", ()))
    cand = [x for x in recognised(prog) if x[2] in roles]
    done = getattr(cx, "_kern", None)
    if done is None:
        done = cx._kern = set()

    def attempt(drop, commit):
        """-> keys whose body differs from the summary"""
        bad = []
        for k, b, role, c in cand:
            if k in drop or k in done:
                continue
            nv, nu, nc = len(cx.violations), len(cx.undecided), len(cx.clauses)
            with cx.clause("summary of the recursive kernel %s (%s)" % (b["path"], role)):
                check_kernel(cx, k, b, role, c, drop)
            if len(cx.violations) > nv or len(cx.undecided) > nu:
                bad.append(k)
            elif commit is None:
                done.add(k)
        return bad
    v0, u0, c0 = list(cx.violations), list(cx.undecided), list(cx.clauses)
    done0 = set(done)
    base = frozenset(prog.dropped)
    cx._recedges = {}
    bad = attempt(base, None)
    if not bad:
        prog.dropped = base
        recursion_ends(cx, " and ".join(sorted({x[2] for x in cand})) or "the kernels")
        return
    first = (list(cx.violations), list(cx.undecided), list(cx.clauses))
    keys = [k for k, _, _, _ in recognised(prog)]
    # a helper split off a kernel may share its parameter types: analyse it in place instead
    import itertools
    for n in range(1, len(bad) + 1):
        for sub_ in itertools.combinations(bad, n):
            drop = base | frozenset(sub_)
            keep = [k for k in keys if k not in drop]
            if acyclic_without(prog, keep) & set(sub_):
                continue
            done.clear()
            done.update(done0)
            cx._recedges = {}
            cx.violations[:], cx.undecided[:], cx.clauses[:] = list(v0), list(u0), list(c0)
            if not attempt(drop, None):
                prog.dropped = drop
                recursion_ends(cx, " and ".join(sorted({x[2] for x in cand})))
                return
    cx.violations[:], cx.undecided[:], cx.clauses[:] = first
    done.clear()
    done.update(done0)
    prog.dropped = base
