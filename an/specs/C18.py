"""C18: integer powers."""
from .fftcommon import *
from ..session import FFTR, MV
from ..terms import SYM, isn

EXPLAIN = ("pow is analysed in the domain of powers of its argument: every value of the algebra's type is x^e with e an "
           "integer term, products add exponents (associativity of the product is C02/C16), one is x^0; a recursive "
           "function is replaced by its own claim at a strictly smaller exponent, which is then established for it")
RULE = "exponent of pow(x^1, n) is n for every n; every recursive call has a strictly smaller exponent"
FLOOR = 3


def power(v, pth):
    """exponent of an abstract power, or None"""
    out = []

    def go(x):
        if isn(x) and T.sort(x) == "i":
            out.append(x)
        elif isinstance(x, St):
            for y in x.f:
                go(y)
    if isinstance(v, St) and v.kind == pth:
        go(v)
    return out[0] if len(out) == 1 else None


def install(cx, s, ty, blank):
    """products, one, and recursive functions act on exponents"""
    pth = blank.kind

    def mk_(e):
        def go(v):
            if isinstance(v, St) and v.kind == "pow-slot":
                return e
            if isinstance(v, St):
                return St(v.kind, [go(x) for x in v.f])
            return v
        return go(blank)

    def val(I, st, v):
        while isinstance(v, Ref):
            v = I.read(st, v)
        return power(v, pth)

    def mulf(I, st, f, targs, args):
        if len(args) != 2:
            return NotImplemented
        a, b = val(I, st, args[0]), val(I, st, args[1])
        if a is None or b is None:
            if a is not None or b is not None:
                raise Unsupported("product of a power with something else")
            return NotImplemented
        return mk_(add(a, b))

    def mulasg(I, st, f, targs, args):
        a, b = val(I, st, args[0]), val(I, st, args[1])
        if a is None or b is None:
            return NotImplemented
        I.write(st, args[0], mk_(add(a, b)))
        return T_UNIT

    def onef(I, st, f, targs, args):
        return mk_(ZERO) if targs and targs[0] == ty else NotImplemented
    from ..vals import UNIT as T_UNIT
    for p in ("std::ops::Mul::mul", "core::ops::Mul::mul"):
        s.I.overrides[p] = mulf
    for p in ("std::ops::MulAssign::mul_assign", "core::ops::MulAssign::mul_assign"):
        s.I.overrides[p] = mulasg
    for p in ("num::One::one", "num_traits::One::one", "one"):
        s.I.overrides[p] = onef
    return mk_, val


def hypothesis(form, mk_, val, smaller, key, first):
    """a recursive function applied to powers: exponent given by form"""
    def c(I, st, b, env, args):
        es, n = [], []
        for v in args:
            e = val(I, st, v)
            if e is not None:
                es.append(e)
            elif isn(v) and T.sort(v) == "i":
                n.append(v)
            else:
                raise Unsupported("recursive function %s on other arguments" % b["path"])
        if len(n) != 1 or len(es) != (1 if form in FORMS1 else 2):
            raise Unsupported("recursive function %s on other arguments" % b["path"])
        if first[0]:
            first[0] = False
            first.append(n[0])
            return NotImplemented
        if len(first) > 1:
            smaller.append((band(*st.facts), n[0], first[1]))
        I.used_contracts.add(b["path"])
        return mk_(add(form[0](es), mul(form[1](es), n[0])))
    return c


FORMS1 = [(lambda es: ZERO, lambda es: es[0])]
FORMS2 = [(lambda es: es[0], lambda es: es[1]), (lambda es: es[1], lambda es: es[0])]


def run(cx):
    for lbl, ty, alg in (("dense multivectors", mvty("array"), None), ("sparse multivectors", mvty("sparse"), None),
                         ("quaternions", mvty("q", a=QAL), QALGD), ("fast representations", fty(), None)):
        with cx.clause("powers of %s" % lbl):
            one(cx, lbl, ty, alg)


def slots(v):
    n = [0]

    def go(x):
        if isinstance(x, (Arr, Mp)) or (isinstance(x, St) and x.kind == "arr"):
            n[0] += 1
            return St("pow-slot", [])
        if isn(x):
            return St("tup", ())
        if isinstance(x, St):
            return St(x.kind, [go(y) for y in x.f])
        return x
    r = go(v)
    if n[0] != 1:
        raise Unsupported("coefficient container not recognised")
    return r


def one(cx, lbl, ty, alg):
    top = 1 << (9 if cx.tier == "quick" else 12)
    # exponents by magnitude as well as consecutively
    n = SYM("n")
    vals_ = list(range(0, top)) + [(1 << 31) - 1, 1 << 31, (1 << 33) + 5, (1 << 40) - 3]
    ms = [{"syms": {"n": v, "e": e, "g": g, "m": 1, "s": 0, "h": 1}, "masks": {}, "dim": 1, "seed": "pow.%d.%d" % (v, e)}
          for v in vals_ for e, g in ((1, 0), (3, 2))]

    def setup():
        s = cx.sess(alg=alg) if alg else cx.sess()
        pa = alg_of(0) if ty == fty() else None
        z = s.zero_mv(ty) if ty != fty() else frepr(s, "f", pa)
        blank = slots(s.deep(z))
        mk_, val = install(cx, s, ty, blank)
        return s, mk_, val

    s, mk_, val = setup()
    t = s.method("pow", ty)
    rec = reachable_recursive(cx.prog, t[0])
    smaller = []
    chosen = {}
    for key in rec:
        if key == t[0]:
            continue
        forms = FORMS1 + FORMS2
        chosen[key] = prove_helper(cx, key, forms, setup, ms)
    if t[0] in rec:
        first = [True]
        s.I.contracts[t[0]] = hypothesis(FORMS1[0], mk_, val, smaller, t[0], first)
    for key, form in chosen.items():
        s.I.contracts[key] = hypothesis(form, mk_, val, [], key, [False])
    base = s.ref(mk_(ONE))
    r = s.deep(s.call(t, [base, n]))
    e = exponent(s, r, val)
    kw = dict(models=[m for m in ms if m["syms"]["e"] == 1], bounds={}, where=where(t))
    cx.equal("exponent of pow(x, n)", e, n, [], **kw)
    for c, m, n0 in smaller:
        cx.always("recursive call has a smaller exponent", T.bor(bnot(c), T.lt(m, n0)), [], **kw)
    cx.no_panics(s, models=kw["models"], bounds={})
    cx.equal("exponent of the base afterwards", exponent(s, s.I.read(s.st, base), val), ONE, [], **kw)


def exponent(s, r, val):
    if isinstance(r, VIte):
        return ite(r.c, exponent(s, s.deep(r.x), val), exponent(s, s.deep(r.y), val))
    e = val(s.I, s.st, r)
    if e is None:
        raise Unsupported("result of pow is not a power of its argument in the exponent domain")
    return e


def reachable_recursive(prog, key):
    rec = prog.recursive()
    seen, out, todo = set(), [], [key]
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        if k in rec and power_args(prog, k):
            out.append(k)
        todo.extend(prog.callgraph.get(k, ()))
    return out


def power_args(prog, key):
    """takes exactly one integer and otherwise references or values of algebra types"""
    b = prog.bodies[key]
    tys = [prog.ty(x) for x in argtypes(b)]
    n = 0
    for x in tys:
        while x[0] == "ref":
            x = x[1]
        if x[0] == "prim":
            n += 1
        elif not (x[0] == "adt" and x[1] in (MV, FFTR)):
            return False
    return n == 1 and len(tys) > 1


def argtypes(b):
    return [b["body"]["locals"][i]["ty"] if isinstance(b["body"]["locals"][i], dict) else b["body"]["locals"][i]
            for i in range(1, b["body"]["argc"] + 1)]


def prove_helper(cx, key, forms, setup, ms):
    b = cx.prog.bodies[key]
    argt = []
    for x in argtypes(b):
        x = cx.prog.ty(x)
        argt.append(x)
    last = None
    for form in forms:
        np_ = sum(1 for x in argt if x[0] != "prim")
        if np_ != (1 if form in FORMS1 else 2):
            continue
        s, mk_, val = setup()
        smaller, first = [], [True]
        s.I.contracts[key] = hypothesis(form, mk_, val, smaller, key, first)
        es = [SYM("e"), SYM("g")]
        args, used = [], []
        for x in argt:
            if x[0] == "prim":
                args.append(SYM("n"))
            else:
                v = mk_(es[len(used)])
                used.append(es[len(used)])
                args.append(s.ref(v) if x[0] == "ref" else v)
        gens = b["generics"]
        r = s.deep(s.call((key, b, {}), args, extra=[TS, ("alg", "A")][:len(gens)]))
        e = exponent(s, r, val)
        want = add(form[0](used), mul(form[1](used), SYM("n")))
        from .. import evalm
        f = evalm.compile_term([e, want], [])
        bad = None
        for m in ms:
            M = cx.mk_model(m, {}, (), None)
            x, y = f(M)
            if x != y:
                bad = m
                break
        if bad is None:
            kw = dict(models=ms, bounds={}, where="%s" % b["path"])
            cx.equal("summary of the helper %s" % b["path"], e, want, [], **kw)
            for c, m, n0 in smaller:
                cx.always("recursive call has a smaller exponent", T.bor(bnot(c), T.lt(m, n0)), [], **kw)
            return form
    raise Unsupported("recursive helper %s: no summary established" % b["path"])
