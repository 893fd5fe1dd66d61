"""grade_index_iter as a transition system.

A GradeIter (weight, pos, subiter) stands for the sequence of all numbers below 2^(pos+1) with `weight` bits set,
highest position first.  One step of next() and refresh() is derived with the nested calls replaced by their own
meaning and compared with the step the sequence requires."""
from .common import *
from ..session import Missing
from ..interp import Diverge

WEIGHTS = tuple(range(9)) + (256, 257, 1 << 32, (1 << 32) + 1, (1 << 63) + 1)
FIELDS = ("weight", "pos", "subiter")


def gi(prog):
    for p, a in prog.adts.items():
        if p.split("::")[-1] == "GradeIter":
            return a["path"], p, [f[0] for f in a["variants"][0][1]]
    raise Unsupported("iterator over the indices of a grade is not GradeIter")


class G:
    def __init__(self, s):
        self.kind, self.key, self.names = gi(s.p)
        if sorted(self.names) != sorted(FIELDS):
            raise Unsupported("fields of GradeIter: %s" % self.names)

    def mk(self, **f):
        return St(self.kind, [f[n] for n in self.names])

    def get(self, v, n):
        return v.f[self.names.index(n)]

    def put(self, v, **f):
        return St(v.kind, [f.get(n, x) for n, x in zip(self.names, v.f)])


def unbox(s, v):
    v = s.deep(v)
    while isinstance(v, St) and not v.kind.endswith("GradeIter") and len(v.f) == 1:
        v = v.f[0]
    return v


def inmost(I, st, r):
    while True:
        v = I.read(st, r)
        if not isinstance(v, Ref):
            return r
        r = v


def run(cx):
    with cx.clause("grade_index_iter(g) starts the enumeration of the dim-bit numbers of weight g"):
        s = cx.sess()
        g = G(s)
        t = s.method("grade_index_iter", AL, "algebra::ClAlgebra")
        v = s.deep(s.call(t, [T.SYM("g")]))
        if not isinstance(v, St) or v.kind != g.kind:
            raise Unsupported("grade_index_iter returns %s" % v.kind)
        ms = with_len(cx.models(None), "g", lambda m: (0, 1, 2, m["dim"] + 1))
        cx.equal("number of bits", add(g.get(v, "pos"), ONE), s.alg["dim"], models=ms, where=where(t))
        cx.equal("weight", g.get(v, "weight"), T.SYM("g"), models=ms, where=where(t))
        sub_ = g.get(v, "subiter")
        cx.always("no nested state", eq(sub_.d, ZERO), models=ms, where=where(t))
        cx.no_panics(s, models=ms)
    L, W = T.SYM("L"), T.SYM("W")
    # invariant of reachable states: pos >= -1 or the exhausted marker; nested state only when weight > 0
    # u, v: whether the nested enumeration and the continuation yield a number; x, y: the numbers they yield
    ms = []
    for l in list(range(0, 10)) + [16, 17, 31, 32, 33, 34, 48, 60]:
        for w in WEIGHTS if l < 10 else (0, 1, 2, 5, l - 1, l, l + 1):
            for q in range(0, max(l, 1)) if l < 10 else (0, l // 2, l - 1):
                i = len(ms)
                top = max((1 << max(l - 1, 0)) - 1, 0)
                for u, v in ((1, i & 1), (0, 1)) if i % 3 else ((1, 0), (0, 0)):
                    ms.append({"syms": {"L": l, "W": w, "q": q, "m": 1, "s": 0, "u": u, "v": v,
                                        "x": (0x5a5a5a5a5a5a5a5 + i * 77) & top, "y": (0x369c369c369c36 + i * 31) & top},
                               "masks": {}, "dim": 1, "seed": "gi%d.%d.%d.%d.%d" % (l, w, q, u, v)})
    for nested in (False, True):
        with cx.clause("GradeIter::next, %s" % ("inside a block of equal highest bit" if nested else "first step")):
            s = cx.sess()
            g = G(s)
            it = ("adt", g.key, ())
            t = s.method("next", it, "std::iter::Iterator")
            tr = s.method("refresh", it)
            q = T.SYM("q")
            inner = g.mk(weight=sub(W, ONE), pos=sub(q, ONE), subiter=NONE)
            me = s.ref(g.mk(weight=W, pos=sub(L, ONE), subiter=some(inner) if nested else NONE))
            calls = []
            subsome, restsome = eq(T.SYM("u"), ONE), eq(T.SYM("v"), ONE)
            first = [True]

            def nx(I, st, b, env, args):
                if first[0]:
                    first[0] = False
                    return NotImplemented
                v = I.deep(st, args[0])
                if not (isinstance(v, St) and v.kind == g.kind):
                    raise Unsupported("receiver of the nested call %s %s" % (v.kind if isinstance(v, St) else type(v), g.kind))
                top = len(calls) and calls[-1][0] == "refresh"
                calls.append(("rest" if top else "sub", v, list(st.facts), args[0]))
                if top:
                    return En(OPT, ite(restsome, ONE, ZERO), {1: [T.SYM("y")]})
                return En(OPT, ite(subsome, ONE, ZERO), {1: [T.SYM("x")]})

            def rf_(I, st, b, env, args):
                v = I.deep(st, args[0])
                calls.append(("refresh", v, list(st.facts), args[1]))
                I.write(st, inmost(I, st, args[0]), g.put(v, pos=sub(args[1], ONE)))
                return tup()
            s.I.contracts[t[0]] = nx
            s.I.overrides["std::iter::Iterator::next"] = lambda I, st, f, targs, args: nx(I, st, None, None, args)
            s.I.contracts[tr[0]] = rf_
            r = s.deep(s.call(t, [me]))
            rel = band(*([le(T.mul(q, ONE), sub(L, ONE)), lt(ZERO, W)] if nested else [TRUE]))
            pre = band(rel, bnot(lt(L, W))) if nested else rel
            live = bnot(lt(L, W))
            want_some = band(live, bor(eq(W, ZERO), subsome, restsome))
            got_some = eq(r.d, ONE)
            kw = dict(models=ms, where=where(t), cond=pre)
            cx.equal("yields a number", ite(got_some, ONE, ZERO), ite(want_some, ONE, ZERO), **kw)
            val = r.p[1][0] if 1 in r.p else ZERO
            kw2 = dict(kw, cond=band(pre, want_some))
            cx.equal("the number", val, ite(eq(W, ZERO), ZERO, ite(subsome, or_(p2(sub(L, ONE)), T.SYM("x")),
                                                                  T.SYM("y"))), **kw2)
            end = s.deep(me)
            pos = g.get(end, "pos")
            cx.equal("weight afterwards", g.get(end, "weight"), W, **kw)
            cx.equal("exhausted after the only number of weight 0",
                     ite(bor(bnot(live), bnot(eq(W, ZERO)), lt(add(pos, ONE), ZERO)), ONE, ZERO), ONE, **kw)
            cx.equal("position afterwards", pos, ite(subsome, sub(L, ONE), sub(L, INT(2))),
                     **dict(kw, cond=band(pre, live, lt(ZERO, W))))
            kinds = [c[0] for c in calls]
            if kinds != ["sub", "refresh", "rest"]:
                raise Unsupported("shape of GradeIter::next: %s" % kinds)
            v = unbox(s, calls[0][1])
            inn = dict(kw, cond=band(pre, live, lt(ZERO, W)))
            cx.equal("weight of the nested enumeration", g.get(v, "weight"), sub(W, ONE), **inn)
            cx.equal("width of the nested enumeration", add(g.get(v, "pos"), ONE), q if nested else sub(L, ONE), **inn)
            cx.equal("refreshed width", calls[1][3], sub(L, INT(2)), **dict(inn, cond=band(inn["cond"],
                                                                                           bnot(subsome))))
            v = calls[2][1]
            if not (isinstance(v, St) and v.kind == g.kind):
                raise Unsupported("continuation of GradeIter::next")
            rest = dict(inn, cond=band(inn["cond"], bnot(subsome)))
            cx.equal("position of the continuation", g.get(v, "pos"), sub(L, INT(2)), **rest)
            sb = g.get(v, "subiter")
            if not isinstance(sb, En) or 1 not in sb.p:
                raise Unsupported("nested state of the continuation")
            cx.equal("continuation keeps the refreshed nested enumeration",
                     add(g.get(unbox(s, sb.p[1][0]), "pos"), ONE), sub(L, INT(2)), **rest)
    for nested in (False, True):
        with cx.clause("GradeIter::refresh, %s" % ("with nested state" if nested else "without nested state")):
            s = cx.sess()
            g = G(s)
            tr = s.method("refresh", ("adt", g.key, ()))
            inner = g.mk(weight=sub(W, ONE), pos=T.SYM("q"), subiter=NONE)
            me = s.ref(g.mk(weight=W, pos=T.SYM("q"), subiter=some(inner) if nested else NONE))
            first = [True]
            calls = []

            def rf_(I, st, b, env, args):
                if first[0]:
                    first[0] = False
                    return NotImplemented
                v = I.deep(st, args[0])
                calls.append(args[1])
                I.write(st, inmost(I, st, args[0]), g.put(v, pos=sub(args[1], ONE)))
                return tup()
            s.I.contracts[tr[0]] = rf_
            s.call(tr, [me, L])
            end = s.deep(me)
            cx.equal("width afterwards", add(g.get(end, "pos"), ONE), L, models=ms, where=where(tr))
            cx.equal("weight afterwards", g.get(end, "weight"), W, models=ms, where=where(tr))
            if nested:
                sb = g.get(end, "subiter")
                cx.always("nested state kept", eq(sb.d, ONE), models=ms, where=where(tr))
                if 1 in sb.p:
                    cx.equal("width of the nested enumeration", add(g.get(unbox(s, sb.p[1][0]), "pos"), ONE),
                             sub(L, ONE), models=ms, where=where(tr))
            else:
                if calls:
                    raise Unsupported("shape of GradeIter::refresh")
