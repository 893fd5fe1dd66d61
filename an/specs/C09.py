"""C09: sparse multivectors store no zeros."""
from .common import *
from .catalog import mvops, models_for

EXPLAIN = ("effect analysis of every store into the coefficient map that a public operation producing or updating a "
           "sparse multivector can reach: the guards dominating the store must imply that the stored value is "
           "non-zero, or the entry must be removed again before the operation returns; coeff_count is compared with "
           "the number of non-zero coefficients")
RULE = "at every map store reached from a public operation: value != 0 under the dominating guards, else not kept"
FLOOR = 40


def suspicious(s):
    """store events whose value may be zero, in program order, forgotten when a later step removes zeros"""
    out = []
    n = 0
    for e in s.I.events:
        if e["ev"] == "mapstore":
            n += 1
            if e["zero"] is None:
                raise Unsupported("value stored into the coefficient map is not a scalar")
            if e["zero"] is not FALSE and not nonzero(e["val"], e["facts"]):
                out.append(e)
        elif e["ev"] == "mapclean":
            out = []
    return n, out


def nonzero(v, facts):
    """a value built from non-zero factors by multiplication with units and division"""
    if bnot(isz(v)) in facts:
        return True
    if v.op == "rmul":
        return all(nonzero(x, facts) or x.op == "rinv" or (x.op == "rc" and x.a != (0, 0)) for x in v.a[0])
    return False


def run(cx):
    total = [0]
    for kind in ("sparse", "array"):
        ty = lambda t=TS, kind=kind: mvty(kind, t)
        for o in mvops(cx, kind, ty):
            out = o.out or kind
            if out != "sparse":
                continue
            with cx.clause("%s%s" % (o.label, "" if kind == "sparse" else ", from dense storage")):
                s = cx.sess()
                r = o.run(s)
                n, bad = suspicious(s)
                total[0] += n
                cx.cur["stores"] = n
                if r is None or not bad:
                    continue
                decide(cx, o, s, bad)
    with cx.clause("stores analysed"):
        cx.notes.append("%d map stores reached" % total[0])
        if total[0] < 40:
            raise Unsupported("only %d map stores reached" % total[0])
    idx, x = T.SYM("idx"), rd("x")
    for o in mvops(cx, "sparse", lambda t=TS: mvty("sparse", t)):
        w = {"set_by_idx": lambda k: rite(eq(k, idx), x, rd("a", k)),
             "storage set_by_idx": lambda k: rite(eq(k, idx), x, rd("a", k)),
             "add ref-ref": lambda k: radd(rd("a", k), rd("b", k)),
             "sub ref-ref": lambda k: rsub(rd("a", k), rd("b", k))}.get(o.label)
        if w is None:
            continue
        with cx.clause("%s removes exactly the cancelled entries" % o.label):
            s = cx.sess()
            r = o.run(s)
            k = kvar(s.alg)
            cx.equal("entry of blade k after %s" % o.label, s.content(r, k), w(k), [k], models=models_for(cx, o, s.alg),
                     where=where(o.target(s)), **o.kw())
    with cx.clause("coeff_count"):
        s = cx.sess()
        t = s.method("coeff_count", mvty("sparse"))
        a = s.ref(s.mv("a", mvty("sparse")))
        r = s.call(t, [a])
        j = fresh_var(s.alg)
        cx.equal("coeff_count(a)", r, T.isum((j,), bnot(isz(rd("a", j))), ONE), where=where(t),
                 models=small(cx, s.alg, 6))
        same(cx, s, a, "a", s.alg, "operand")
    with cx.clause("coeff_enumerate yields the stored coefficients"):
        s = cx.sess()
        t = s.method("coeff_enumerate", mvty("sparse"))
        r = s.call(t, [s.ref(s.mv("a", mvty("sparse")))])
        x = VAR("x", add(s.alg["dim"], ONE))
        mult, val = enum_forms(s, r, x)
        stored = bnot(isz(rd("a", x)))
        cx.equal("how often blade x is enumerated", mult, ite(stored, ONE, ZERO), [x], where=where(t),
                 models=small(cx, s.alg, 6))
        cx.equal("enumerated value of blade x", val, rd("a", x), [x], where=where(t), models=small(cx, s.alg, 6))


def decide(cx, o, s, bad):
    """a store that may be of zero: does the entry survive into the result?"""
    e = bad[0]
    site = "%s (%s)" % (e["fn"], e["span"])
    try:
        s2 = cx.sess(conf={"mark_zero": True})
        r = o.run(s2)
        alg = s2.alg
        k = kvar(alg)
        got = s2.content(r, k)
    except Unsupported as ex:
        cx.violate("zero-kept", "%s stores a coefficient without establishing that it is non-zero and nothing removes "
                   "it afterwards (%s)" % (o.label, e["how"]), where=site,
                   detail={"value": T.show(e["val"])[:400], "note": str(ex)})
        return
    cx.always("%s: entry of blade k is kept only when non-zero (store %s)" % (o.label, e["how"]),
              bnot(T.mk("ba", "kept0", got)), [k],
              models=models_for(cx, o, alg), where=site, cond=o.pre, zero="small", **o.kw())
