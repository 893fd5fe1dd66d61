"""C08: coefficient access."""
from .common import *

EXPLAIN = ("reading, writing and enumerating coefficients is derived from the MIR of every storage for an arbitrary "
           "index (inside or outside the algebra) and compared with a total map that is zero outside the algebra")
RULE = ("default reads 0; get(x) = a[x] inside, 0 outside, no panic; set(x,v) changes exactly x and nothing when "
        "outside; enumeration yields each non-zero blade exactly once with its value and no index twice")
FLOOR = 20


def run(cx):
    for kind, lbl, new, ty in each(cx):
        def pre():
            s = new()
            alg = algof(s, kind)
            return s, alg, kvar(alg), VAR("x", add(alg["dim"], ONE)), models_of(cx, alg)
        for nm, tr in (("default", "std::default::Default"), ("zero", "num::Zero")):
            with cx.clause("%s reads zero, %s" % (nm, lbl)):
                s, alg, k, x, ms = pre()
                t = s.method(nm, ty(), tr)
                z = s.call(t, [])
                cx.equal("%s()[k]" % nm, s.content(z, k), R0, [k], models=ms, where=where(t))
                g = s.method("get_by_idx", ty())
                r = s.deep(s.call(g, [s.ref(z), x]))
                cx.equal("get_by_idx(%s(), x)" % nm, r, R0, [x], models=ms, where=where(g))
        with cx.clause("get_by_idx, %s" % lbl):
            s, alg, k, x, ms = pre()
            t = s.method("get_by_idx", ty())
            a = s.ref(s.mv("a", ty(), alg["dim"]))
            r = s.deep(s.call(t, [a, x]))
            inside = lt(x, p2(alg["dim"]))
            cx.equal("get_by_idx(a, x)", r, rite(inside, rd("a", x), R0), [x], models=ms, where=where(t), nc=True)
            same(cx, s, a, "a", alg, "multivector", where=where(t))
            cx.no_panics(s, models=ms)
        with cx.clause("get_by_idx far outside, %s" % lbl):
            s, alg, k, x, ms = pre()
            t = s.method("get_by_idx", ty())
            h = VAR("h", INT(8))
            far = add(p2(add(alg["dim"], ONE)), h)
            r = s.deep(s.call(t, [s.ref(s.mv("a", ty(), alg["dim"])), far]))
            cx.equal("get_by_idx(a, far outside)", r, R0, [h], models=ms, where=where(t))
            cx.no_panics(s, models=ms)
        with cx.clause("set_by_idx, %s" % lbl):
            s, alg, k, x, ms = pre()
            t = s.method("set_by_idx", ty())
            v = rd("v")
            r = s.call(t, [s.mv("a", ty(), alg["dim"]), x, v])
            cx.equal("set_by_idx(a, x, v)[k]", s.content(r, k), rite(eq(k, x), v, rd("a", k)), [k, x], models=ms,
                     where=where(t), nc=True)
            cx.no_panics(s, models=ms)
        with cx.clause("set then get, %s" % lbl):
            s, alg, k, x, ms = pre()
            t, g = s.method("set_by_idx", ty()), s.method("get_by_idx", ty())
            v = rd("v")
            r = s.call(t, [s.mv("a", ty(), alg["dim"]), x, v])
            y = VAR("y", add(alg["dim"], ONE))
            got = s.deep(s.call(g, [s.ref(r), y]))
            inside = lt(y, p2(alg["dim"]))
            cx.equal("get_by_idx(set_by_idx(a, x, v), y)", got, rite(inside, rite(eq(x, y), v, rd("a", y)), R0), [x, y],
                     models=ms, where=where(g), nc=True)
        with cx.clause("set to zero and overwrite, %s" % lbl):
            s, alg, k, x, ms = pre()
            t = s.method("set_by_idx", ty())
            v = rd("v")
            r = s.call(t, [s.call(t, [s.mv("a", ty(), alg["dim"]), x, R0]), x, v])
            cx.equal("set_by_idx(set_by_idx(a, x, 0), x, v)[k]", s.content(r, k), rite(eq(k, x), v, rd("a", k)), [k, x],
                     models=ms, where=where(t), nc=True)
        for level in ("multivector", "storage"):
            with cx.clause("coeff_enumerate of the %s, %s" % (level, lbl)):
                s, alg, k, x, ms = pre()
                a = s.mv("a", ty(), alg["dim"])
                if level == "multivector":
                    t = s.method("coeff_enumerate", ty())
                    r = s.call(t, [s.ref(a)])
                else:
                    t = s.method("coeff_enumerate", ty()[2][2], "coeff_storage::CoeffStorage", [TS])
                    r = s.call(t, [s.ref(storage_of(a))])
                mult, val = enum_forms(s, r, x)
                inside = lt(x, p2(alg["dim"]))
                cx.always("no index is enumerated twice or outside the algebra",
                          lt(mult, ite(inside, INT(2), ONE)), [x], models=ms, where=where(t))
                cx.always("non-zero coefficients are enumerated", bor(isz(rd("a", x)), bnot(inside), eq(mult, ONE)),
                          [x], models=ms, where=where(t))
                cx.equal("enumerated value of blade x", val, rite(inside, rd("a", x), R0), [x], models=ms,
                         where=where(t), nc=True)
                cx.no_panics(s, models=ms)
        with cx.clause("coeff_enumerate_mut, %s" % lbl):
            s, alg, k, x, ms = pre()
            a = s.ref(storage_of(s.mv("a", ty(), alg["dim"])))
            t = s.method("coeff_enumerate_mut", ty()[2][2], "coeff_storage::CoeffStorage", [TS])
            r = s.call(t, [a])
            mult, val = enum_forms(s, r, x)
            inside = lt(x, p2(alg["dim"]))
            cx.always("no index is enumerated twice or outside the algebra", lt(mult, ite(inside, INT(2), ONE)), [x],
                      models=ms, where=where(t))
            cx.always("non-zero coefficients are enumerated", bor(isz(rd("a", x)), bnot(inside), eq(mult, ONE)), [x],
                      models=ms, where=where(t))
            cx.equal("enumerated value of blade x", val, rite(inside, rd("a", x), R0), [x], models=ms, where=where(t))
            from .. import models as M

            def step(st, it):
                ix = s.I.deep(st, it.f[0])
                if isinstance(ix, St):
                    ix = ix.f[0]
                s.I.write(st, it.f[1], rd("w", ix))
            M.consume(s.I, s.st, M.as_iter(s.I, s.st, r), step)
            ak = rd("a", k)
            cx.equal("coefficient k after writing w[index] through every item", s.content(a, k),
                     rite(isz(ak), s.content(a, k), rd("w", k)), [k], models=ms,
                     bounds={n: (lambda md: 1 << md["dim"],) for n in "aw"}, where=where(t))
            cx.equal("zero coefficients are left zero or overwritten consistently",
                     rite(isz(ak), rmul(s.content(a, k), rsub(s.content(a, k), rd("w", k))), R0), R0, [k], models=ms,
                     bounds={n: (lambda md: 1 << md["dim"],) for n in "aw"}, where=where(t))


def storage_of(a):
    for x in a.f:
        if isinstance(x, (Arr, Mp)) or (isinstance(x, St) and x.f):
            return x
    raise Unsupported("multivector without storage")
