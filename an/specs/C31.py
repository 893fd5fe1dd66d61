"""C31: comparisons and copies of fast representations."""
from .fftcommon import *
from .common import fresh_var

EXPLAIN = ("the truth value of ==, !=, is_zero and approx_eq on fast representations is derived from the MIR as a closed "
           "condition over all entries of both operands, for an arbitrary signature, and compared with the entrywise "
           "definition on unrelated, equal, nearly equal and partly zero operands; clone, view and shape are compared "
           "entry by entry")
RULE = ("f == g iff f[w,i,j] == g[w,i,j] for all entries; is_zero(f) iff all entries are 0; approx_eq(f,g,p) iff "
        "|f[w,i,j]-g[w,i,j]| < p for all entries; clone and view have the same entries")
FLOOR = 10
BOUNDS = ("condition over all entries for any signature; compared on signatures up to 4 generators (up to 3 null)")
BEYOND = ("tests never compare representations that differ in one entry, in a null slice, in the imaginary part, or by exactly the precision")


def run(cx):
    F = fty()
    p = rd("prec")
    for par, pl in PAR:
        alg = alg_of(par)
        ms = [m for m in fmodels(cx, par) if m["dim"] <= 4]
        bd = fbounds(par)

        def ixs():
            return [VAR(T.fresh("q"), v.a[1]) for v in ix3(alg)]

        def every(c):
            q = ixs()
            return bnot(T.mk("ex", tuple(q), bnot(c(*q))))
        same = lambda *q: T.req(rd("f", *q), rd("g", *q))
        near = lambda *q: T.lt(rf("norm", rsub(rd("f", *q), rd("g", *q))), p)
        for nm, tr, want in (("eq", "std::cmp::PartialEq", every(same)), ("ne", "std::cmp::PartialEq", bnot(every(same))),
                             ("approx_eq", None, every(near)),
                             ("is_zero", "num::Zero", every(lambda *q: isz(rd("f", *q))))):
            with cx.clause("%s, %s non-null dimension" % (nm, pl)):
                s = cx.sess(alg=alg)
                try:
                    t = s.method(nm, F, tr)
                except Missing:
                    if nm == "ne":          # the provided method
                        continue
                    raise
                f, g = s.ref(frepr(s, "f", alg)), s.ref(frepr(s, "g", alg))
                args = [f] if nm == "is_zero" else [f, g]
                r = s.call(t, args + ([p] if nm == "approx_eq" else []))
                related(cx, nm, r, want, alg, dict(models=ms, bounds=bd, where=where(t)), p if nm == "approx_eq" else None)
                ix = ix3(alg)
                for v, n in ((f, "f"), (g, "g")):
                    cx.equal("operand %s afterwards" % n, entry(s, v, ix), rd(n, *ix), ix, models=ms, bounds=bd,
                             where=where(t))
                cx.no_panics(s, models=ms, bounds=bd)
        for nm, tr in (("clone", "std::clone::Clone"), ("view", None)):
            with cx.clause("%s, %s non-null dimension" % (nm, pl)):
                s = cx.sess(alg=alg)
                t = s.method(nm, F, tr)
                r = s.call(t, [s.ref(frepr(s, "f", alg))])
                if nm == "view":
                    from .. import models
                    v = models.view(s.I, s.st, r)
                    a = Arr(v.shape, v.vs, s.I.read(s.st, v.at(v.vs)), "nd")
                else:
                    a = arr_of(s, r)
                ix = ix3(alg)
                kw = dict(models=ms, bounds=bd, where=where(t))
                for n, (x, y) in enumerate(zip(a.shape, shape_of(alg))):
                    cx.equal("%s: length of axis %d" % (nm, n), x, y, [], **kw)
                cx.equal("%s(f)[w,i,j]" % nm, a.at(tuple(ix)), rd("f", *ix), ix, **kw)
                cx.no_panics(s, models=ms, bounds=bd)


def related(cx, what, got, want, alg, kw, prec):
    g, w = ite(got, ONE, ZERO), ite(want, ONE, ZERO)
    if prec is not None:                # precisions are positive
        g, w = ite(isz(prec), ZERO, g), ite(isz(prec), ZERO, w)
    cx.equal("%s, unrelated operands" % what, g, w, [], **kw)
    d = [VAR("dw", alg["s"]), VAR("di", alg["H"]), VAR("dj", alg["H"])]
    at = lambda ix: band(*[eq(x, y) for x, y in zip(ix, d)])
    if what == "is_zero":
        fam = [("zero operand", "f", lambda *ix: R0, []),
               ("operand zero except for one entry", "f", lambda *ix: rite(at(ix), rd("f", *ix), R0), d),
               ("operand zero except for one real entry", "f",
                lambda *ix: rite(at(ix), radd(rd("f", *ix), rf("conj", rd("f", *ix))), R0), d),
               ("operand zero except for one imaginary entry", "f",
                lambda *ix: rite(at(ix), rsub(rd("f", *ix), rf("conj", rd("f", *ix))), R0), d)]
    else:
        fam = [("equal operands", "g", lambda *ix: rd("f", *ix), []),
               ("operands that differ in one entry", "g", lambda *ix: rite(at(ix), rd("g", *ix), rd("f", *ix)), d),
               ("right operand zero except for one entry", "g", lambda *ix: rite(at(ix), rd("g", *ix), R0), d),
               ("left operand zero except for one entry", "f", lambda *ix: rite(at(ix), rd("f", *ix), R0), d),
               ("opposite operands", "g", lambda *ix: rneg(rd("f", *ix)), []),
               ("one entry differs by a real number", "g",
                lambda *ix: rite(at(ix), radd(rd("f", *ix), rd("g", *ix), rf("conj", rd("g", *ix))), rd("f", *ix)), d),
               ("one entry differs by an imaginary number", "g",
                lambda *ix: rite(at(ix), radd(rd("f", *ix), rsub(rd("g", *ix), rf("conj", rd("g", *ix)))), rd("f", *ix)),
                d)]
    for nm, arr, fn, free in fam:
        rp = lambda t: T.replace_reads(t, lambda n: fn(*n.a[1]) if n.a[0] == arr else None)
        cx.equal("%s, %s" % (what, nm), rp(g), rp(w), free, **kw)
        if prec is not None and len(free) == 3:
            # the largest difference equals the precision
            off = rf("norm", rsub(rd("f", *d), rd("g", *d)))
            eqp = lambda t: rp(T.replace_reads(t, lambda n: off if n.a[0] == "prec" else None))
            cx.equal("%s, %s, by the precision" % (what, nm), eqp(g), eqp(w), free, **kw)
