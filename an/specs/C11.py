"""C11: grade selection and filters."""
from .common import *
from ..evalm import hsh

EXPLAIN = ("the coefficients kept by every grade selection and filter are derived from the MIR for an arbitrary grade, "
           "grade list or predicate (the predicate stays an uninterpreted function of index and value) and compared "
           "with the selection rule; grade_index_iter is analysed as a transition system")
RULE = "result[k] = a[k] if selected(k) else 0, all storages; enumeration yields each selected non-zero blade once"
FLOOR = 15


def grades(alg, cx, d=6):
    return with_len(small(cx, alg, d), "g", lambda m: list(range(0, m["dim"] + 2)) + [256, (1 << 32) + 1, (1 << 63) + 1])


def run(cx):
    from . import gradeiter
    gradeiter.run(cx)
    g = T.SYM("g")
    for kind, lbl, new, ty in each(cx):
        with cx.clause("grade_extract, %s" % lbl):
            s = new()
            alg = algof(s, kind)
            t = s.method("grade_extract", ty())
            a = s.ref(s.mv("a", ty(), alg["dim"]))
            r = s.call(t, [a, g])
            k = kvar(alg)
            ms = grades(alg, cx)
            cx.equal("grade_extract(a, g)[k]", s.content(r, k), rite(eq(pc(k), g), rd("a", k), R0), [k], models=ms,
                     where=where(t))
            same(cx, s, a, "a", alg, "operand")
            cx.no_panics(s, models=[m for m in ms if m["dim"] <= 4])
        for out in ("array", "sparse"):
            with cx.clause("grade_extract_as %s, %s" % (out, lbl)):
                s = new()
                alg = algof(s, kind)
                t = s.method("grade_extract_as", ty())
                r = s.call(t, [s.ref(s.mv("a", ty(), alg["dim"])), g], extra=[mvty(out, TS)[2][2]])
                k = kvar(alg)
                ms = grades(alg, cx)
                cx.equal("grade_extract_as(a, g)[k]", s.content(r, k), rite(eq(pc(k), g), rd("a", k), R0), [k],
                         models=ms, where=where(t))
                cx.no_panics(s, models=[m for m in ms if m["dim"] <= 4])
        with cx.clause("grade_enumerate, %s" % lbl):
            s = new()
            alg = algof(s, kind)
            t = s.method("grade_enumerate", ty())
            r = s.call(t, [s.ref(s.mv("a", ty(), alg["dim"])), g])
            x = VAR("x", add(alg["dim"], ONE))
            ms = grades(alg, cx)
            mult, val = enum_forms(s, r, x)
            sel = band(lt(x, p2(alg["dim"])), eq(pc(x), g))
            cx.always("only blades of grade g, none twice", lt(mult, ite(sel, INT(2), ONE)), [x], models=ms,
                      where=where(t))
            cx.always("every non-zero blade of grade g", bor(isz(rd("a", x)), bnot(sel), eq(mult, ONE)), [x],
                      models=ms, where=where(t))
            cx.equal("enumerated value of blade x", val, rite(sel, rd("a", x), R0), [x], models=ms, where=where(t))
    G = T.SYM("G")
    gl = lambda j: T.ifn("gr", j)
    def gr(M, j):
        """list entries: grades that occur, grades beyond the dimension, grades beyond one and four bytes"""
        h = hsh(M.seed, "gr", j) % (M.syms["m"] + M.syms["s"] + 5)
        return h if h < M.syms["m"] + M.syms["s"] + 2 else (64, 257, (1 << 32) + 1)[h - M.syms["m"] - M.syms["s"] - 2]
    fgr = {"gr": gr}
    listed = lambda k: T.mk("ex", (jb,), eq(gl(jb), pc(k)))
    jb = NVAR(T.fresh("j"), G)
    for name in ("grades_extract", "retain_grades"):
        with cx.clause("%s, sparse storage" % name):
            s = cx.sess()
            alg = s.alg
            ty = mvty("sparse")
            t = s.method(name, ty)
            a = s.ref(s.mv("a", ty))
            j = freshk()
            lst = s.ref(Arr((G,), (j,), gl(j), "vec"))
            r = s.call(t, [a, lst])
            k = kvar(alg)
            ms = with_len(small(cx, alg, 5), "G", lambda m: (0, 1, 2, 4))
            cx.equal("%s(a, list)[k]" % name, s.content(a if name == "retain_grades" else r, k),
                     rite(listed(k), rd("a", k), R0), [k], models=ms, funs=fgr, where=where(t))
            if name == "grades_extract":
                cx.equal("operand afterwards", s.content(a, k), rd("a", k), [k], models=ms, funs=fgr, where=where(t))
            cx.no_panics(s, models=[m for m in ms if m["dim"] <= 4], funs=fgr)
    pred = Opq("pred", "keep")
    keep = lambda k: T.mk("ba", "keep", k, rd("a", k))
    for name, kind in (("filter", "array"), ("filtered", "sparse"), ("filter_inplace", "sparse")):
        with cx.clause("%s, %s storage" % (name, "dense" if kind == "array" else "sparse")):
            s = cx.sess()
            alg = s.alg
            ty = mvty(kind)
            t = s.method(name, ty)
            a = s.mv("a", ty)
            if name != "filtered":
                a = s.ref(a)
            r = s.call(t, [a, pred])
            k = kvar(alg)
            cx.equal("%s(a, keep)[k]" % name, s.content(a if name == "filter_inplace" else r, k),
                     rite(keep(k), rd("a", k), R0), [k], where=where(t))
            if name == "filter":
                cx.equal("operand afterwards", s.content(a, k), rd("a", k), [k], where=where(t))
            cx.no_panics(s)
