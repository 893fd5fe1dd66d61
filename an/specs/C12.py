"""C12: storage conversions and complexification."""
from .common import *

EXPLAIN = ("the coefficients produced by the storage conversions, by complexify and by decomplexify are derived from "
           "the MIR for every storage pair, an arbitrary signature and each supported coefficient type, and compared "
           "with the stated factors; the scalar conversions are resolved to their impls")
RULE = ("to_storage_type/to_sparse/to_dense: a[k] -> a[k]; complexify: a[k] -> (-i)^{|k & imag|} a[k]; "
        "decomplexify: c[k] -> i^{|k & imag|} c[k], real part for real types; complexify then decomplexify: identity")
FLOOR = 20



def cpx(a=AL):
    return ("adt", CPX, (a,))


def run(cx):
    for kind, lbl, new, ty in each(cx):
        outs = ("array", "sparse") + (("q",) if kind == "q" else ())
        for out in outs:
            names = ["to_storage_type"]
            if (kind, out) == ("array", "sparse"):
                names.append("to_sparse")
            if (kind, out) == ("sparse", "array"):
                names.append("to_dense")
            for nm in names:
                with cx.clause("%s into %s, %s" % (nm, out, lbl)):
                    s = new()
                    alg = algof(s, kind)
                    t = s.method(nm, ty())
                    a = s.ref(s.mv("a", ty(), alg["dim"]))
                    r = s.call(t, [a], extra=[storage(out)] if nm == "to_storage_type" else [])
                    k = kvar(alg)
                    cx.equal("%s(a)[k]" % nm, s.content(r, k), rd("a", k), [k], models=models_of(cx, alg),
                             where=where(t))
                    same(cx, s, a, "a", alg, "operand")
                    cx.no_panics(s, models=models_of(cx, alg))
    for tl, ct in (("f64", F64), ("f32", F32), ("Complex64", CX64), ("Complex32", CX32)):
        real = ("a",) if ct[0] == "prim" else ()
        for kind, out in (("array", "array"), ("sparse", "array"), ("array", "sparse"), ("sparse", "sparse")):
            with cx.clause("complexify %s, %s to %s" % (tl, kind, out)):
                s = cx.sess()
                ty = mvty(kind, ct)
                t = s.method("complexify", ty)
                a = s.ref(s.mv("a", ty))
                r = s.call(t, [a], extra=[storage(out, CX64)])
                k = kvar(s.alg)
                cx.equal("complexify(a)[k]", s.content(r, k), rmul(ipow(scale(pc(and_(k, s.alg["imag_mask"])), -1)),
                                                                   rd("a", k)), [k], real=real, where=where(t))
                same(cx, s, a, "a", s.alg, "operand", real=real)
                cx.no_panics(s)
            with cx.clause("decomplexify to %s, %s to %s" % (tl, kind, out)):
                s = cx.sess()
                ty = mvty(kind, CX64, cpx())
                t = s.method("decomplexify", ty)
                a = s.ref(s.mv("a", ty))
                r = s.call(t, [a], extra=[ct, storage(out, ct)])
                k = kvar(s.alg)
                w = rmul(ipow(pc(and_(k, s.alg["imag_mask"]))), rd("a", k))
                if real:
                    w = rf("re", w)
                cx.equal("decomplexify(a)[k]", s.content(r, k), w, [k], where=where(t))
                cx.no_panics(s)
        with cx.clause("decomplexify after complexify, %s" % tl):
            s = cx.sess()
            ty = mvty("array", ct)
            a = s.ref(s.mv("a", ty))
            r = s.call(s.method("complexify", ty), [a], extra=[storage("array", CX64)])
            t = s.method("decomplexify", mvty("array", CX64, cpx()))
            r = s.call(t, [s.ref(r)], extra=[ct, storage("array", ct)])
            k = kvar(s.alg)
            cx.equal("decomplexify(complexify(a))[k]", s.content(r, k), rd("a", k), [k], real=real, where=where(t))
    for tl, ct in (("f64", F64), ("f32", F32), ("Complex64", CX64), ("Complex32", CX32)):
        with cx.clause("scalar conversions of %s" % tl):
            s = cx.sess()
            real = ("a",) if ct[0] == "prim" else ()
            t = s.method("into_complex", ct, "types::IntoComplex64")
            x = rd("a", ZERO)
            cx.equal("into_complex(x)", s.call(t, [s.ref(x)]), x, real=real, where=where(t))
            t = s.method("from_complex", ct, "types::FromComplex")
            cx.equal("from_complex(z)", s.call(t, [x]), rf("re", x) if real else x, where=where(t))
