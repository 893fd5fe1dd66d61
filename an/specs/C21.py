"""C21: what declare_algebra! derives from a signature."""
from .. import witness as W
from ..dump import BuildError
from ..mir import Prog
from ..session import Sess
from . import sigs
from .common import *

EXPLAIN = ("a witness client crate declares every accepted signature up to a length bound and selected long ones; the "
           "compiler resolves, for each signature and marker trait, whether the trait is implemented (an inherent "
           "constant that exists only under the bound shadows a fallback constant, checked by constant assertions); "
           "the descriptor functions the macro expands to are read from the MIR of the library compiled with the same "
           "declarations and their values derived; signature arrays and per-sign counts are derived for arbitrary masks")
RULE = ("dim == length; bit n of real/imag/proj mask set iff the n-th sign is +/-/0; *_dim == number of set bits; "
        "axis_name(n) == n-th given name, else e<n>; signature()[n], signaturef()[n] in {1,-1,0} by the mask bits; a "
        "marker trait is implemented iff the signature calls for it")
FLOOR = 10
TECH = "compile-time witnesses (trait presence and absence) and value-flow analysis of the expanded macro's MIR"

NOTE = ("bounded: every accepted signature up to length 6 (8 in the thorough tier) and patterned ones up to 63; the "
        "macros recurse uniformly over the token list")

SIMPLE = ("SplitSignature", "NonDegenerate", "ComplexAlgebra", "QuaternionicAlgebra", "DivisionAlgebra")


def client(fam):
    """client crate: (text, {line: (signature, what)})"""
    out = ["use tclifford::algebra::*;", "use std::marker::PhantomData;",
           "pub trait No { const Y: bool = false; }", "impl<T: ?Sized> No for T {}"]
    for t in SIMPLE:
        out.append("pub struct W%s<T>(PhantomData<T>);" % t)
        out.append("impl<T: %s> W%s<T> { pub const Y: bool = true; }" % (t, t))
    for t in ("PGAlgebra", "ClBasis"):
        out.append("pub struct W%s<T, const N: usize>(PhantomData<T>);" % t)
        out.append("impl<T: %s<N>, const N: usize> W%s<T, N> { pub const Y: bool = true; }" % (t, t))
    at = {}
    n = 0
    for i, s in enumerate(fam):
        out.append("tclifford::declare_algebra!(S%d, %s);" % (i, sigs.lit(s)))
        at[len(out)] = (s, "accepted")
        want = sigs.traits(s)
        for t in SIMPLE:
            out.append("const _: () = assert!(W%s::<S%d>::Y == %s);" % (t, i, str(t in want).lower()))
            at[len(out)] = (s, t)
            n += 1
        d = len(s)
        for t in ("PGAlgebra", "ClBasis"):
            for N in sorted({0, 1, max(d - 2, 0), d - 1, d, d + 1}):
                out.append("const _: () = assert!(W%s::<S%d, %d>::Y == %s);" % (
                    t, i, N, str("%s<%d>" % (t, N) in want).lower()))
                at[len(out)] = (s, "%s<%d>" % (t, N))
                n += 1
    return "\n".join(out) + "\n", at, n


NAMES = [("+-0", "pub "), ("---", "pub(crate) "), ("+", ""), ("++++-0", "pub "), ("-" * 12, "")]


def names(i, n):
    return ["n%d_%d" % (i, j * 7 % n) + "x" * (j % 3) for j in range(n)]


def run(cx):
    fam = sigs.family(cx.tier)
    cx.extra = {"signatures": len(fam), "longest_signature": max(map(len, fam))}
    lib = W.Lib()
    try:
        with cx.clause("accepted signatures compile, and implement exactly the marker traits they call for"):
            text, at, n = client(fam)
            cx.extra["trait_assertions"] = n
            errs = lib.check("declarations", text)
            bad = set()
            for code, line, msg in errs:
                s, what = at.get(line, (None, None))
                if what == "accepted":
                    bad.add(s)
                    cx.violate("rejected", "declare_algebra! rejects the signature %s" % sigs.lit(s),
                               where="declare_algebra!", detail={"error": msg, "code": code})
                elif s is None:
                    raise Unsupported("witness crate: %s %s" % (code, msg))
                elif s not in bad:
                    want = what in sigs.traits(s)
                    cx.violate("marker trait", "the algebra declared with %s %s %s" % (
                        sigs.lit(s), "does not implement" if want else "implements", what),
                        where="declare_algebra! / %s" % what.split("<")[0],
                        detail={"signature": s, "trait": what, "required": want})
                if len(cx.violations) >= 6:
                    break
            cx.cur["compared"] = n
        fam = [s for s in fam if s not in bad]
        module = ["use crate::*;"]
        for i, s in enumerate(fam):
            module.append("crate::declare_algebra!(S%d, %s);" % (i, sigs.lit(s)))
        for i, (s, vis) in enumerate(NAMES):
            module.append("crate::declare_algebra!(%sN%d, %s, [%s]);" % (
                vis, i, sigs.lit(s), ", ".join('"%s"' % x for x in names(i, len(s)))))
        module.append("crate::declare_algebra!(pub E0, [+,-,0,0], []);")
        module.append("crate::declare_algebra!(pub(super) E1, [-,-], []);")
        try:
            p = Prog(lib.dump("\n".join(module)))
        except BuildError as e:
            p = None
            with cx.clause("declarations expand"):
                raise Unsupported(str(e)[-400:])
        if p is not None:
            expansion(cx, p, fam)
    finally:
        lib.close()
    generic(cx)


def expansion(cx, p, fam):
    s = Sess(p, contracts=False)
    cx._sessions = getattr(cx, "_sessions", []) + [s]
    base = "tclifford::%s::" % W.MODULE
    ty = lambda n: n if isinstance(n, tuple) else ("adt", base + n, ())
    algs = [("S%d" % i, x, None) for i, x in enumerate(fam)]
    algs += [("N%d" % i, x, names(i, len(x))) for i, (x, v) in enumerate(NAMES)]
    algs += [("E0", "+-00", None), ("E1", "--", None), (QAL, "--", ["I", "J"])]

    def value(n, fn, args=()):
        try:
            t = s.method(fn, ty(n), "algebra::ClAlgebraBase")
        except Missing:
            try:
                t = s.default("algebra::ClAlgebraBase", fn, ty(n))
            except Missing as e:
                raise Unsupported(str(e))
        return t, s.deep(s.call(t, list(args)))

    def compare(fn, want, args=lambda x: [()], shown=lambda v: v):
        with cx.clause(fn):
            bad = 0
            for n, x, nm in algs:
                for a in args(x):
                    t, r = value(n, fn, [INT(v) for v in a])
                    w = want(x, nm, *a)
                    cx.cur["compared"] += 1
                    cx.points += 1
                    if r is w:
                        cx.cur["identical"] += 1
                        continue
                    if not (T.isn(r) and r.op in ("int", "c", "str", "poly")) and not T.isn(r):
                        raise Unsupported("value of %s" % fn)
                    if not constant(r):
                        raise Unsupported("value of %s: %s" % (fn, T.show(r)[:200]))
                    if bad < 3:
                        bad += 1
                        cx.violate("differs", "%s(%s) of the algebra declared with %s%s is %s, not %s" % (
                            fn, ", ".join(map(str, a)), sigs.lit(x), " and %d axis names" % len(nm) if nm else "",
                            T.show(r), T.show(w)), where="declare_algebra! / %s" % fn,
                            detail={"signature": x, "derived": T.show(r), "required": T.show(w)})
    compare("dim", lambda x, nm: INT(len(x)))
    for k, fn in enumerate(("real_mask", "imag_mask", "proj_mask")):
        compare(fn, lambda x, nm, k=k: INT(sigs.masks(x)[k]))
    for k, fn in enumerate(("real_dim", "imag_dim", "proj_dim")):
        compare(fn, lambda x, nm, k=k: INT(x.count("+-0"[k])))
    compare("axis_name", lambda x, nm, n: T.mk("str", nm[n] if nm else "e%d" % n),
            args=lambda x: [(n,) for n in (range(len(x)) if len(x) <= 12 else (0, 9, 10, len(x) // 2, len(x) - 1))])


def constant(r):
    return not T.freevars(r) and r.op not in ("sf", "scat", "sfor", "site", "ite", "ifn")


def settled(v, unset):
    """the value as one term; an element that is never written reads as `unset`"""
    if isinstance(v, VIte):
        x, y = settled(v.x, unset), settled(v.y, unset)
        return T.rite(v.c, x, y) if T.sort(unset) == "r" else T.ite(v.c, x, y)
    return unset if isinstance(v, Opq) else v


def generic(cx):
    """for arbitrary masks"""
    D = T.SYM("D")
    ms = [dict(m, syms=dict(m["syms"], D=m["dim"])) for m in dim_models(cx) + cx.models()]
    n = NVAR("n", D)
    bit = lambda m: odd(T.shr(m, n))
    for name, fl in (("signature", False), ("signaturef", True)):
        with cx.clause("%s for arbitrary masks" % name):
            s = cx.sess()
            t = s.default("algebra::ClBasis", name, AL, [("cst", D)])
            r = s.deep(s.call(t, []))
            v = r.at((n,)) if hasattr(r, "at") else None
            if v is None:
                raise Unsupported("result of %s" % name)
            v = settled(s.deep(v), T.rc(99) if fl else INT(99))
            R, I = s.alg["real_mask"], s.alg["imag_mask"]
            if fl:
                want = T.rite(bit(R), T.R1, T.rite(bit(I), T.rneg(T.R1), T.R0))
            else:
                want = T.ite(bit(R), INT(1), T.ite(bit(I), INT(-1), ZERO))
            cx.equal("element n of %s" % name, v, want, [n], models=ms, where=where(t), budget=10 ** 9)
            cx.equal("length of %s" % name, r.shape[0], D, [], models=ms, where=where(t))
    for k, fn in (("real_mask", "real_dim"), ("imag_mask", "imag_dim"), ("proj_mask", "proj_dim")):
        with cx.clause("%s for arbitrary masks" % fn):
            s = cx.sess()
            t = s.default("algebra::ClAlgebraBase", fn, AL)
            cx.equal(fn, s.deep(s.call(t, [])), T.pc(s.alg[k]), [], models=ms, where=where(t))
