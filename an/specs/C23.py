"""C23: the algebra of complexified multivectors."""
from .. import witness as W
from .common import *

EXPLAIN = ("the algebra type is read off the declared result type of complexify for an arbitrary algebra A; its "
           "descriptor functions are derived from the MIR in terms of the descriptor of A (arbitrary dimension, masks and "
           "axis names); non-degeneracy is decided by the compiler on a client crate that needs the trait for an "
           "arbitrary non-degenerate A, and for concrete algebras that it is absent when A is degenerate")
RULE = ("dim' = dim; real' = real | imag; imag' = 0; proj' = proj; real_dim', imag_dim', proj_dim' = their bit counts; "
        "axis'(n) = (i*axis(n)) if bit n of imag else axis(n); A: NonDegenerate => A': NonDegenerate")
FLOOR = 9
TECH = "value-flow analysis of the descriptor functions' MIR and compile-time trait witnesses"

def calg(s):
    """algebra of complexify's result"""
    ty = mvty("array", F64)
    key, b, env = s.method("complexify", ty)
    r = s.p.subst(s.p.ty(b["body"]["locals"][0]), env)
    if r[0] != "adt" or r[1] != MV:
        raise Unsupported("result type of complexify: %s" % (r,))
    return r[2][1]


def run(cx):
    def value(s, A, fn, args=()):
        try:
            t = s.method(fn, A, "algebra::ClAlgebraBase")
        except Missing:
            t = s.default("algebra::ClAlgebraBase", fn, A)
        return t, s.deep(s.call(t, list(args)))

    ms = dim_models(cx) + cx.models()
    al = cx.sess().alg
    nz = or_(al["real_mask"], al["imag_mask"])
    for fn, want in (("dim", al["dim"]), ("real_mask", nz), ("imag_mask", ZERO), ("proj_mask", al["proj_mask"]),
                     ("real_dim", pc(nz)), ("imag_dim", ZERO), ("proj_dim", pc(al["proj_mask"]))):
        with cx.clause(fn):
            s = cx.sess()
            t, r = value(s, calg(s), fn)
            cx.equal("%s of the complexified algebra" % fn, r, want, [], models=ms, where=where(t))
            cx.no_panics(s, models=ms)
    with cx.clause("axis_name"):
        s = cx.sess()
        n = NVAR("n", s.alg["dim"])
        t, r = value(s, calg(s), "axis_name", [n])
        ax = T.mk("sf", "axis", n)
        want = T.ite(odd(T.shr(s.alg["imag_mask"], n)), T.scat(T.mk("str", "(i*"), ax, T.mk("str", ")")), ax)
        cx.equal("axis_name(n) of the complexified algebra", r, want, [n], models=ms, where=where(t), budget=10 ** 8)
        cx.no_panics(s, models=ms)
    nondegenerate(cx)


def nondegenerate(cx):
    """a client program that needs the trait for the result of complexify; the type itself is not nameable outside"""
    with cx.clause("non-degenerate whenever the original is"):
        lib = W.Lib()
        try:
            head = ["use tclifford::algebra::*;", "use tclifford::types::*;",
                    "use tclifford::{ClAlgebra, Multivector, SparseMultivector};",
                    "pub fn dense<T: Ring + Clone, B: ClAlgebra + %s>(_: &Multivector<T, B>) {}",
                    "pub fn sparse<T: Ring + Clone, B: ClAlgebra + %s>(_: &SparseMultivector<T, B>) {}",
                    "pub fn f<A: ClAlgebra + NonDegenerate>(x: &Multivector<f64, A>, y: &SparseMultivector<f64, A>) {"]
            want = ["    dense(&x.complexify());", "    sparse(&x.complexify());", "    dense(&y.complexify());",
                    "    sparse(&y.complexify());", "}"]
            text = "\n".join(head + want) + "\n"
            r = lib.check_all({"twin": text.replace("%s", "Sized"), "needed": text.replace("%s", "NonDegenerate")})
            if r["twin"]:
                raise Unsupported("witness without the trait: %s" % (r["twin"][0],))
            cx.cur["compared"] += 4
            for code, line, msg in r["needed"]:
                if code != "E0277" or not len(head) < line < len(head + want):
                    raise Unsupported("witness: %s %s" % (code, msg))
                cx.violate("trait missing", "the algebra of `%s` is not NonDegenerate although A is: %s" % (
                    (head + want)[line - 1].strip(), msg), where="NonDegenerate for the complexified algebra",
                    detail={"code": code})
                break
        finally:
            lib.close()
