"""C22: what must not compile."""
import itertools

from .. import witness as W
from . import sigs
from .common import *
from ..session import FFTR, tname

EXPLAIN = ("client programs are type-checked (never run) against the library built from the current source: each "
           "ill-formed declaration, each combination of operands of different algebras or coefficient types and each "
           "restricted operation on an unsuitable algebra is one line that must be rejected with an error rooted at that "
           "line, beside a twin that differs only in the offending part and must be accepted; operator traits are "
           "enumerated with constants that exist only when the trait is implemented; the parameter types of all "
           "reachable functions are read from the type-checked program")
RULE = ("rejected: a null generator before a non-null one; an axis-name list of another length; an unknown sign; 64 or "
        "more generators; any operator or method over two multivectors or representations that differ in algebra or "
        "coefficient type; division outside division algebras, real_fft outside split ones, inv/into_array2/from_array2/"
        "into_half_spin_repr outside non-degenerate ones, pga_* outside projective ones")
FLOOR = 12
TECH = "compile-fail witnesses with compiling twins, and a query over the type-checked signatures"
NOTE = ("programs are bounded: all ill-ordered signatures up to length 6 (7 in the thorough tier) and long ones, a fixed "
        "set of operand types, and generic programs over arbitrary algebras")

HEAD = ["use tclifford::algebra::*;", "use tclifford::types::*;", "use tclifford::pga::*;",
        "use tclifford::{ClAlgebra, ClBasis, FFTRepr, Multivector, SparseMultivector, One, Zero};",
        "use std::marker::PhantomData;"]


class Wit:
    """lines of client code that have to be rejected, and lines that have to be accepted"""

    def __init__(self, cx, lib):
        self.cx, self.lib = cx, lib
        self.n = 0

    def run(self, name, head, bad, good, where_=None):
        """bad: [(line, what)]; good: [line]"""
        cx = self.cx
        text = lambda ls: "\n".join(list(head) + list(ls)) + "\n"
        # only a rejection needs a twin to be trusted
        twin = self.lib.check(name + "_twin", text(good))
        lost = {ln for c, ln, m in twin}
        at = {len(head) + i + 1: i for i in range(len(bad))}
        codes = {}
        hit = set()
        for c, ln, m in self.lib.check(name, text(l for l, _ in bad)):
            if ln not in at:
                raise Unsupported("witness: %s %s" % (c, m))
            hit.add(at[ln])
            codes[c or "macro"] = codes.get(c or "macro", 0) + 1
        rest = [i for i in range(len(bad)) if i not in hit]
        # errors of an earlier phase hide those of later ones: what was not rejected is checked again alone
        if hit and rest:
            r = self.lib.check_all({"%s_%d" % (name, i): text([bad[i][0]]) for i in rest})
            for i in rest:
                for c, ln, m in r["%s_%d" % (name, i)]:
                    if ln in at:
                        hit.add(i)
                        codes[c or "macro"] = codes.get(c or "macro", 0) + 1
                        break
        self.n += len(bad)
        cx.cur["compared"] += len(bad) + len(good)
        cx.cur["codes"] = codes
        acc = [i for i in range(len(bad)) if i not in hit]
        for i in acc[:3]:
            cx.violate("accepted", "%s compiles: `%s`" % (bad[i][1], short(bad[i][0])), where=where_ or bad[i][1],
                       detail={"line": bad[i][0]})
        if not acc and len(lost) >= len(good) or any(not ln or ln <= len(head) for ln in lost):
            c, ln, m = twin[0]
            raise Unsupported("the accepted twins do not compile: %s %s" % (c, m))
        cx.cur["twins"] = len(good) - len(lost)


def short(l):
    return l if len(l) < 160 else l[:150] + "..."


def decl(i, sig, names=None, vis=""):
    return "pub mod m%d { tclifford::declare_algebra!(%sX, [%s]%s); }" % (
        i, vis, ",".join(sig), "" if names is None else ", [%s]" % ", ".join('"a%d"' % j for j in range(names)))


def run(cx):
    lib = W.Lib()
    w = Wit(cx, lib)
    try:
        declarations(cx, w)
        mixing(cx, w)
        restricted(cx, w)
    finally:
        lib.close()
    signatures(cx)
    cx.extra = {"rejected_lines_checked": w.n}


def declarations(cx, w):
    top = 6 if cx.tier == "quick" else 7
    with cx.clause("a null generator before a non-null one"):
        bad = []
        for n in range(2, top + 1):
            ok = set(sigs.accepted(n))
            bad += ["".join(s) for s in itertools.product("+-0", repeat=n) if "".join(s) not in ok]
        for n in (8, 12, 17, 33, 63):
            bad += ["0" + "+" * (n - 1), "+" * (n - 2) + "0-", "-" * (n // 2) + "0" + "-" * (n - n // 2 - 1),
                    "+-" * (n // 2 - 2) + "000" + "+", "0" * (n - 1) + "-"]
        good = [s for n in range(1, 5) for s in sigs.accepted(n)] + ["+" * 30 + "0" * 33]
        w.run("order", [], [(decl(i, s), "a signature with a null generator before a non-null one")
                            for i, s in enumerate(bad)], [decl(i, s) for i, s in enumerate(good)],
              "declare_algebra! / order of the signature")
        forms = ["0+", "0-", "+0-", "00+", "-0+0"]
        w.run("order_vis", [], [(decl(3 * i + j, s, k, v), "a signature with a null generator before a non-null one")
                                for i, s in enumerate(forms)
                                for j, (v, k) in enumerate((("pub ", len(s)), ("pub(crate) ", len(s)), ("", 0)))],
              [decl(0, "+0", 2, "pub "), decl(1, "+0", 2, "pub(crate) "), decl(2, "+0", 0, "")],
              "declare_algebra! / order of the signature")
    with cx.clause("an axis-name list of another length"):
        bad = [(s, k, v) for s in ("+", "-", "0", "+-", "+0", "--", "++0", "+++", "+-+-", "++++0", "+" * 12, "+" * 40)
               for k in sorted({1, 2, 3, len(s) - 1, len(s) + 1, len(s) + 2}) if k not in (0, len(s))
               for v in ("pub ", "pub(crate) ", "")]
        w.run("axes", [], [(decl(i, s, k, v), "a list of %d axis names for %d generators" % (k, len(s)))
                           for i, (s, k, v) in enumerate(bad)],
              [decl(i, s, len(s), v) for i, (s, k, v) in enumerate(bad)], "declare_algebra! / number of axis names")
    with cx.clause("an unknown sign"):
        bad = []
        for t in ("*", "1", "x", "!", "\"+\"", "2", "'-'", "()", "plus", "/", "_", "0.0", "00", "-1", "+-"):
            for pre, post in itertools.product(([], ["+"], ["-", "-"], ["+", "-", "0"], ["0"]), ([], ["+"], ["-"], ["0"])):
                if "0" in pre and post not in ([], ["0"]):
                    continue
                bad.append((t, pre + [t] + post))
        w.run("signs", [], [(decl(i, s), "a signature with the sign `%s`" % t) for i, (t, s) in enumerate(bad)],
              [decl(0, "+"), decl(1, "+-0")], "declare_algebra! / signs")
    with cx.clause("64 or more generators"):
        bad = ["+" * 64, "+-" * 32, "-" * 64, "+" * 63 + "0", "0" * 64, "+" * 65, "-" * 64 + "0", "+" * 72]
        if cx.tier == "thorough":
            bad += ["-" * 65, "0" * 66, "+-" * 48, "+" * 100, "-" * 128]
        w.run("size", ["#![recursion_limit = \"1024\"]"],
              [(decl(i, s), "an algebra of %d generators" % len(s)) for i, s in enumerate(bad)],
              [decl(i, s) for i, s in enumerate(("+" * 63, "+" * 62 + "0", "-" * 63, "0" * 63))],
              "declare_algebra! / dimension limit")


ALG = {"A": "+-", "B": "+--", "C": "+-", "D": "--", "E": "-", "F": "-", "G": "++0", "H": "++0", "K": "++-0"}
OPTRAITS = [o + x for o in ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr")
            for x in ("", "Assign")]


def algs():
    return ["tclifford::declare_algebra!(pub %s, [%s], []);" % (n, ",".join(s)) for n, s in ALG.items()]


def mixing(cx, w):
    mv = [(k, t, a) for k in ("Multivector", "SparseMultivector") for t in ("f64", "f32") for a in "ABCDEG"]
    with cx.clause("operators over different algebras or coefficient types"):
        # constants that exist only if the operator is implemented
        head = HEAD + ["use std::ops::*;", "pub trait No { const Y: bool = false; }", "impl<T: ?Sized> No for T {}"]
        for o in OPTRAITS + ["PartialEq", "PartialOrd"]:
            head.append("pub struct W%s<X, Y>(PhantomData<(X, Y)>);" % o)
            head.append("impl<X: %s<Y>, Y> W%s<X, Y> { pub const Y: bool = true; }" % (o, o))
        lines, about = algs(), [None] * len(ALG)
        ty = lambda x: "FFTRepr<%s>" % x[2] if x[0] == "FFTRepr" else "%s<%s, %s>" % x
        allv = mv + [("FFTRepr", None, a) for a in "ABCDEG"]
        spell = [("", ""), ("&'static ", ""), ("", "&'static "), ("&'static ", "&'static ")]
        n = 0
        for x, y in itertools.product(allv, allv):
            if x[2] == y[2] and (x[1] == y[1] or "FFTRepr" in (x[0], y[0])):
                continue
            if not cx.tier == "thorough" and x[0] != y[0] and (x[1] != y[1]):
                continue
            for o in OPTRAITS + ["PartialEq", "PartialOrd"]:
                for l, r in spell if not o.endswith("Assign") else spell[::2]:
                    if o.startswith("Partial") and l != r:
                        continue
                    a, b = (l + ty(x), r + ty(y)) if not o.startswith("Partial") else (ty(x), ty(y))
                    if o.startswith("Partial") and l:
                        continue
                    lines.append("const _: () = assert!(!W%s::<%s, %s>::Y);" % (o, a, b))
                    about.append((o, a, b))
                    n += 1
        twin = []
        for x in allv:
            for o in ("Add", "Sub", "Mul"):
                for l, r in spell:
                    twin.append("const _: () = assert!(W%s::<%s%s, %s%s>::Y);" % (o, l, ty(x), r, ty(x)))
        errs = w.lib.check("operators_twin", "\n".join(head + algs() + twin) + "\n")
        if errs:
            raise Unsupported("twin: %s" % (errs[0],))
        cx.cur["compared"] = n
        w.n += n
        for c, ln, m in w.lib.check("operators", "\n".join(head + lines) + "\n"):
            ab = about[ln - len(head) - 1] if ln and ln > len(head) else None
            if not ab:
                raise Unsupported("witness: %s %s" % (c, m))
            if len(cx.violations) < 5:
                cx.violate("accepted", "%s is implemented between %s and %s" % ab, where="impl %s" % ab[0],
                           detail={"types": ab})
    with cx.clause("methods over two multivectors of different algebras or coefficient types"):
        ms = ["{a}.vdot({b})", "{a}.vsdot({b})", "{a}.approx_eq({b}, 0.1)", "{a}.naive_mul_impl({b})",
              "{a}.naive_wedge_impl({b})", "{a}.naive_meet_impl({b})", "{a}.wedge({b})", "{a}.meet({b})",
              "{a}.ref_add({b})", "{a}.ref_sub({b})", "{a}.ref_mul({b})", "{a} == {b}", "{a} + {b}", "{a} - {b}",
              "{a} * {b}"]
        bad, good = [], []
        pairs = [("f64", "A", "f64", "B"), ("f64", "A", "f64", "C"), ("f32", "A", "f64", "A"), ("f64", "D", "f64", "A"),
                 ("f64", "G", "f64", "H"), ("f32", "E", "f64", "F"), ("f64", "A", "f32", "A")]
        for i, m in enumerate(ms):
            for k in ("Multivector", "SparseMultivector"):
                e = m.format(a="a", b="b")
                for j, (t, p, u, q) in enumerate(pairs):
                    bad.append(("pub fn w%d_%d_%s(a: &%s<%s, %s>, b: &%s<%s, %s>) { let _ = %s; }" % (
                        i, j, k.lower(), k, t, p, k, u, q, e), "`%s` with operands of different types" % e))
                bad.append(("pub fn g%d_%s<P: ClAlgebra, Q: ClAlgebra>(a: &%s<f64, P>, b: &%s<f64, Q>) { let _ = %s; }" % (
                    i, k.lower(), k, k, e), "`%s` with operands of arbitrary algebras" % e))
                good.append("pub fn w%d_%s(a: &%s<f64, A>, b: &%s<f64, A>) { let _ = %s; }" % (i, k.lower(), k, k, e))
                good.append("pub fn g%d_%s<P: ClAlgebra>(a: &%s<f64, P>, b: &%s<f64, P>) { let _ = %s; }" % (
                    i, k.lower(), k, k, e))
        for i, m in enumerate(("a.approx_eq(b, 0.1)", "a == b", "a + b", "a - b", "a * b")):
            bad.append(("pub fn f%d(a: &FFTRepr<A>, b: &FFTRepr<C>) { let _ = %s; }" % (i, m),
                        "`%s` with representations of different algebras" % m))
            bad.append(("pub fn fg%d<P: ClAlgebra, Q: ClAlgebra>(a: &FFTRepr<P>, b: &FFTRepr<Q>) { let _ = %s; }" % (i, m),
                        "`%s` with representations of arbitrary algebras" % m))
            good.append("pub fn f%d(a: &FFTRepr<A>, b: &FFTRepr<A>) { let _ = %s; }" % (i, m))
        bad.append(("pub fn as1(a: &FFTRepr<A>) -> Multivector<f64, C> { a.ifft() }", "ifft into another algebra"))
        bad.append(("pub fn as2(a: &Multivector<f64, A>) -> FFTRepr<C> { a.fft() }", "fft into another algebra"))
        bad.append(("pub fn as3(a: &Multivector<f64, A>) -> SparseMultivector<f64, C> { a.to_sparse() }",
                    "to_sparse into another algebra"))
        bad.append(("pub fn as4(a: &Multivector<f64, A>) -> SparseMultivector<f32, A> { a.to_sparse() }",
                    "to_sparse into another coefficient type"))
        bad.append(("pub fn as5(a: Multivector<f64, A>) -> Multivector<f64, C> { a }", "a multivector as one of another "
                    "algebra with the same signature"))
        good.append("pub fn as1(a: &FFTRepr<A>) -> Multivector<f64, A> { a.ifft() }")
        good.append("pub fn as2(a: &Multivector<f64, A>) -> FFTRepr<A> { a.fft() }")
        good.append("pub fn as3(a: &Multivector<f64, A>) -> SparseMultivector<f64, A> { a.to_sparse() }")
        w.run("methods", HEAD + algs(), bad, good)


def restricted(cx, w):
    small_ = [s for n in range(1, 5) for s in sigs.accepted(n)]
    fam = small_ + ["+-+-+-", "+-+-+", "-+-+-+", "+" * 7 + "0", "+" * 5 + "-0", "-" * 6, "+" * 7 + "00", "+-" * 5, "+-" * 5 + "0"]
    head = HEAD + ["tclifford::declare_algebra!(pub S%d, [%s], []);" % (i, ",".join(s)) for i, s in enumerate(fam)]
    groups = []
    for k in ("Multivector", "SparseMultivector"):
        for j, (l, r) in enumerate(itertools.product(("", "&"), repeat=2)):
            groups.append(("division of %ss, %s" % (k, ("value-value", "value-reference", "reference-value",
                                                        "reference-reference")[j]), "DivisionAlgebra",
                           "pub fn {n}{g}(a: %s%s<f64, {s}>, b: %s%s<f64, {s}>) {{ let _ = a / b; }}" % (l, k, r, k)))
    groups.append(("real_fft", "SplitSignature", "pub fn {n}{g}(a: &Multivector<f64, {s}>) {{ let _ = a.real_fft(); }}"))
    for m, e in (("inv", "r.inv()"), ("into_array2", "r.into_array2()"), ("into_half_spin_repr", "r.into_half_spin_repr()")):
        groups.append(("FFTRepr::" + m, "NonDegenerate", "pub fn {n}{g}(r: FFTRepr<{s}>) {{ let _ = %s; }}" % e))
    groups.append(("FFTRepr::from_array2", "NonDegenerate",
                   "pub fn {n}{g}(r: FFTRepr<{s}>, q: FFTRepr<S1>) {{ let _ = FFTRepr::<{s}>::from_array2(q.into_array2()); }}"))
    groups.append(("inv after complexify", "NonDegenerate", "pub fn {n}{g}(a: &Multivector<f64, {s}>) "
                   "{{ fn r<B: ClAlgebra + NonDegenerate, T: Ring + Clone>(_: &Multivector<T, B>) {{}} r(&a.complexify()); }}"))
    for k in ("Multivector", "SparseMultivector"):
        for m, e in (("pga_point", "%s::<f64, {s}>::pga_point(vec![0.0])"),
                     ("pga_hyperplane", "%s::<f64, {s}>::pga_hyperplane(vec![0.0])"),
                     ("pga_translation", "%s::<f64, {s}>::pga_translation(vec![0.0])")):
            groups.append(("%s, %s" % (m, k), "PGAlgebra", "pub fn {n}{g}() {{ let _ = %s; }}" % (e % k)))
        groups.append(("pga_extract_point, %s" % k, "PGAlgebra",
                       "pub fn {n}{g}(a: &%s<f64, {s}>) {{ let _ = a.pga_extract_point(); }}" % k))
    suits = lambda s, t: any(x.split("<")[0] == t for x in sigs.traits(s))
    others = {"DivisionAlgebra": "NonDegenerate + SplitSignature + PGAlgebra<2>",
              "SplitSignature": "NonDegenerate + DivisionAlgebra + ComplexAlgebra + QuaternionicAlgebra + PGAlgebra<2>",
              "NonDegenerate": "SplitSignature + DivisionAlgebra + ComplexAlgebra + QuaternionicAlgebra + PGAlgebra<2>",
              "PGAlgebra": "NonDegenerate + SplitSignature + DivisionAlgebra + ComplexAlgebra + QuaternionicAlgebra"}
    need = {"SplitSignature": "SplitSignature + NonDegenerate", "PGAlgebra": "PGAlgebra<3>"}
    for gi, (what, trait, tmpl) in enumerate(groups):
        with cx.clause("%s outside %s" % (what, trait)):
            bad = [(tmpl.format(n="w%d" % i, g="", s="S%d" % i), "%s in [%s]" % (what, ",".join(s)))
                   for i, s in enumerate(fam) if not suits(s, trait)]
            bad.append((tmpl.format(n="g0", g="<P: ClAlgebra>", s="P"), "%s in an arbitrary algebra" % what))
            bad.append((tmpl.format(n="g1", g="<P: ClAlgebra + %s>" % others[trait], s="P"),
                        "%s in an arbitrary algebra with the other marker traits" % what))
            good = [tmpl.format(n="w%d" % i, g="", s="S%d" % i) for i, s in enumerate(fam) if suits(s, trait)]
            good.append(tmpl.format(n="g0", g="<P: ClAlgebra + %s>" % need.get(trait, trait), s="P"))
            w.run("r%d" % gi, head, bad, good)
    with cx.clause("basis of another dimension"):
        bad, good = [], []
        for i, s in enumerate(fam):
            for N in sorted({0, 1, len(s) - 1, len(s), len(s) + 1}):
                for k in ("Multivector::<f64, S%d>", "SparseMultivector::<f64, S%d>", "FFTRepr::<S%d>"):
                    l = "pub fn b%d_%d%s() { let _ = %s::basis::<%d>(); }" % (i, N, k[0].lower(), k % i, N)
                    if N == len(s):
                        good.append(l)
                    else:
                        bad.append((l, "a basis of %d elements in [%s]" % (N, ",".join(s))))
        w.run("basis", head, bad, good)


def signatures(cx):
    """parameter types of every function a client can reach"""
    with cx.clause("reachable functions take multivectors of one algebra and coefficient type"):
        p = cx.prog
        n = two = 0
        for k, b in sorted(p.bodies.items()):
            if b["kind"] not in ("Fn", "AssocFn") or not b.get("reach") or "inputs" not in b:
                continue
            n += 1
            mvs = []
            for t in b["inputs"]:
                collect(p, p.ty(t), mvs)
            if len(mvs) < 2:
                continue
            two += 1
            al = {m[2][1] if m[1] == MV else m[2][0] for m in mvs}
            co = {m[2][0] for m in mvs if m[1] == MV}
            cx.cur["compared"] += 1
            if len(al) > 1 or len(co) > 1:
                cx.violate("mixed parameters", "%s takes operands of %s" % (
                    b["path"], " and ".join(sorted(tname(m) for m in mvs))), where=b["path"],
                    detail={"span": b["span"], "types": [tname(m) for m in mvs]})
        if two < 20:
            raise Unsupported("only %d functions over two multivectors were found" % two)
        cx.points += n


def collect(p, t, out):
    while t[0] == "ref":
        t = t[1]
    if t[0] == "adt" and t[1] in (MV, FFTR):
        out.append(t)
