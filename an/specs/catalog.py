"""Public operations on multivectors with abstract arguments, shared by the properties about all of them."""
from .common import *
from ..evalm import hsh


class Op:
    """one public operation: run(s) -> value or reference holding the resulting multivector (None when it has none);
    models, funs, bounds describe the extra symbols its arguments introduce"""

    def __init__(self, label, target, run, ct=TS, real=(), ms=None, funs=None, bounds=None, pre=TRUE, out=None):
        self.label = label
        self.target = target
        self.run = run
        self.ct = ct
        self.real = real
        self.ms = ms
        self.funs = funs
        self.bounds = bounds
        self.pre = pre
        self.out = out

    def kw(self):
        k = {"real": self.real}
        if self.funs:
            k["funs"] = self.funs
        if self.bounds:
            k["bounds"] = self.bounds
        return k


def fix(M, x):
    d = M.syms["m"] + M.syms["s"]
    return hsh(M.seed, "ix", x) % ((1 << d) + (1 if hsh(M.seed, "oob") % 2 else 0))


def fgr(M, j):
    return hsh(M.seed, "gr", j) % (M.syms["m"] + M.syms["s"] + 2)


def fnew(M, k, v):
    h = hsh(M.seed, "new", k, v)
    return 0 if h % 3 == 0 else h


def mvops(cx, kind, ty):
    """operations of the multivector type for one storage kind; each is (Op) with lazily resolved target"""
    out = []
    x = rd("x")
    g, N, G, I_ = T.SYM("g"), T.SYM("N"), T.SYM("G"), T.SYM("idx")
    alg_ = lambda s: algof(s, kind)
    mv = lambda s, n, ct=TS: s.mv(n, ty(ct), alg_(s)["dim"])

    def op(label, trait, name, args, ct=TS, targs=None, selfty=None, extra=(), res=None, **kw):
        tgt = lambda s: s.method(name, selfty or ty(ct), trait, targs)

        def run(s):
            vs = args(s)
            r = s.call(tgt(s), vs, extra=extra)
            return res(s, r, vs) if res else r
        out.append(Op(label, tgt, run, ct=ct, **kw))

    okay = lambda s, r, vs: result_parts(s, r)[1]
    none = lambda s, r, vs: None
    first = lambda s, r, vs: vs[0]
    for tr, name in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul")):
        for sp, lt_, rt in spellings(ty()):
            op("%s %s" % (name, sp), "std::ops::" + tr, name,
               lambda s, lt_=lt_, rt=rt: [operand(s, mv(s, "a"), lt_), operand(s, mv(s, "b"), rt)], targs=[rt],
               selfty=lt_)
    for tr, name in (("Mul", "mul"), ("Div", "div")):
        for sp, lt_, rt in spellings(ty(), TS):
            op("%s by scalar %s" % (name, sp), "std::ops::" + tr, name,
               lambda s, lt_=lt_, rt=rt: [operand(s, mv(s, "a"), lt_), operand(s, x, rt)], targs=[rt], selfty=lt_,
               pre=bnot(isz(x)) if name == "div" else TRUE)
    for sp, lt_ in (("value", ty()), ("ref", ("ref", ty(), False))):
        op("neg %s" % sp, "std::ops::Neg", "neg", lambda s, lt_=lt_: [operand(s, mv(s, "a"), lt_)], selfty=lt_)
    two = lambda s: [s.ref(mv(s, "a")), s.ref(mv(s, "b"))]
    one = lambda s: [s.ref(mv(s, "a"))]
    if kind != "q":
        op("wedge", "types::WedgeProduct", "wedge", two)
        op("meet", "types::WedgeProduct", "meet", two)
    for n in ("naive_mul_impl", "naive_wedge_impl", "naive_meet_impl"):
        op(n, None, n, two)
    for n in ("flip", "rev", "dual", "undual"):
        op(n, None, n, one)
    op("flip_subspace", None, "flip_subspace", lambda s: [s.ref(mv(s, "a")), I_], ms="idx")
    if kind != "q":
        for n in ("revm",):
            op(n, None, n, one)
    for n in ("vsdot", "vdot"):
        op(n, None, n, two, res=none)
    op("mag2", None, "mag2", one, res=none)
    op("revc", None, "revc", lambda s: [s.ref(mv(s, "a", C64))], ct=C64)
    op("clone", "std::clone::Clone", "clone", one)
    op("set_by_idx", None, "set_by_idx", lambda s: [mv(s, "a"), I_, x], ms="idx")
    op("get_by_idx", None, "get_by_idx", lambda s: [s.ref(mv(s, "a")), I_], ms="idx", res=none)
    op("storage set_by_idx", "coeff_storage::CoeffStorage", "set_by_idx",
       lambda s: [s.ref(_coeffs(mv(s, "a"))), I_, x], targs=[TS], selfty=storage(kind), ms="idx", res=first)
    op("storage get_by_idx", "coeff_storage::CoeffStorage", "get_by_idx",
       lambda s: [s.ref(_coeffs(mv(s, "a"))), I_], targs=[TS], selfty=storage(kind), ms="idx", res=none)
    for n in ("add", "sub"):
        op("storage " + n, "coeff_storage::CoeffStorage", n,
           lambda s: [s.ref(_coeffs(mv(s, "a"))), s.ref(_coeffs(mv(s, "b")))], targs=[TS], selfty=storage(kind))
    op("scalar_part", None, "scalar_part", one, res=none)
    op("eq", "std::cmp::PartialEq", "eq", two, res=none)
    op("is_zero", "num::Zero", "is_zero", one, res=none)
    op("approx_eq", None, "approx_eq", lambda s: [s.ref(mv(s, "a", F64)), s.ref(mv(s, "b", F64)), rd("prec")], ct=F64,
       res=none)
    op("from_scalar", None, "from_scalar", lambda s: [x])
    for n, tr in (("one", "num::One"), ("zero", "num::Zero"), ("default", "std::default::Default")):
        op(n, tr, n, lambda s: [])
    op("extract_vector", None, "extract_vector", one, res=none)
    op("grade_extract", None, "grade_extract", lambda s: [s.ref(mv(s, "a")), g], ms="g")
    for o in ("array", "sparse"):
        op("grade_extract_as %s" % o, None, "grade_extract_as", lambda s: [s.ref(mv(s, "a")), g], ms="g",
           extra=[storage(o)], out=o)
        op("to_storage_type %s" % o, None, "to_storage_type", one, extra=[storage(o)], out=o)

    def vec(s):
        j = freshk()
        return Arr((N,), (j,), rd("v", j), "vec")

    def vecref(s):
        j2 = freshk()
        return It("arr", Vw(s.ref(vec(s)), (N,), (j2,), (j2,)), False)

    def idx(s):
        j = freshk()
        return It("own", Arr((N,), (j,), tup(T.ifn("ix", j), rd("v", j)), "vec"))

    def idxref(s):
        ref = s.ref(vec(s))
        j2 = freshk()
        return It("own", Arr((N,), (j2,), tup(T.ifn("ix", j2), ref.ext(("ix", (j2,)))), "vec"))
    bd = {"v": (lambda md: md["syms"]["N"],)}
    op("from_vector", None, "from_vector", lambda s: [vec(s)], ms="N", bounds=bd, res=okay)
    op("from_vector_ref", None, "from_vector_ref", lambda s: [vecref(s)], ms="N", bounds=bd, res=okay)
    op("from_indexed_iter", None, "from_indexed_iter", lambda s: [idx(s)], ms="Nx", bounds=bd, funs={"ix": fix},
       res=okay)
    op("from_indexed_iter_ref", None, "from_indexed_iter_ref", lambda s: [idxref(s)], ms="Nx", bounds=bd,
       funs={"ix": fix}, res=okay)
    if kind == "sparse":
        def glist(s):
            j = freshk()
            return s.ref(Arr((G,), (j,), T.ifn("gr", j), "vec"))
        op("grades_extract", None, "grades_extract", lambda s: [s.ref(mv(s, "a")), glist(s)], ms="G", funs={"gr": fgr})
        op("retain_grades", None, "retain_grades", lambda s: [s.ref(mv(s, "a")), glist(s)], ms="G", funs={"gr": fgr},
           res=first)
        pred = lambda: Opq("pred", "keep")
        op("filter_inplace", None, "filter_inplace", lambda s: [s.ref(mv(s, "a")), pred()], res=first)
        op("filtered", None, "filtered", lambda s: [mv(s, "a"), pred()])

        def change(I, st, args):
            # a predicate that also overwrites the coefficient it is shown
            r = args[1]
            v = I.read(st, r)
            k = I.deep(st, args[0])
            I.write(st, r, T.rf("new", k, v))
            return T.mk("ba", "keep", k, v)
        cl = lambda: Opq("pyfun", change)
        op("filter_inplace with a modifying predicate", None, "filter_inplace", lambda s: [s.ref(mv(s, "a")), cl()],
           res=first, funs={"new": fnew})
        op("filtered with a modifying predicate", None, "filtered", lambda s: [mv(s, "a"), cl()],
           funs={"new": fnew})
        op("coeff_count", None, "coeff_count", one, res=none)
        op("to_dense", None, "to_dense", one, out="array")
    if kind == "array":
        op("filter", None, "filter", lambda s: [s.ref(mv(s, "a")), Opq("pred", "keep")])
        op("to_sparse", None, "to_sparse", one, out="sparse")
    if kind != "q":
        for o in ("array", "sparse"):
            op("complexify %s" % o, None, "complexify", lambda s: [s.ref(mv(s, "a", F64))], ct=F64, real=("a",),
               extra=[storage(o, CX64)], out=o)
            cty = mvty(kind, CX64, ("adt", CPX, (AL,)))
            for tl, ct in (("f64", F64), ("Complex64", CX64)):
                op("decomplexify to %s %s" % (tl, o), None, "decomplexify",
                   lambda s, cty=cty: [s.ref(s.mv("a", cty))], selfty=cty, extra=[ct, storage(o, ct)], out=o)
    return out


def _coeffs(v):
    """the storage inside a multivector value"""
    c = [f for f in v.f if isinstance(f, (St, Arr, Mp)) and (not isinstance(f, St) or f.f)]
    if len(c) != 1:
        raise Unsupported("storage field of the multivector")
    return c[0]


def models_for(cx, op, alg, d=4):
    ms = small(cx, alg, d)
    if op.ms == "N":
        return with_len(ms, "N", lambda m: range(0, m["dim"] + 3))
    if op.ms == "Nx":
        return with_len(ms, "N", lambda m: (0, 1, 2, 3, 5, 9))
    if op.ms == "G":
        return with_len(ms, "G", lambda m: (0, 1, 2, 4))
    if op.ms == "g":
        return with_len(ms, "g", lambda m: range(0, m["dim"] + 2))
    if op.ms == "idx":
        return with_len(ms, "idx", lambda m: list(range(0, (1 << m["dim"]) + 2)) + [1 << 62])
    return ms
