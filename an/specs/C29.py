"""C29: panic freedom of the total operations."""
from .fftcommon import *
from .catalog import mvops, models_for
from .C14 import varr, sm
from .C26 import PGA, pmodels, seqs

EXPLAIN = ("every panic site reached while analysing the public operations (bounds checks, unwraps of Option and Result, "
           "explicit panics, slice and shape requirements of the array library, integer overflow of the source's own "
           "arithmetic) is collected from the MIR together with its guarding conditions; a site is reported when its "
           "condition is satisfiable for operands of a declared algebra")
RULE = ("for every operation and storage: no panic condition is satisfiable under the operation's precondition (non-zero "
        "divisor only); fallible constructors return Err instead")
FLOOR = 150


def wide(cx, ms):
    """the given models plus large dimensions (used where conditions need no enumeration)"""
    out = list(ms)
    for d in (31, 32, 33, 62):
        m = dict(ms[0])
        s_ = d // 3
        m.update(syms=dict(m["syms"], m=d - s_, s=s_), masks={"R": 0x5555555555555555 & ((1 << (d - s_)) - 1),
                                                               "I": 0xAAAAAAAAAAAAAAAA & ((1 << (d - s_)) - 1)},
                 dim=d, seed="wide%d.%d" % (cx.seed, d))
        out.append(m)
    return out


def run(cx):
    conf = {"overflow": True}
    sites = [0]

    def panics(s, ms, **kw):
        sites[0] += len(s.I.panics)
        cx.no_panics(s, models=ms, **kw)
    for kind, lbl, new, ty in each(cx):
        for o in mvops(cx, kind, ty):
            with cx.clause("%s, %s" % (o.label, lbl)):
                s = new(conf=conf)
                o.target(s)
                o.run(s)
                alg = algof(s, kind)
                ms = models_for(cx, o, alg, 4)
                if kind != "q":
                    ms = wide(cx, ms) + one_sign(cx, o)
                panics(s, ms, pre=o.pre, **o.kw())
    algebra(cx, panics, conf)
    fast(cx, panics, conf)
    K.kernels(cx, ("wedge", "wmul", "clifft", "clifft_into", "iclifft", "iclifft_into", "iflip"))
    K.kernel_shapes(cx, sm)
    fallible(cx, panics)
    with cx.clause("panic sites examined"):
        cx.notes.append("%d panic conditions collected" % sites[0])
        if sites[0] < 40:
            raise Unsupported("only %d panic conditions were collected" % sites[0])


def one_sign(cx, o):
    """algebras whose generators all have the same square"""
    ms = []
    for d in (5, 6):
        full = (1 << d) - 1
        for lbl, m, r in (("p", d, full), ("n", d, 0), ("z", 0, 0)):
            ms.append({"syms": {"m": m, "s": d - m}, "masks": {"R": r, "I": (full if m else 0) & ~r}, "dim": d,
                       "seed": "%s%d.%d" % (lbl, d, cx.seed)})
    if o.ms in ("N", "Nx"):
        return with_len(ms, "N", lambda m: (0, 1, m["dim"], m["dim"] + 1, 66, 70))
    if o.ms == "G":
        return with_len(ms, "G", lambda m: (0, 3))
    if o.ms == "g":
        return with_len(ms, "g", lambda m: (0, 3, m["dim"], m["dim"] + 1, 64, 70))
    if o.ms == "idx":
        return with_len(ms, "idx", lambda m: (0, 3, (1 << m["dim"]) - 1, 1 << m["dim"], (1 << 64) - 1))
    return ms


def algebra(cx, panics, conf):
    """functions of the algebra type, dimensions up to 63"""
    dms = dim_models(cx)
    for name in ("ac_product_sign", "ac_negated_product_sign", "blade_wedge_product_sign", "blade_geo_product_sign",
                 "index_iter", "blade_label", "blade_label_rev"):
        with cx.clause("%s of an algebra of any dimension" % name):
            s = cx.sess(contracts=False, conf=conf)
            t = s.method(name, AL, "algebra::ClAlgebra")
            d = s.alg["dim"]
            args = [] if name == "index_iter" else [VAR("x", d), VAR("y", d)][:1 if "label" in name else 2]
            s.call(t, args)
            panics(s, dms)
    D = T.SYM("D")
    for name in ("signature", "signaturef", "basis", "basis_sparse"):
        with cx.clause("%s of an algebra of any dimension" % name):
            s = cx.sess(conf=conf)
            t = s.default("algebra::ClBasis", name, AL, [("cst", D)])
            s.call(t, [], extra=[TS] if "basis" in name else [])
            panics(s, [dict(m, syms=dict(m["syms"], D=m["dim"])) for m in dms])


def fast(cx, panics, conf):
    F = fty()
    for par, pl in PAR:
        alg = alg_of(par)
        ms = fmodels(cx, par)
        bd = fbounds(par)
        kw = dict(bounds=bd)
        new = lambda: cx.sess(alg=alg, conf=conf)
        fr = lambda s, n, ty=F: operand(s, frepr(s, n, alg), ty)
        x = rd("x")
        for tr, name in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul")):
            for sp, lt_, rt in spellings(F):
                with cx.clause("%s %s of fast representations, %s non-null dimension" % (name, sp, pl)):
                    s = new()
                    s.call(s.method(name, lt_, "std::ops::" + tr, [rt]), [fr(s, "f", lt_), fr(s, "g", rt)])
                    panics(s, ms, **kw)
        for name in ("flip", "rev", "trace", "ntrace", "mag2", "ifft"):
            with cx.clause("%s of a fast representation, %s non-null dimension" % (name, pl)):
                s = new()
                t = s.method(name, F)
                extra = []
                if name == "ifft":
                    extra = [F64]
                s.call(t, [s.ref(frepr(s, "f", alg))], extra=extra)
                panics(s, ms, **kw)
        for name, tr in (("one", "num::One"), ("zero", "num::Zero")):
            with cx.clause("%s of the fast representations, %s non-null dimension" % (name, pl)):
                s = new()
                s.call(s.method(name, F, tr), [])
                panics(s, ms, **kw)
        for kind in ("array",):
            for tl, ct in (("f64", F64), ("Complex64", CX64)):
                with cx.clause("fft of %s coefficients, %s non-null dimension" % (tl, pl)):
                    s = new()
                    M = mvty(kind, ct)
                    s.call(s.method("fft", M), [s.ref(s.mv("a", M))])
                    panics(s, ms, bounds={"a": (lambda md: 1 << md["dim"],)})


def fallible(cx, panics):
    """functions with an error result, on arrays and sequences of every shape and length"""
    N, R, C, L, W = (T.SYM(x) for x in "NRCLW")
    conf = {"overflow": True, "shapes": True}
    for name, shapes, syms, gen in (("clifft", [(N,)], "N", CX64), ("iclifft", [(R, C)], "RC", None),
                                    ("iclifft_into", [(R, C), (L,)], "RCL", None),
                                    ("imaginary_flip", [(R, C)], "RC", CX64), ("reversal", [(R, C)], "RC", CX64),
                                    ("parity_flip", [(R, C)], "RC", CX64)):
        with cx.clause("%s of an array of any shape" % name):
            s = cx.sess(conf=conf)
            t = s.function("clifft::" + name)
            args = [varr(s, "ad"[i], sh)[0] for i, sh in enumerate(shapes)]
            s.call(t, args, extra=[gen] if gen else [])
            panics(s, sm(*syms), bounds={})
    for par, pl in PAR:
        alg = alg_of(par)
        for name, sh in (("from_array3", (W, R, C)), ("from_array2", (R, C))):
            with cx.clause("%s of an array of any shape, %s non-null dimension" % (name, pl)):
                a = alg if len(sh) == 3 else dict(alg, s=ZERO, dim=alg["m"], proj_mask=ZERO)
                s = cx.sess(alg=a, conf=conf)
                ks = tuple(freshk() for _ in sh)
                s.call(s.method(name, fty()), [Arr(sh, ks, rd("f", *ks), "nd")])
                ms = []
                for m in fmodels(cx, par, 5, null=len(sh) == 3):
                    for q in sm(*("WRC" if len(sh) == 3 else "RC"))[::7]:
                        ms.append(dict(m, syms=dict(m["syms"], **q["syms"]), seed=m["seed"] + q["seed"]))
                panics(s, ms, bounds={})
    for kind, lbl in (("array", "dense storage"), ("sparse", "sparse storage")):
        for name in ("pga_point", "pga_hyperplane", "pga_translation"):
            with cx.clause("%s of a sequence of any length, %s" % (name, lbl)):
                s = cx.sess(alg=PGA, conf=conf)
                s.call(s.method(name, mvty(kind, F64), "pga::PGAMV", [("cst", PGA["m"])]), [seqs(s, N)])
                ms = with_len([m for m in pmodels(cx) if m["dim"] <= 4], "N", lambda m: list(range(0, 8)) + [70])
                panics(s, ms, bounds={"v": (lambda md: md["syms"]["N"],)}, real=("v",))
