"""C33: the padded algebra behind the inverse transform."""
from .fftcommon import *

EXPLAIN = ("the algebra type is read off the parameter of the conversion back to the original algebra; its descriptor "
           "functions are derived from the MIR in terms of the descriptor of an arbitrary algebra with an even or odd "
           "number of non-null generators (arbitrary masks, null generators and axis names)")
RULE = ("even m = p+q: same dimension, masks, counts and names; odd m: one more +1 generator at position m, the null "
        "generators move up by one, dim' = dim+1, names of the others are the original ones")
FLOOR = 18
BOUNDS = ("any signature; compared up to 9 generators, both parities")
BEYOND = ("one test, two signatures; conversions are only seen through the round trip of fft and ifft")


def padded(s):
    """the one-parameter algebra type that multivectors are converted back from"""
    out = set()
    for im in s.p.impls:
        if (im.get("trait") or "").endswith("ClAlgebraBase"):
            ty = im["_self"] if "_self" in im else s.p.ty(im["self"])
            if ty[0] == "adt" and len(ty[2]) == 1:
                out.add(ty[1])
    key, b, env = s.method("complexify", mvty("array", F64))
    r = s.p.subst(s.p.ty(b["body"]["locals"][0]), env)
    out.discard(r[2][1][1])
    if len(out) != 1:
        raise Unsupported("padded algebra not recognised: %s" % sorted(out))
    return ("adt", out.pop(), (AL,))


def run(cx):
    for par, pl in PAR:
        alg = alg_of(par)
        ms = fmodels(cx, par, maxdim=9, maxh=4, maxs=4)
        R, I, P, m, s_ = alg["real_mask"], alg["imag_mask"], alg["proj_mask"], alg["m"], alg["s"]
        new = p2(m) if par else ZERO
        R2 = or_(R, new)
        for fn, want in (("dim", add(alg["dim"], INT(par))), ("real_mask", R2), ("imag_mask", I),
                         ("proj_mask", scale(P, 1 + par)), ("real_dim", add(pc(R), INT(par))), ("imag_dim", pc(I)),
                         ("proj_dim", s_)):
            with cx.clause("%s, %s non-null dimension" % (fn, pl)):
                s = cx.sess(alg=alg)
                t, r = value(s, padded(s), fn)
                cx.equal("%s of the padded algebra" % fn, r, want, [], models=ms, where=where(t))
                cx.no_panics(s, models=ms)
        with cx.clause("axis_name, %s non-null dimension" % pl):
            s = cx.sess(alg=alg)
            n = NVAR("n", add(alg["dim"], INT(par)))
            t, r = value(s, padded(s), "axis_name", [n])
            ax = lambda x: T.mk("sf", "axis", x)
            kw = dict(models=ms, where=where(t), budget=10 ** 8)
            if par:
                cx.equal("axis_name(n) of the padded algebra, original generators", r,
                         ite(lt(n, m), ax(n), ax(sub(n, ONE))), [n], cond=bnot(eq(n, m)), **kw)
            else:
                cx.equal("axis_name(n) of the padded algebra", r, ax(n), [n], **kw)
            cx.no_panics(s, models=ms)
        with cx.clause("conversion back, %s non-null dimension" % pl):
            s = cx.sess(alg=alg)
            E = padded(s)
            ty = ("adt", MV, (CX64, E, storage("array", CX64)))
            t = back(s, ty)
            r = s.call(t, [s.mv("a", ty, add(alg["dim"], INT(par)))])
            k = VAR("k", alg["dim"])
            src = k
            if par:
                low = and_(k, sub(p2(m), ONE))
                src = add(low, scale(sub(k, low), 2))
            bd = {"a": (lambda md, par=par: 1 << (md["dim"] + par),)}
            wide = [{"syms": {"h": h_, "s": n_ - 2 * h_ - par}, "masks": {"R": 1, "I": (1 << 2 * h_ + par) - 2} if h_ + par
                     else {"R": 0, "I": 0}, "dim": n_, "seed": "w%d.%d.%d" % (cx.seed, n_, h_)}
                    for n_ in (10, 11) for h_ in (0, 1, 4)]
            cx.equal("original(a)[k]", s.content(r, k), rd("a", src), [k],
                     models=[q for q in ms if q["dim"] <= 7] + wide, bounds=bd, where=where(t), budget=10 ** 8)
            cx.no_panics(s, models=[q for q in ms if q["dim"] <= 4], bounds=bd)


def value(s, A, fn, args=()):
    try:
        t = s.method(fn, A, "algebra::ClAlgebraBase")
    except Missing:
        t = s.default("algebra::ClAlgebraBase", fn, A)
    return t, s.deep(s.call(t, list(args)))


def back(s, ty):
    """the inherent method of padded multivectors that returns one of the original algebra"""
    out = []
    for im in s.p.impls:
        if im.get("trait"):
            continue
        for nm, it in im["_items"].items():
            b = s.p.bodies.get(it.get("key"))
            if not b or len(b["inputs"]) != 1:
                continue
            try:
                k, bb, env = s.method(nm, ty)
            except (Missing, Unsupported):
                continue
            if k != it["key"]:
                continue
            r = s.p.subst(s.p.ty(bb["body"]["locals"][0]), env)
            if r[0] == "adt" and r[1] == MV and r[2][1] == AL:
                out.append((k, bb, env))
    if len(out) != 1:
        raise Unsupported("conversion back to the original algebra not recognised")
    return out[0]
