"""Analysis sessions: program + interpreter + abstract inputs + result extraction."""
from . import terms as T
from . import models
from .terms import INT, ZERO, ONE, SYM, MASK, add, sub, p2, odd, ite, rd, R0, isn, Unsupported
from .vals import St, En, Arr, Mp, Ref, Vw, Opq, VIte, Hole, freshk, vsubst
from .interp import Interp, State, Diverge

MV = "tclifford::MultivectorBase"
ARRAY = "tclifford::coeff_storage::ArrayStorage"
SPARSE = "tclifford::coeff_storage::SparseStorage"
QST = "tclifford::quaternion::QStorage"
QALG = "tclifford::quaternion::QuaternionAlgebra"
CPX = "tclifford::complexification::Complexification"
EVEN = "tclifford::complexification::Even"
FFTR = "tclifford::fftrepr::FFTRepr"
SIGN = "types::Sign"
TS = ("sym", "T")
AL = ("alg", "A")
USIZE = ("prim", "usize")
F64 = ("prim", "f64")
C64 = ("sym", "C")
CX64 = ("adt", "num_complex::Complex", (F64,))
F32 = ("prim", "f32")
CX32 = ("adt", "num_complex::Complex", (F32,))


class Missing(Exception):
    """a public item the property is about does not exist"""


def storage(kind, t=TS):
    return ("adt", {"array": ARRAY, "sparse": SPARSE, "q": QST}[kind], (t,))


def sign_variants(prog):
    """variant index of each sign, by name"""
    a = prog.adt(SIGN)
    if not a:
        raise Missing("enum Sign")
    d = {v[0]: i for i, v in enumerate(a["variants"])}
    if set(d) != {"Null", "Plus", "Minus"}:
        raise Unsupported("variants of Sign: %s" % sorted(d))
    return d


def err_variant(prog, name):
    a = prog.adt("ClError")
    if not a:
        raise Missing("enum ClError")
    for i, v in enumerate(a["variants"]):
        if v[0] == name:
            return i
    raise Missing("ClError::%s" % name)


class Sess:
    def __init__(self, prog, alg=None, contracts=True, conf=None):
        self.p = prog
        self.I = Interp(prog, conf)
        self.st = State()
        self.alg = alg or plain_alg()
        self.I.mapdim = self.alg["dim"]
        I = self.I

        def algfn(name, fn):
            def ov(I_, st, f, targs, args):
                if targs and targs[0] == AL:
                    return fn(st, args)
                return NotImplemented
            I.overrides["algebra::ClAlgebraBase::" + name] = ov
        for nm in ("dim", "real_mask", "imag_mask", "proj_mask"):
            algfn(nm, lambda st, args, nm=nm: self.alg[nm])
        algfn("axis_name", lambda st, args: T.mk("sf", "axis", args[0]))
        if contracts:
            self.contract_signs()
        from . import contracts as C
        C.register(I)

    def sign(self, null, par):
        """variant index of the sign: Null when null, else Minus when par"""
        v = sign_variants(self.p)
        return ite(null, INT(v["Null"]), ite(par, INT(v["Minus"]), INT(v["Plus"])))

    def contract_signs(self):
        I = self.I

        def ps(neg):
            def ov(I_, st, f, targs, args):
                I_.used_contracts.add("ac_product_sign")
                c = odd(T.ifn("acs", args[0], args[1]))
                return En(SIGN, self.sign(T.FALSE, T.bnot(c) if neg else c), {})
            return ov
        I.overrides["algebra::ClAlgebra::ac_product_sign"] = ps(False)
        I.overrides["algebra::ClAlgebra::ac_negated_product_sign"] = ps(True)

    # ------------------------------------------------------------- lookup
    def method(self, name, self_ty, trait=None, trait_args=None):
        """body of an inherent or trait method for a concrete self type -> (key, body, env)"""
        if trait:
            r = self.p.find_impl(trait, [self_ty] + list(trait_args or []))
            if r:
                im, env = r
                it = im["_items"].get(name)
                if it and it.get("key") in self.p.bodies:
                    return it["key"], self.p.bodies[it["key"]], env
            raise Missing("%s::%s for %s" % (trait, name, tname(self_ty)))
        for im in self.p.impls:
            if im.get("trait"):
                continue
            it = im["_items"].get(name)
            if not it or it.get("key") not in self.p.bodies:
                continue
            env = {}
            if self.p.unify(self.p.ty(im["self"]), self_ty, env):
                return it["key"], self.p.bodies[it["key"]], env
        raise Missing("%s on %s" % (name, tname(self_ty)))

    def default(self, trait, name, self_ty, trait_args=()):
        """default body of a trait method"""
        for k, b in self.p.bodies.items():
            if b["path"] == trait + "::" + name and b["kind"] == "AssocFn":
                return k, b, dict(zip(b["generics"], [self_ty] + list(trait_args)))
        raise Missing("%s::%s" % (trait, name))

    def function(self, path):
        for k, b in self.p.bodies.items():
            if b["path"] == path and b["kind"] in ("Fn", "AssocFn"):
                return k, b, {}
        raise Missing("function %s" % path)

    def call(self, target, args, extra=()):
        """run target (key, body, env) on abstract args; extra = generics of the method itself"""
        key, b, env = target
        env = dict(env)
        own = [g for g in b["generics"] if g not in env]
        env.update(zip(own, extra))
        return self.I.inline(self.st, key, b, env, list(args), b.get("span"))

    def ref(self, v):
        return self.I.tmpref(self.st, v)

    # ------------------------------------------------------------- inputs
    def zero_mv(self, ty):
        t = self.method("default", ty, "std::default::Default")
        return self.call(t, [])

    def mv(self, name, ty, dim=None):
        """abstract multivector whose coefficients are the free reads name[k]"""
        z = self.zero_mv(ty)
        n = [0]
        dim = dim if dim is not None else self.alg["dim"]

        def go(v):
            if isinstance(v, St):
                if v.kind == "arr":
                    n[0] += 1
                    return St("arr", [rd(name, INT(i)) for i in range(len(v.f))])
                return St(v.kind, [go(x) for x in v.f])
            if isinstance(v, Arr):
                n[0] += 1
                return Arr(v.shape, v.ks, rd(name, *v.ks), v.kind)
            if isinstance(v, Mp):
                n[0] += 1
                return Mp(v.k, rd(name, v.k))
            return v
        r = go(z)
        if n[0] != 1:
            raise Unsupported("coefficient container of %s not recognised" % tname(ty))
        models.RDSUP[name] = dim
        return r

    # ------------------------------------------------------------- results
    def content(self, v, k):
        """coefficient of blade k in an abstract multivector"""
        out = []

        def go(x):
            if isinstance(x, Ref):
                return go(self.I.read(self.st, x))
            if isinstance(x, VIte):
                a, b = self.content(x.x, k), self.content(x.y, k)
                out.append(ite(x.c, a, b))
                return
            if isinstance(x, St):
                if x.kind == "arr":
                    from .interp import pick
                    out.append(pick(x.f, k))
                    return
                for y in x.f:
                    go(y)
            elif isinstance(x, Arr):
                out.append(x.at((k,)))
            elif isinstance(x, Mp):
                out.append(x.at(k))
            elif not isn(x):
                raise Unsupported("result %s%s" % (type(x).__name__, " (%s)" % x.why if isinstance(x, Hole) else ""))
        go(v)
        if len(out) != 1:
            raise Unsupported("coefficient container of the result not recognised")
        return out[0]

    def deep(self, v):
        return self.I.deep(self.st, v)


def tname(t):
    if t[0] == "adt":
        return t[1].split("::")[-1] + ("<%s>" % ", ".join(tname(a) for a in t[2]) if t[2] else "")
    if t[0] == "ref":
        return "&" + tname(t[1])
    if t[0] in ("sym", "alg", "param", "prim"):
        return t[1]
    return str(t)


def plain_alg():
    m, s = SYM("m"), SYM("s")
    return {"m": m, "s": s, "dim": add(m, s), "real_mask": MASK("R", m), "imag_mask": MASK("I", m),
            "proj_mask": sub(p2(add(m, s)), p2(m))}


def mvty(kind, t=TS, a=AL):
    return ("adt", MV, (t, a, storage(kind, t)))
