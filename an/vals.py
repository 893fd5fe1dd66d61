"""Abstract values other than scalar terms."""
from . import terms as T
from .terms import N, Unsupported, ite, subst, isn


class St:
    """struct / tuple"""
    __slots__ = ("kind", "f")

    def __init__(self, kind, f):
        self.kind = kind
        self.f = tuple(f)

    def __repr__(self):
        return "%s(%s)" % (self.kind, ", ".join(map(repr, self.f)))


class En:
    """enum: d = variant index term, p = {variant: payload tuple}"""
    __slots__ = ("key", "d", "p")

    def __init__(self, key, d, p):
        self.key = key
        self.d = d
        self.p = p

    def __repr__(self):
        return "En(%s,%r,%r)" % (self.key.split("::")[-1], self.d, self.p)


class Arr:
    """array-like container: shape, bound index variables, element body"""
    __slots__ = ("shape", "ks", "body", "kind")

    def __init__(self, shape, ks, body, kind="nd"):
        self.shape = tuple(shape)
        self.ks = tuple(ks)
        self.body = body
        self.kind = kind

    def at(self, idx):
        return vsubst(self.body, dict(zip(self.ks, idx)))

    def __repr__(self):
        return "Arr[%s](%s -> %r)" % (", ".join(map(repr, self.shape)), ",".join(map(repr, self.ks)), self.body)


class Mp:
    """map usize -> value; a key is present iff its value is non-zero"""
    __slots__ = ("k", "body")

    def __init__(self, k, body):
        self.k = k
        self.body = body

    def at(self, i):
        return vsubst(self.body, {self.k: i})

    def __repr__(self):
        return "Map(%r -> %r)" % (self.k, self.body)


class Ref:
    __slots__ = ("cell", "proj")

    def __init__(self, cell, proj=()):
        self.cell = cell
        self.proj = tuple(proj)

    def ext(self, *p):
        return Ref(self.cell, self.proj + tuple(p))

    def __repr__(self):
        return "&%s%s" % (self.cell, list(self.proj) if self.proj else "")


class Vw:
    """view of a container at path `base`; index exprs over view vars"""
    __slots__ = ("base", "shape", "vs", "ix")

    def __init__(self, base, shape, vs, ix):
        self.base = base
        self.shape = tuple(shape)
        self.vs = tuple(vs)
        self.ix = tuple(ix)

    def at(self, idx):
        m = dict(zip(self.vs, idx))
        return self.base.ext(("ix", tuple(subst(e, m) for e in self.ix)))

    def __repr__(self):
        return "View(%r %s)" % (self.base, list(self.shape))


class It:
    """iterator expression tree"""
    __slots__ = ("k", "a")

    def __init__(self, k, *a):
        self.k = k
        self.a = a

    def __repr__(self):
        return "It.%s%r" % (self.k, self.a)


class Clo:
    __slots__ = ("key", "env", "up")

    def __init__(self, key, env, up):
        self.key = key
        self.env = env
        self.up = tuple(up)

    def __repr__(self):
        return "Clo(%s)" % self.key


class FnV:
    __slots__ = ("fn", "env")

    def __init__(self, fn, env):
        self.fn = fn
        self.env = env

    def __repr__(self):
        return "Fn(%s)" % (self.fn.get("path"),)


class Opq:
    """opaque value (formatter, argument bundles, callbacks supplied by the caller)"""
    __slots__ = ("name", "a")

    def __init__(self, name, *a):
        self.name = name
        self.a = a

    def __repr__(self):
        return "Opq(%s%s)" % (self.name, list(self.a) if self.a else "")


class VIte:
    """gated merge of values of different shape"""
    __slots__ = ("c", "x", "y")

    def __init__(self, c, x, y):
        self.c = c
        self.x = x
        self.y = y

    def __repr__(self):
        return "(%r ? %r : %r)" % (self.c, self.x, self.y)


class Hole:
    """value that must not be read"""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "Hole(%s)" % self.why


UNIT = St("tup", ())


def tup(*f):
    return St("tup", f)


OPT = "core::option::Option"
RES = "core::result::Result"


def some(v):
    return En(OPT, T.ONE, {1: (v,)})


NONE = En(OPT, T.ZERO, {})


def ok(v):
    return En(RES, T.ZERO, {0: (v,)})


def err(v):
    return En(RES, T.ONE, {1: (v,)})


_kc = [0]


def freshk():
    _kc[0] += 1
    return T.VAR("K%d" % _kc[0], T.INT(64))


def vsubst(v, m):
    if isn(v):
        return subst(v, m)
    if isinstance(v, St):
        return St(v.kind, [vsubst(x, m) for x in v.f])
    if isinstance(v, En):
        return En(v.key, subst(v.d, m), {k: tuple(vsubst(x, m) for x in p) for k, p in v.p.items()})
    if isinstance(v, Arr):
        return Arr([subst(s, m) for s in v.shape], v.ks, vsubst(v.body, m), v.kind)
    if isinstance(v, Mp):
        return Mp(v.k, vsubst(v.body, m))
    if isinstance(v, Ref):
        return Ref(v.cell, [_psubst(p, m) for p in v.proj])
    if isinstance(v, Vw):
        return Vw(vsubst(v.base, m), [subst(s, m) for s in v.shape], v.vs, [subst(s, m) for s in v.ix])
    if isinstance(v, It):
        return It(v.k, *[vsubst(x, m) if not isinstance(x, (str, int, tuple, list, type(None))) else
                         (tuple(vsubst(y, m) for y in x) if isinstance(x, tuple) and all(isn(y) for y in x) else x)
                         for x in v.a])
    if isinstance(v, Clo):
        return Clo(v.key, v.env, [vsubst(x, m) for x in v.up])
    if isinstance(v, (FnV, Hole)):
        return v
    if isinstance(v, VIte):
        return merge(subst(v.c, m), vsubst(v.x, m), vsubst(v.y, m))
    if isinstance(v, Opq):
        return Opq(v.name, *[vsubst(x, m) if isn(x) or isinstance(x, (St, En, Arr, Ref, Opq)) else x for x in v.a])
    raise Unsupported("subst in %r" % (type(v),))


def _psubst(p, m):
    if isinstance(p, tuple) and p[0] == "ix":
        return ("ix", tuple(subst(i, m) for i in p[1]))
    return p


def veq(a, b):
    """structural identity of abstract values"""
    if a is b:
        return True
    if isn(a) or isn(b):
        return a is b
    if type(a) is not type(b):
        return False
    if isinstance(a, St):
        return a.kind == b.kind and len(a.f) == len(b.f) and all(veq(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, En):
        return a.key == b.key and a.d is b.d and set(a.p) == set(b.p) and \
            all(len(a.p[k]) == len(b.p[k]) and all(veq(x, y) for x, y in zip(a.p[k], b.p[k])) for k in a.p)
    if isinstance(a, Arr):
        if a.shape != b.shape or len(a.ks) != len(b.ks):
            return False
        if a.ks != b.ks:
            return veq(a.body, vsubst(b.body, dict(zip(b.ks, a.ks))))
        return veq(a.body, b.body)
    if isinstance(a, Mp):
        return veq(a.body, vsubst(b.body, {b.k: a.k}))
    if isinstance(a, Ref):
        return a.cell == b.cell and a.proj == b.proj
    if isinstance(a, Vw):
        return veq(a.base, b.base) and a.shape == b.shape and \
            a.ix == tuple(subst(s, dict(zip(b.vs, a.vs))) for s in b.ix)
    if isinstance(a, It):
        return a.k == b.k and len(a.a) == len(b.a) and all(
            (x == y) if isinstance(x, (str, int, tuple, list, type(None))) else veq(x, y) for x, y in zip(a.a, b.a))
    if isinstance(a, Clo):
        return a.key == b.key and len(a.up) == len(b.up) and all(veq(x, y) for x, y in zip(a.up, b.up))
    if isinstance(a, FnV):
        return a.fn is b.fn
    if isinstance(a, VIte):
        return a.c is b.c and veq(a.x, b.x) and veq(a.y, b.y)
    if isinstance(a, Opq):
        return a.name == b.name and len(a.a) == len(b.a) and all(
            veq(x, y) if not isinstance(x, (str, int, tuple, list, type(None))) else x == y for x, y in zip(a.a, b.a))
    return False


def merge(c, a, b):
    """value that is a when c holds, else b"""
    if c is T.TRUE:
        return a
    if c is T.FALSE:
        return b
    if veq(a, b):
        return a
    if isinstance(a, VIte) and a.c is c:
        a = a.x
    if isinstance(b, VIte) and b.c is c:
        b = b.y
    if isn(a) and isn(b):
        if T.sort(a) != T.sort(b):
            return VIte(c, a, b)
        return ite(c, a, b)
    if isinstance(a, Arr) and isinstance(b, St) and b.kind == "arr" and b.f and all(isn(x) and T.sort(x) == "r" for x in b.f):
        k = freshk()
        b = Arr((T.INT(len(b.f)),), (k,), T.rtab(k, list(b.f)), "arr")
    elif isinstance(b, Arr) and isinstance(a, St) and a.kind == "arr" and a.f and all(isn(x) and T.sort(x) == "r" for x in a.f):
        k = freshk()
        a = Arr((T.INT(len(a.f)),), (k,), T.rtab(k, list(a.f)), "arr")
    if type(a) is not type(b) or isinstance(a, (VIte, Hole, FnV)):
        return VIte(c, a, b)
    if isinstance(a, St):
        if a.kind != b.kind or len(a.f) != len(b.f):
            return VIte(c, a, b)
        return St(a.kind, [merge(c, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, En):
        if a.key != b.key:
            return VIte(c, a, b)
        p = {}
        for k in set(a.p) | set(b.p):
            if k in a.p and k in b.p:
                p[k] = tuple(merge(c, x, y) for x, y in zip(a.p[k], b.p[k]))
            else:
                p[k] = a.p.get(k) or b.p.get(k) or ()
        return En(a.key, ite(c, a.d, b.d), p)
    if isinstance(a, Arr):
        if len(a.shape) != len(b.shape):
            return VIte(c, a, b)
        bb = vsubst(b.body, dict(zip(b.ks, a.ks))) if a.ks != b.ks else b.body
        return Arr([ite(c, x, y) for x, y in zip(a.shape, b.shape)], a.ks, merge(c, a.body, bb), a.kind)
    if isinstance(a, Mp):
        bb = vsubst(b.body, {b.k: a.k}) if a.k is not b.k else b.body
        return Mp(a.k, merge(c, a.body, bb))
    if isinstance(a, Clo) and a.key == b.key:
        return Clo(a.key, a.env, [merge(c, x, y) for x, y in zip(a.up, b.up)])
    if isinstance(a, Ref) and a.cell == b.cell and len(a.proj) == len(b.proj):
        out = []
        for x, y in zip(a.proj, b.proj):
            if x == y:
                out.append(x)
            elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == "ix" and y[0] == "ix":
                out.append(("ix", tuple(ite(c, i, j) for i, j in zip(x[1], y[1]))))
            else:
                return VIte(c, a, b)
        return Ref(a.cell, out)
    if isinstance(a, Ref):
        return VIte(c, a, b)
    if isinstance(a, It) and a.k == b.k and len(a.a) == len(b.a):
        try:
            return It(a.k, *[x if (isinstance(x, (str, int, tuple, list, type(None))) and x == y)
                             else _mergeit(c, x, y) for x, y in zip(a.a, b.a)])
        except Unsupported:
            return VIte(c, a, b)
    return VIte(c, a, b)


def _mergeit(c, x, y):
    if isinstance(x, (str, int, tuple, list, type(None))):
        raise Unsupported("iterator merge")
    return merge(c, x, y)
