"""Value-flow analysis of MIR bodies.

Every body is analysed once per calling context: control-flow merges become
gated values, loops become closed forms over index binders, calls are replaced
by the summary of the callee.  No path is enumerated and no loop is unrolled;
a construct without a transfer function raises Unsupported and the clause that
needed it stays undecided.
"""
import struct
from fractions import Fraction as Fr

from . import terms as T
from .terms import (INT, ZERO, ONE, TRUE, FALSE, R0, R1, isn, mk, add, sub, mul, scale, xor, or_, and_, not_, p2,
                    shl, shr, div, rem, eq, lt, le, band, bor, bnot, bxor, odd, freevars, subst, rc, rd, radd,
                    rsub, rmul, rneg, rinv, rf, rite, ite, isz, nonneg, Unsupported)
from .vals import (St, En, Arr, Mp, Ref, Vw, It, Clo, FnV, Opq, VIte, Hole, UNIT, tup, some, NONE, freshk, vsubst,
                   veq, merge, OPT, RES)
from . import elim
from .mir import Prog


class Diverge(Exception):
    """every continuation of the current path panics"""


class FoundDriver(Exception):
    def __init__(self, ref):
        self.ref = ref


class Fact:
    pass


class State:
    __slots__ = ("cells", "facts")

    def __init__(self, cells=None, facts=()):
        self.cells = cells if cells is not None else {}
        self.facts = tuple(facts)

    def copy(self):
        return State(dict(self.cells), self.facts)

    def become(self, o):
        self.cells = o.cells
        self.facts = o.facts

    def assume(self, c):
        if c is TRUE:
            return
        if c is FALSE:
            raise Diverge()
        new = [x for x in elim.conjuncts(c) if x not in self.facts]
        self.facts = self.facts + tuple(new)


def simp(c, facts):
    """simplify a condition under known facts"""
    if c is TRUE or c is FALSE or not facts:
        return c
    fs = set(facts)
    sub_ = {}
    ub = {}
    for f in facts:
        if f.op == "eq":
            a, b = f.a
            if b.op == "int" and a.op in ("sym", "var", "nv", "lv"):
                sub_[a] = b
            elif a.op == "int" and b.op in ("sym", "var", "nv", "lv"):
                sub_[b] = a
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in fs:
            r = TRUE
        elif bnot(x) in fs:
            r = FALSE
        elif x.op == "band":
            r = band(*[go(y) for y in x.a[0]])
        elif x.op == "bor":
            r = bor(*[go(y) for y in x.a[0]])
        elif x.op == "bnot":
            r = bnot(go(x.a[0]))
        elif x.op == "ba" and x.a[0] == "xor":
            r = bxor(*[go(y) for y in x.a[1:]])
        elif x.op == "eq":
            r = eq_facts(x, facts)
        elif x.op == "lt":
            r = lt_facts(x, facts)
        else:
            r = x
        if sub_ and r.op not in ("bool",):
            # an index of an enclosing loop keeps its name and bound
            y = subst(r, {**{v: v for v in T.freevars(r) if v.op in ("var", "nv")}, **sub_})
            if y is not r:
                r = y
        memo[x] = r
        return r
    return go(c)


def lt_facts(x, facts):
    a, b = x.a
    d = sub(b, a)          # want d >= 1
    for f in facts:
        if f.op == "lt":
            k = sub(f.a[1], f.a[0])      # k >= 1
            if nonneg(sub(d, k)):
                return TRUE
            if nonneg(add(sub(k, ONE), d, INT(0))) and False:
                return x
            # a >= b follows from  f : d <= 1 - k ...  i.e. -d >= k-1
            if nonneg(sub(scale(d, -1), sub(k, ONE))):
                return FALSE
        elif f.op == "bnot" and f.a[0].op == "lt":
            g = f.a[0]
            k = sub(g.a[0], g.a[1])      # k >= 0
            if nonneg(sub(sub(d, k), ONE)):
                return TRUE
            if nonneg(sub(scale(d, -1), k)):
                return FALSE
        elif f.op == "eq":
            k = sub(f.a[0], f.a[1])      # k == 0
            for s in (k, scale(k, -1)):
                if nonneg(sub(sub(d, s), ONE)):
                    return TRUE
                if nonneg(sub(scale(d, -1), s)):
                    return FALSE
    return x


def eq_facts(x, facts):
    a, b = x.a
    for f in facts:
        if f.op == "lt":
            k = sub(f.a[1], f.a[0])      # k >= 1
            for d in (sub(a, b), sub(b, a)):
                if nonneg(sub(d, k)):
                    return FALSE
        elif f.op == "eq":
            k = sub(f.a[0], f.a[1])
            for s in (k, scale(k, -1)):
                for d in (sub(a, b), sub(b, a)):
                    e = sub(d, s)
                    if T.isint(e):
                        return TRUE if e is ZERO else FALSE
        elif f.op == "bnot" and f.a[0].op == "lt":
            g = f.a[0]
            k = sub(g.a[0], g.a[1])      # k >= 0
            for d in (sub(a, b), sub(b, a)):
                if nonneg(sub(sub(d, k), ONE)):
                    return FALSE
    return x


class Frame:
    __slots__ = ("id", "key", "body", "env", "fn", "loops")

    def __init__(self, i, key, body, env, fn):
        self.id = i
        self.key = key
        self.body = body
        self.env = env
        self.fn = fn


class LoopCtx:
    def __init__(self, frame, ref, it, mode):
        self.frame = frame
        self.ref = ref
        self.it = it
        self.mode = mode
        self.binders = []
        self.pulled = False
        self.ord = None
        self.count = None
        self.pos = None        # terms whose lexicographic order is the order of the iterations
        self.single = False    # visits one item written out in the source
        self.more = {}         # conditions true in every iteration but the last


UINT_W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}
INT_W = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}


class Interp:
    def __init__(self, prog: Prog, conf=None):
        self.p = prog
        self.nf = 0
        self.nc = 0
        self.loops = []
        self.stack = []
        self.panics = []
        self.reccalls = []
        self.required = set()
        self.events = []
        self.overrides = {}
        self.contracts = {}
        self.used_contracts = set()
        self.analysed = set()
        self.alg = {}
        self.conf = conf or {}
        self.mapdim = None
        self.record_panics = True
        self.nloops = 0
        self.ncalls = 0
        self.depth = 0
        self._constcache = {}

    # ------------------------------------------------------------ memory
    def newcell(self, st, v, tag="t"):
        self.nc += 1
        c = (tag, self.nc)
        st.cells[c] = v
        return c

    def tmpref(self, st, v):
        return Ref(self.newcell(st, v))

    def read(self, st, r):
        if isinstance(r, VIte):
            return merge(r.c, self.read(st, r.x), self.read(st, r.y))
        if not isinstance(r, Ref):
            raise Unsupported("read through %r" % (type(r).__name__,))
        if r.cell not in st.cells:
            raise Unsupported("read of an uninitialised location %s" % (r.cell,))
        v = st.cells[r.cell]
        for p in r.proj:
            v = self.step(st, v, p)
        return v

    def step(self, st, v, p):
        if isinstance(v, VIte):
            return merge(v.c, self.step(st, v.x, p), self.step(st, v.y, p))
        if isinstance(v, Hole):
            raise Unsupported("read of a value that depends on loop order (%s)" % v.why)
        k = p[0]
        if k == "f":
            if isinstance(v, St):
                if p[1] < len(v.f):
                    return v.f[p[1]]
                raise Unsupported("field %d of %s" % (p[1], v.kind))
            if isinstance(v, Clo):
                return v.up[p[1]]
            if isn(v) and T.sort(v) == "r":
                return rf("re" if p[1] == 0 else "im", v)
            if isinstance(v, En):
                raise Unsupported("field of enum without downcast")
            if isinstance(v, (It, Vw, Arr, Mp, Opq)):
                raise Unsupported("field of opaque library value")
            return v
        if k == "d":
            if isinstance(v, En):
                if p[1] not in v.p:
                    pl = self.variant_default(v, p[1])
                    return St("variant", pl)
                return St("variant", v.p[p[1]])
            raise Unsupported("downcast of %r" % type(v).__name__)
        if k == "ix":
            return self.index(st, v, p[1])
        raise Unsupported("projection %r" % (p,))

    def variant_default(self, v, i):
        raise Unsupported("payload of variant %d never constructed in %s" % (i, v.key))

    def index(self, st, v, idx):
        if isinstance(v, VIte):
            return merge(v.c, self.index(st, v.x, idx), self.index(st, v.y, idx))
        if isinstance(v, Arr):
            if len(idx) == 1 and len(v.ks) > 1:
                # nested view of the outer axis is not used by this code base
                raise Unsupported("partial index")
            return v.at(idx)
        if isinstance(v, Mp):
            return v.at(idx[0])
        if isinstance(v, St) and v.kind == "arr":
            return pick(v.f, idx[0])
        if isinstance(v, Vw):
            return self.read(st, v.at(idx))
        if isinstance(v, Ref):
            return self.index(st, self.read(st, v), idx)
        if isinstance(v, Hole):
            raise Unsupported("read of a value that depends on loop order (%s)" % v.why)
        raise Unsupported("index into %s" % type(v).__name__)

    def write(self, st, r, val):
        if isinstance(r, VIte):
            old = self.read(st, r.x)
            self.write(st, r.x, merge(r.c, val, old))
            old = self.read(st, r.y)
            self.write(st, r.y, merge(r.c, old, val))
            return
        if not r.proj:
            st.cells[r.cell] = val
            return
        if r.cell not in st.cells:
            # field-wise initialisation
            st.cells[r.cell] = St("partial", ())
        root = st.cells[r.cell]
        st.cells[r.cell] = self.upd(st, root, r.proj, val)

    def upd(self, st, v, proj, val):
        if not proj:
            return val
        p, rest = proj[0], proj[1:]
        if isinstance(v, VIte):
            return merge(v.c, self.upd(st, v.x, proj, val), self.upd(st, v.y, proj, val))
        if p[0] == "f":
            if isinstance(v, St):
                f = list(v.f)
                while len(f) <= p[1]:
                    f.append(Hole("uninitialised field"))
                f[p[1]] = self.upd(st, f[p[1]], rest, val)
                return St(v.kind, f)
            if isinstance(v, Clo):
                f = list(v.up)
                f[p[1]] = self.upd(st, f[p[1]], rest, val)
                return Clo(v.key, v.env, f)
            if isn(v) and T.sort(v) == "r" and not rest:
                i = rc(0, 1)
                if p[1] == 0:
                    return radd(val, rmul(i, rf("im", v)))
                return radd(rf("re", v), rmul(i, val))
            raise Unsupported("write to field of %s" % type(v).__name__)
        if p[0] == "d":
            if isinstance(v, En):
                s = self.upd(st, St("variant", v.p.get(p[1], ())), rest, val)
                q = dict(v.p)
                q[p[1]] = s.f
                return En(v.key, v.d, q)
            raise Unsupported("write through downcast of %s" % type(v).__name__)
        if p[0] == "ix":
            if isinstance(v, Arr):
                new = self.upd(st, v.at(p[1]), rest, val) if rest else val
                c = band(*[eq(k, i) for k, i in zip(v.ks, p[1])])
                return Arr(v.shape, v.ks, merge(c, new, v.body), v.kind)
            if isinstance(v, Mp):
                new = self.upd(st, v.at(p[1][0]), rest, val) if rest else val
                return Mp(v.k, merge(eq(v.k, p[1][0]), new, v.body))
            if isinstance(v, St) and v.kind == "arr":
                i = p[1][0]
                out = []
                for j, x in enumerate(v.f):
                    c = eq(i, INT(j))
                    if c is FALSE:
                        out.append(x)
                    else:
                        out.append(merge(c, self.upd(st, x, rest, val), x))
                return St("arr", out)
            if isinstance(v, Vw):
                self.write(st, v.at(p[1]).ext(*rest), val)
                return v
            raise Unsupported("indexed write to %s" % type(v).__name__)
        raise Unsupported("write projection %r" % (p,))

    def place(self, fr, st, pl):
        """place -> Ref (or gated refs), following dereferences"""
        r = Ref((fr.id, pl[0]))
        for q in pl[1]:
            if q == "*":
                v = self.read(st, r)
                r = self._deref(r, v)
            else:
                k = q[0]
                if k == "f":
                    r = self._ext(r, ("f", q[1]))
                elif k == "i":
                    i = self.read(st, Ref((fr.id, q[1])))
                    r = self._ext(r, ("ix", (i,)))
                elif k == "ci":
                    if len(q) > 3 and q[3]:
                        v = self.read(st, r)
                        n = self.length(st, v)
                        r = self._ext(r, ("ix", (sub(n, INT(q[1])),)))
                    else:
                        r = self._ext(r, ("ix", (INT(q[1]),)))
                elif k == "d":
                    r = self._ext(r, ("d", q[1]))
                else:
                    raise Unsupported("place projection %r" % (q,))
        return r

    def _deref(self, r, v):
        if isinstance(v, Ref):
            return v
        if isinstance(v, VIte):
            x, y = self._deref(None, v.x), self._deref(None, v.y)
            if x is None or y is None:
                if r is None:
                    return None
                return r
            return VIte(v.c, x, y)
        if isinstance(v, Hole):
            raise Unsupported("dereference of a value that depends on loop order (%s)" % v.why)
        return r

    def _ext(self, r, p):
        if isinstance(r, VIte):
            return VIte(r.c, self._ext(r.x, p), self._ext(r.y, p))
        return r.ext(p)

    def length(self, st, v):
        if isinstance(v, Ref):
            v = self.read(st, v)
        if isinstance(v, Arr):
            return v.shape[0]
        if isinstance(v, Vw):
            return v.shape[0]
        if isinstance(v, St) and v.kind == "arr":
            return INT(len(v.f))
        if isinstance(v, VIte):
            return ite(v.c, self.length(st, v.x), self.length(st, v.y))
        raise Unsupported("length of %s" % type(v).__name__)

    # ----------------------------------------------------------- operands
    def operand(self, fr, st, o):
        if "p" in o:
            r = self.place(fr, st, o["p"])
            v = self.read(st, r)
            return v
        if "c" in o:
            return self.const(fr, st, o["c"])
        if "rt" in o:
            return FALSE
        raise Unsupported("operand %r" % (list(o),))

    def const(self, fr, st, c):
        if "fn" in c:
            return FnV(c["fn"], fr.env)
        ty = self.p.subst(self.p.ty(c["ty"]), fr.env)
        if "promoted" in c:
            key = c["def"]
            return self.const_body(st, fr, key, c["promoted"], c)
        if "tc" in c:
            if "cval" in c["tc"]:
                return INT(int(c["tc"]["cval"]))
            n = c["tc"].get("cparam")
            t = fr.env.get(n)
            if t and t[0] == "cst":
                return t[1]
            raise Unsupported("const parameter %s" % (c,))
        if "v" in c and not ("def" in c and "opaque" in c["v"]):
            return self.constval(ty, c["v"], fr)
        if "def" in c:
            return self.const_item(st, fr, c, ty)
        raise Unsupported("constant %r" % (c,))

    def const_item(self, st, fr, c, ty):
        args = [self.p.subst(self.p.ty(a), fr.env) for a in c.get("args", [])]
        ov = self.overrides.get(c.get("path"))
        if ov:
            return ov(self, st, c, args, [])
        b = self.p.bodies.get(c["def"])
        if b is None:
            from . import models
            r = models.const_path(c.get("path", ""), ty)
            if r is not None:
                return r
            raise Unsupported("constant %s" % c.get("path"))
        env = dict(fr.env)
        env.update(zip(b["generics"], args))
        return self.run_body(st, c["def"], b["body"], env, [], b, keep=True)

    def const_body(self, st, fr, key, idx, c):
        b = self.p.bodies.get(key)
        if b is None:
            raise Unsupported("promoted of unknown item %s" % key)
        env = dict(fr.env)
        if key != fr.key:
            args = [self.p.subst(self.p.ty(a), fr.env) for a in c.get("args", [])]
            env.update(zip(b["generics"], args))
        pr = b["promoted"][idx]
        pb = pr.get("body", pr)
        return self.run_body(st, key, pb, env, [], b, keep=True)

    def constval(self, ty, v, fr):
        if "i" in v:
            n = int(v["i"])
            if ty == ("prim", "char"):
                return mk("str", chr(n))
            if ty[0] == "prim" and ty[1] in INT_W:
                w = INT_W[ty[1]]
                if n >= 1 << (w - 1):
                    n -= 1 << w
            return INT(n)
        if "b" in v:
            return TRUE if v["b"] else FALSE
        if "f" in v:
            bits = int(v["bits"])
            if ty == ("prim", "f32"):
                f = struct.unpack("<f", struct.pack("<I", bits))[0]
            else:
                f = struct.unpack("<d", struct.pack("<Q", bits))[0]
            if f != f or f in (float("inf"), float("-inf")):
                return rf("float", mk("str", repr(f)))
            return rc(Fr(f))
        if "c" in v:
            return mk("str", chr(v["c"]))
        if "str" in v:
            return mk("str", v["str"])
        if "zst" in v:
            if ty[0] == "clo":
                return Clo(ty[1], fr.env, [])
            if ty[0] == "fndef":
                raise Unsupported("fn item const")
            if ty[0] == "adt":
                b = self.zst_enum(ty)
                if b is not None:
                    return b
                return St(ty[1], ())
            return UNIT
        if "mem" in v:
            return self.memval(ty, v["mem"])
        if "bytes" in v:
            return Opq("bytes", str(v["bytes"]))
        if "fnptr" in v:
            raise Unsupported("fn pointer const")
        return Opq("const", str(v))

    def memval(self, ty, mem):
        return Opq("mem", tuple(mem) if isinstance(mem, list) else str(mem))

    def zst_enum(self, ty):
        a = self.p.adt(ty[1])
        if a and len(a["variants"]) == 1 and a["discr"]:
            return En(a["path"], ZERO, {})
        return None

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, rv, span=None):
        k = rv[0]
        if k == "use":
            return self.operand(fr, st, rv[1])
        if k == "ref" or k == "rawptr":
            pl = rv[2] if isinstance(rv[2], list) else rv[1]
            r = self.place(fr, st, pl)
            if k == "ref" and pl[1] and pl[1][-1] == "*" and isinstance(r, Ref) and "ut" not in str(rv[1]):
                v = self.read(st, r)
                if isn(v) and v.op == "str":
                    return v            # a string constant stands for itself
            # reference to a deref of a view-like value: keep the reference
            return r
        if k == "bin":
            a = self.operand(fr, st, rv[2])
            b = self.operand(fr, st, rv[3])
            return self.binop(st, rv[1], a, b)
        if k == "un":
            a = self.operand(fr, st, rv[2])
            return self.unop(st, rv[1], a)
        if k == "cast" and rv[1] == "BoxDerefTransmute" and "p" in rv[2] and rv[2]["p"][1]:
            # a box is represented by its content
            l, pr = rv[2]["p"]
            while pr and isinstance(pr[-1], list) and pr[-1][0] == "f":
                pr = pr[:-1]
            r = self.place(fr, st, [l, pr])
            v = self.read(st, r)
            return v if isinstance(v, Ref) else r
        if k == "cast":
            a = self.operand(fr, st, rv[2])
            ty = self.p.subst(self.p.ty(rv[3]), fr.env)
            return self.cast(fr, st, rv[1], a, ty)
        if k == "discr":
            v = self.read(st, self.place(fr, st, rv[1]))
            if isinstance(v, Hole):      # drop flags of values that are not used any more
                return v
            return self.discr(v)
        if k == "agg":
            ops = [self.operand(fr, st, o) for o in rv[2]]
            return self.aggregate(fr, rv[1], ops)
        if k == "repeat":
            v = self.operand(fr, st, rv[1])
            n = self.p.subst(self.p._conv(rv[2]) if not isinstance(rv[2], int) else ("cst", INT(rv[2])), fr.env)
            if n[0] != "cst":
                raise Unsupported("repeat count")
            return Arr((n[1],), (freshk(),), v, "arr")
        raise Unsupported("rvalue %s" % k)

    def discr(self, v):
        if isinstance(v, VIte):
            return ite(v.c, self.discr(v.x), self.discr(v.y))
        if isinstance(v, En):
            d = self.p.adt_discr(v.key)
            if d is None and v.key.endswith("cmp::Ordering"):
                d = [-1, 0, 1]
            if d is None or list(d) == list(range(len(d))):
                return v.d
            return mapvals(v.d, lambda i: INT(int(d[i])))
        if isn(v) and T.sort(v) == "b":
            return ite(v, ONE, ZERO)
        raise Unsupported("discriminant of %s" % type(v).__name__)

    def aggregate(self, fr, k, ops):
        kind = k["k"]
        if kind == "tuple":
            return St("tup", ops)
        if kind == "array":
            return St("arr", ops)
        if kind == "closure":
            return Clo(k["key"], fr.env, ops)
        if kind == "adt":
            path = k["path"]
            key = k.get("key", path)
            if path.endswith("::Complex"):
                return radd(ops[0], rmul(rc(0, 1), ops[1]))
            a = self.p.adt(path)
            isenum = (a and a["discr"]) or path in (
                "std::option::Option", "std::result::Result", "core::option::Option", "core::result::Result",
                "std::ops::ControlFlow", "std::cmp::Ordering", "ndarray::SliceInfoElem") or k.get("vname") in (
                "Some", "None", "Ok", "Err", "Break", "Continue")
            if isenum:
                kk = enumkey(path)
                return En(kk, INT(k["variant"]), {k["variant"]: tuple(ops)} if ops else {})
            return St(path, ops)
        raise Unsupported("aggregate %s" % kind)

    def binop(self, st, op, a, b):
        if isinstance(a, VIte):
            return merge(a.c, self.binop(st, op, a.x, b), self.binop(st, op, a.y, b))
        if isinstance(b, VIte):
            return merge(b.c, self.binop(st, op, a, b.x), self.binop(st, op, a, b.y))
        if not (isn(a) and isn(b)):
            if op in ("Eq", "Ne") and isinstance(a, Ref) and isinstance(b, Ref):
                raise Unsupported("pointer comparison")
            raise Unsupported("binary %s on %s" % (op, type(a).__name__))
        sa = T.sort(a)
        sb = T.sort(b)
        if op.endswith("WithOverflow"):
            return tup(self.binop(st, op[:-12], a, b), FALSE)
        op = op.replace("Unchecked", "")
        if sa == "r" or sb == "r":
            if op == "Add":
                return radd(a, b)
            if op == "Sub":
                return rsub(a, b)
            if op == "Mul":
                return rmul(a, b)
            if op == "Div":
                return rmul(a, rinv(b))
            if op == "Eq":
                return T.req(a, b)
            if op == "Ne":
                return bnot(T.req(a, b))
            if op == "Lt":
                return flt(a, b)
            if op == "Gt":
                return flt(b, a)
            if op == "Le":
                return fle(a, b)
            if op == "Ge":
                return fle(b, a)
            raise Unsupported("float %s" % op)
        if sa == "b":
            if op == "BitAnd":
                return band(a, b)
            if op == "BitOr":
                return bor(a, b)
            if op in ("BitXor", "Ne"):
                return bxor(a, b)
            if op == "Eq":
                return bnot(bxor(a, b))
            raise Unsupported("bool %s" % op)
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mul":
            return smul(a, b)
        if op == "Div":
            return div(a, b)
        if op == "Rem":
            return rem(a, b)
        if op == "BitXor":
            return xor(a, b)
        if op == "BitAnd":
            return and_(a, b)
        if op == "BitOr":
            return or_(a, b)
        if op == "Shl":
            return shl(a, b)
        if op == "Shr":
            return shr(a, b)
        if op == "Eq":
            return eq(a, b)
        if op == "Ne":
            return bnot(eq(a, b))
        if op == "Lt":
            return lt(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Le":
            return le(a, b)
        if op == "Ge":
            return le(b, a)
        if op == "Cmp":
            return En("core::cmp::Ordering", ite(lt(a, b), ZERO, ite(eq(a, b), ONE, INT(2))), {})
        raise Unsupported("binary %s" % op)

    def unop(self, st, op, a):
        if isinstance(a, VIte):
            return merge(a.c, self.unop(st, op, a.x), self.unop(st, op, a.y))
        if op == "Not":
            if T.sort(a) == "b":
                return bnot(a)
            return not_(a)
        if op == "Neg":
            if T.sort(a) == "r":
                return rneg(a)
            return scale(a, -1)
        if op == "PtrMetadata":
            return self.length(st, a)
        raise Unsupported("unary %s" % op)

    def cast(self, fr, st, kind, a, ty):
        if isinstance(a, VIte):
            return merge(a.c, self.cast(fr, st, kind, a.x, ty), self.cast(fr, st, kind, a.y, ty))
        if kind.startswith("Pointer") or kind in ("PtrToPtr",):
            return a
        if kind == "IntToInt":
            if isinstance(a, En):
                a = self.discr(a)
            if isn(a) and T.sort(a) == "b":
                return ite(a, ONE, ZERO)
            if isn(a) and T.sort(a) == "i":
                if T.isint(a) and ty[0] == "prim" and ty[1].startswith("u") and a.a[0] < 0:
                    w = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}[ty[1]]
                    return INT(a.a[0] % (1 << w))
                return T.wrap(a, ty)
        if kind == "IntToFloat":
            return int2r(a)
        if kind == "FloatToInt":
            if a.op == "rc" and a.a[1] == 0:
                return INT(int(a.a[0]))
            x = T.ifn("f2i", a)
            w = {"u8": 255, "i8": 127, "u16": 65535, "i16": 32767, "u32": (1 << 32) - 1, "i32": (1 << 31) - 1}.get(ty[1])
            return x if w is None else ite(lt(INT(w), x), INT(w), x)
        if kind == "FloatToFloat":
            if ty == ("prim", "f32"):
                return rf("f32", a)
            return a
        if kind == "Transmute":
            return a
        raise Unsupported("cast %s" % kind)

    # ---------------------------------------------------------------- run
    def run_body(self, st, key, body, env, args, fn, keep=False):
        """analyse a body; returns its value, updates st (raises Diverge if no return)"""
        if self.depth > 60:
            raise Unsupported("inlining too deep")
        self.depth += 1
        self.nf += 1
        fr = Frame(self.nf, key, body, env, fn)
        self.analysed.add(key)
        self.stack.append(fr)
        base = len(st.facts)
        try:
            for i, a in enumerate(args):
                st.cells[(fr.id, i + 1)] = a
            outs = self.run(fr, st, 0, frozenset(), None)
            rets = [s for b, s in outs if b == "ret"]
            if not rets:
                raise Diverge()
            m = self.merge_states(rets, base)
            st.become(m)
            v = st.cells.get((fr.id, 0), UNIT)
            if not keep:
                for c in [c for c in st.cells if c[0] == fr.id]:
                    del st.cells[c]
            return v
        finally:
            self.stack.pop()
            self.depth -= 1

    def merge_states(self, sts, base):
        """merge states that share the first `base` facts"""
        if len(sts) == 1:
            return sts[0]
        conds = [band(*s.facts[base:]) for s in sts]
        acc = sts[-1].cells
        for s, c in zip(reversed(sts[:-1]), reversed(conds[:-1])):
            new = {}
            for k in s.cells:
                if k in acc:
                    x, y = s.cells[k], acc[k]
                    new[k] = x if x is y else merge(c, x, y)
                else:
                    new[k] = s.cells[k]
            for k in acc:
                if k not in new:
                    new[k] = acc[k]
            acc = new
        # facts common to all, plus the disjunction if informative
        common = [f for f in sts[0].facts[base:] if all(f in s.facts[base:] for s in sts[1:])]
        dis = bor(*[band(*[f for f in s.facts[base:] if f not in common]) for s in sts])
        facts = sts[0].facts[:base] + tuple(common)
        if dis is not TRUE and nodes(dis) < 40:
            facts = facts + (dis,)
        return State(acc, facts)

    def run(self, fr, st, bb, stops, first):
        """run from bb until a block in stops; -> [(block or 'ret', state)]"""
        blocks = fr.body["blocks"]
        cfg = self.p.cfg(fr.body)
        while True:
            if bb in stops and not first:
                return [(bb, st)]
            if bb in cfg.loops and not first:
                outs = self.loop(fr, st, bb, cfg, stops)
                return self.continue_all(fr, outs, stops)
            first = False
            b = blocks[bb]
            try:
                for s in b["s"]:
                    self.statement(fr, st, s)
                t = b["t"]
                k = t[0]
                if k == "goto":
                    bb = t[1]
                elif k == "drop":
                    bb = t[2]
                elif k == "ret":
                    return [("ret", st)]
                elif k in ("unreachable",):
                    return []
                elif k == "assert":
                    c = self.operand(fr, st, t[1])
                    if not t[2]:
                        c = bnot(c)
                    self.require(st, c, "assert:" + str(t[4]), b.get("sp"))
                    bb = t[3]
                elif k == "call":
                    self.call_term(fr, st, t, b.get("sp"))
                    if t[4] is None:
                        return []
                    bb = t[4]
                elif k == "switch":
                    r = self.switch(fr, st, bb, t, cfg, stops)
                    if isinstance(r, int):
                        bb = r
                    else:
                        return r
                else:
                    raise Unsupported("terminator %s" % k)
            except Diverge:
                return []

    def continue_all(self, fr, outs, stops):
        res = []
        for b, s in outs:
            if b == "ret" or b in stops:
                res.append((b, s))
            else:
                res.extend(self.run(fr, s, b, stops, None))
        return res

    def narrow_shift(self, fr, st, pl, rv, v):
        """a shift computed in a type of fewer than 64 bits"""
        if pl[1] or not isn(v):
            return v
        t = fr.body["locals"][pl[0]]
        ty = self.p.subst(self.p.ty(t["ty"] if isinstance(t, dict) else t), fr.env)
        if ty[0] != "prim" or ty[1] not in T.NARROW:
            return v
        return self.shift_in(ty, rv[1][:3], self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3]))

    @staticmethod
    def shift_in(ty, op, a, b):
        w = T.NARROW[ty[1]][1] if ty[1] in T.NARROW else 64
        m = T.most(b)
        if m is None or m >= w:
            b = and_(b, INT(w - 1))
        return T.wrap(shl(a, b), ty) if op == "Shl" else shr(a, b)

    def overflow(self, fr, st, pl, rv, v, span):
        """record where checked integer arithmetic of the source would overflow (and panic when checks are on)"""
        op = rv[1].replace("Unchecked", "")
        if op not in ("Add", "Sub", "Mul", "Shl", "Shr") or not isn(v) or T.sort(v) != "i":
            return
        a, b = self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3])
        if not (isn(a) and isn(b)):
            return
        ty = None
        if not pl[1]:
            t = fr.body["locals"][pl[0]]
            ty = self.p.subst(self.p.ty(t["ty"] if isinstance(t, dict) else t), fr.env)
        if not ty or ty[0] != "prim" or ty[1] not in UINT_W:
            return
        w = UINT_W[ty[1]]
        if op == "Sub":
            c = lt(a, b)
        elif op in ("Shl", "Shr"):
            c = bnot(lt(b, INT(w)))
        else:
            c = bnot(lt(add(a, b) if op == "Add" else mul(a, b), INT(1 << w)))
        c = simp(c, st.facts)
        if c is not FALSE and self.record_panics:
            self.panics.append({"kind": "overflow of %s" % op.lower(), "fn": fr.fn.get("path"), "span": span, "cond": c,
                                "facts": st.facts, "stack": [f.fn.get("path") for f in self.stack]})

    def require(self, st, c, kind, span):
        """continue only where c holds; otherwise the program panics here"""
        c = simp(c, st.facts)
        if c is TRUE:
            return
        if self.record_panics:
            fn = self.stack[-1].fn.get("path") if self.stack else "?"
            self.panics.append({"kind": kind, "fn": fn, "span": span, "cond": bnot(c), "facts": st.facts,
                                "stack": [f.fn.get("path") for f in self.stack]})
        if c is FALSE:
            raise Diverge()
        self.required.update(elim.conjuncts(c))
        st.assume(c)

    def switch(self, fr, st, bb, t, cfg, stops):
        v = self.operand(fr, st, t[1])
        ty = self.p.ty(t[4]) if len(t) > 4 and t[4] is not None else None
        arms = []
        rest = []
        if isinstance(v, (VIte,)):
            v = self.flatten(v)
        for val, tgt in t[2]:
            val = int(val)
            if isn(v) and T.sort(v) == "b":
                c = v if val else bnot(v)
            else:
                if ty and ty[0] == "prim" and ty[1] in INT_W and val >= 1 << (INT_W[ty[1]] - 1):
                    val -= 1 << INT_W[ty[1]]
                if v.op == "str":
                    c = eq(v, mk("str", chr(val)))
                elif T.sort(v) == "s":
                    c = eq(v, mk("str", chr(val)))
                else:
                    c = eq(v, INT(val))
            c = simp(band(c, *rest), st.facts)
            rest.append(bnot(c))
            if c is FALSE:
                continue
            arms.append((c, tgt))
            if c is TRUE:
                break
        else:
            if t[3] is not None:
                c = simp(band(*rest), st.facts)
                if c is not FALSE:
                    arms.append((c, t[3]))
        arms = [(c, tgt) for c, tgt in arms if not self.is_unreachable(fr, tgt)]
        if not arms:
            return []
        if len(arms) == 1:
            c = arms[0][0]
            st.assume(c)
            return arms[0][1]
        j = cfg.ipdom.get(bb)
        inner = stops | {j} if j is not None and j != cfg.EXIT else stops
        base = len(st.facts)
        outs = []
        for c, tgt in arms:
            s = st.copy()
            try:
                s.assume(c)
            except Diverge:
                continue
            outs.extend(self.run(fr, s, tgt, inner, None))
        # group by stop block
        groups = {}
        order = []
        for b, s in outs:
            if b not in groups:
                groups[b] = []
                order.append(b)
            groups[b].append(s)
        res = []
        for b in order:
            res.append((b, self.merge_states(groups[b], base)))
        return self.continue_all(fr, res, stops)

    def is_unreachable(self, fr, bb):
        return fr.body["blocks"][bb]["t"][0] == "unreachable"

    def flatten(self, v):
        if isinstance(v, VIte):
            return ite(v.c, self.flatten(v.x), self.flatten(v.y))
        if isn(v):
            return v
        raise Unsupported("switch on %s" % type(v).__name__)

    def is_box(self, fr, local):
        t = fr.body["locals"][local]
        t = self.p.ty(t["ty"] if isinstance(t, dict) else t)
        return t[0] == "adt" and t[1] == "alloc::boxed::Box"

    def statement(self, fr, st, s):
        k = s[0]
        if k == "=":
            pl = s[1]
            if s[2][0] == "use" and not pl[1] and "p" in s[2][1] and not s[2][1].get("mv") and s[2][1]["p"][1] \
                    and self.is_box(fr, pl[0]):
                # copy of a box made to dereference it: the original content stays the target
                st.cells[(fr.id, pl[0])] = self.place(fr, st, s[2][1]["p"])
                return
            v = self.rvalue(fr, st, s[2], s[3] if len(s) > 3 else None)
            if s[2][0] == "bin" and s[2][1] in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
                v = self.narrow_shift(fr, st, pl, s[2], v)
            if s[2][0] == "bin" and self.conf.get("overflow"):
                self.overflow(fr, st, pl, s[2], v, s[3] if len(s) > 3 else None)
            if not pl[1]:
                st.cells[(fr.id, pl[0])] = v
            else:
                r = self.place(fr, st, pl)
                self.write_checked(st, r, v, s[3] if len(s) > 3 else None)
            return
        if k == "setd":
            r = self.place(fr, st, s[1])
            v = self.read(st, r)
            if isinstance(v, En):
                self.write(st, r, En(v.key, INT(s[2]), v.p))
                return
            raise Unsupported("set discriminant")
        if k == "intr":
            return
        if k in ("nop", "live", "dead"):
            return
        raise Unsupported("statement %s" % k)

    def write_checked(self, st, r, v, span):
        w = self.note_map_write(st, r, v, span)
        self.write(st, r, v if w is None else w)

    def note_map_write(self, st, r, v, span):
        """record stores into map entries (canonicity of the sparse map)"""
        if isinstance(r, VIte):
            return
        if not any(isinstance(p, tuple) and p[0] == "ix" for p in r.proj):
            return
        x = st.cells.get(r.cell)
        for i, p in enumerate(r.proj):
            if isinstance(x, Mp) and p[0] == "ix" and i == len(r.proj) - 1:
                return self.map_store(st, x, p[1][0], v, span, "through a mutable reference")
            if isinstance(x, (VIte, Hole)) or x is None:
                return
            try:
                x = self.step(st, x, p)
            except Unsupported:
                return

    def map_store(self, st, m, key, v, span, how):
        """record a store of v under key; -> the value to store (marked when zero, if marks are wanted)"""
        fn = self.stack[-1].fn.get("path") if self.stack else "?"
        z = isz(v) if isn(v) and T.sort(v) == "r" else None
        if z is not None:
            z = simp(z, st.facts)
        self.events.append({"ev": "mapstore", "fn": fn, "span": span, "how": how, "key": key, "val": v,
                            "zero": z, "facts": st.facts})
        if z is not None and self.conf.get("mark_zero"):
            return T.rite(z, T.KEPT0, v)
        return v

    # ---------------------------------------------------------------- calls
    def call_term(self, fr, st, t, span):
        fop = t[1]
        args = [self.operand(fr, st, a) for a in t[2]]
        self.span = span
        if "c" in fop and "fn" in fop["c"]:
            v = self.call_def(fr, st, fop["c"]["fn"], args, span)
        else:
            f = self.operand(fr, st, fop)
            v = self.call_value(st, f, args)
        if t[4] is None:
            raise Diverge()
        pl = t[3]
        if not pl[1]:
            st.cells[(fr.id, pl[0])] = v
        else:
            self.write_checked(st, self.place(fr, st, pl), v, span)

    def call_value(self, st, f, args):
        """call a closure / fn item value with already untupled args"""
        ref = None
        if isinstance(f, VIte):
            s1, s2 = st.copy(), st.copy()
            base = len(st.facts)
            s1.assume(f.c)
            s2.assume(bnot(f.c))
            a = self.call_value(s1, f.x, args)
            b = self.call_value(s2, f.y, args)
            m = self.merge_states([s1, s2], base)
            st.become(m)
            return merge(f.c, a, b)
        while isinstance(f, Ref):
            ref = f
            f = self.read(st, f)
        if isinstance(f, Clo):
            b = self.p.bodies.get(f.key)
            if b is None:
                raise Unsupported("closure body %s" % f.key)
            ty = self.p.ty(b["body"]["locals"][1]["ty"] if isinstance(b["body"]["locals"][1], dict)
                           else b["body"]["locals"][1])
            if ty[0] == "ref":
                if ref is None:
                    ref = self.tmpref(st, f)
                first = ref
            else:
                first = f
            return self.run_body(st, f.key, b["body"], f.env, [first] + list(args), b)
        if isinstance(f, FnV):
            fr = Frame(0, "", None, f.env, {"path": "fnptr"})
            return self.call_def(fr, st, f.fn, list(args), None)
        if isinstance(f, Opq):
            return self.call_opaque(st, f, args)
        raise Unsupported("call of %s" % type(f).__name__)

    def call_opaque(self, st, f, args):
        h = self.conf.get("opaque_fn")
        if f.name in ("pred",):
            ts = []
            for a in args:
                a = self.deep(st, a)
                if not isn(a):
                    raise Unsupported("opaque predicate argument")
                ts.append(a)
            return mk("ba", f.a[0], *ts)
        if f.name == "rfun":
            ts = [self.deep(st, a) for a in args]
            return rf(f.a[0], *ts)
        if f.name == "pyfun":
            return f.a[0](self, st, args)
        raise Unsupported("call of opaque %s" % f.name)

    def deep(self, st, v):
        while isinstance(v, Ref):
            v = self.read(st, v)
        if isinstance(v, VIte):
            return merge(v.c, self.deep(st, v.x), self.deep(st, v.y))
        return v

    def call_def(self, fr, st, f, args, span):
        from . import models
        self.ncalls += 1
        env = fr.env
        targs = [self.p.subst(self.p.ty(a), env) for a in f.get("args", [])]
        path = f["path"]
        ov = self.overrides.get(path) or self.overrides.get(f.get("res_path"))
        if ov:
            r = ov(self, st, f, targs, args)
            if r is not NotImplemented:
                return r
        if f.get("trait"):
            tr = f["trait"]
            if tr in ("std::ops::Fn", "std::ops::FnMut", "std::ops::FnOnce", "core::ops::Fn", "core::ops::FnMut",
                      "core::ops::FnOnce"):
                a = args[1]
                return self.call_value(st, args[0], list(a.f))
            res = f.get("res")
            if res and res in self.p.bodies and res != f.get("key"):
                b = self.p.bodies[res]
                rargs = [self.p.subst(self.p.ty(a), env) for a in f.get("res_args", [])]
                return self.inline(st, res, b, dict(zip(b["generics"], rargs)), args, span)
            nt = f.get("ntrait", 1)
            if self.local_self(targs[0]) or tr in self.p.traits:
                r = self.p.find_impl(tr, targs[:nt])
                if r:
                    im, ienv = r
                    it = im["_items"].get(f["name"])
                    if it and it.get("key") in self.p.bodies:
                        b = self.p.bodies[it["key"]]
                        own = b["generics"][len(b["generics"]) - (len(targs) - nt):] if len(targs) > nt else []
                        e = dict(ienv)
                        e.update(zip(own, targs[nt:]))
                        for i, g in enumerate(b["generics"]):
                            if g not in e and g == "Self":
                                e[g] = targs[0]
                        return self.inline(st, it["key"], b, e, args, span)
            if f["key"] in self.p.bodies:
                ok = targs[0][0] in ("alg",) or r_or_none(self.p.find_impl(tr, targs[:nt])) or tr in self.p.traits
                if ok and not self.is_model_first(f, targs):
                    b = self.p.bodies[f["key"]]
                    return self.inline(st, f["key"], b, dict(zip(b["generics"], targs)), args, span)
        else:
            key = f.get("res") or f["key"]
            if key in self.p.bodies:
                b = self.p.bodies[key]
                return self.inline(st, key, b, dict(zip(b["generics"], targs)), args, span)
        return models.builtin(self, fr, st, f, targs, args, span)

    def is_model_first(self, f, targs):
        return False

    def local_self(self, t):
        while t[0] == "ref":
            t = t[1]
        if t[0] == "adt" and self.p.is_local(t[1]):
            return True
        if t[0] == "alg":
            return True
        return False

    def inline(self, st, key, b, env, args, span):
        c = self.contracts.get(key)
        if c:
            r = c(self, st, b, env, args)
            if r is not NotImplemented:
                return r
        if key in self.p.recursive() and any(f.key == key for f in self.stack):
            raise Unsupported("recursive function %s without a summary" % b["path"])
        return self.run_body(st, key, b["body"], env, args, b)

    # ---------------------------------------------------------------- loops
    def loop(self, fr, st, header, cfg, stops):
        self.nloops += 1
        blocks = cfg.loops[header]
        live = cfg.live
        exits = set()
        for x in blocks:
            for s in cfg.succ[x]:
                if s not in blocks:
                    exits.add(s)
        inner = frozenset(stops | exits | {header})
        # find the driver iterator
        probe = LoopCtx(fr, None, None, "probe")
        self.loops.append(probe)
        ref = None
        np_, ne = len(self.panics), len(self.events)
        try:
            try:
                self.run(fr, st.copy(), header, inner, True)
            except FoundDriver as e:
                ref = e.ref
            except (Unsupported, Diverge):
                ref = None
        finally:
            self.loops.pop()
            del self.panics[np_:]
            del self.events[ne:]
        if ref is None:
            return self.while_loop(fr, st, header, inner)
        from . import models
        it = models.as_iter(self, st, self.read(st, ref), ref)
        return self.iter_loop(fr, st, header, inner, ref, it)

    def iter_loop(self, fr, st, header, inner, ref, it):
        from . import models
        parts = models.chain_parts(it)
        pend = [st]
        res = []
        for q, part in enumerate(parts):
            nxt = []
            for s in pend:
                def body(s2, ctx, part=part):
                    ctx.frame, ctx.ref, ctx.it, ctx.mode = fr, ref, part, "body"
                    self.loops.append(ctx)
                    try:
                        outs = self.run(fr, s2, header, inner, True)
                    finally:
                        self.loops.pop()
                    return [("next" if b == header else b, x) for b, x in outs]
                done, early = (self.visit if models.once(part) else self.summarise)(s, body)
                res.extend(early)
                nxt.extend(done)
            pend = nxt
        for s in pend:
            ctx = LoopCtx(fr, ref, It("empty"), "exit")
            self.loops.append(ctx)
            try:
                outs = self.run(fr, s, header, inner, True)
            finally:
                self.loops.pop()
            for b, x in outs:
                if b == header:
                    raise Unsupported("loop continues after the iterator is exhausted")
                self.clear_iter(x, ref)
                res.append((b, x))
        return res

    def clear_iter(self, st, ref):
        try:
            self.write(st, ref, It("empty"))
        except Unsupported:
            pass

    def next_call(self, st, ref):
        """Iterator::next"""
        from . import models
        r = ref
        # resolve references to references down to the iterator's own location
        while True:
            v = self.read(st, r)
            if isinstance(v, Ref):
                r = v
            else:
                break
        for ctx in reversed(self.loops):
            if ctx.mode == "probe":
                if ctx.frame is self.stack[-1] and r.cell in st.cells:
                    raise FoundDriver(r)
                continue
            if ctx.ref is not None and ctx.ref.cell == r.cell and ctx.ref.proj == r.proj and \
                    ctx.frame is self.stack[-1]:
                if ctx.mode == "exit":
                    return NONE
                if ctx.pulled:
                    raise Unsupported("iterator advanced twice in one iteration")
                ctx.pulled = True
                v, o = models.pull(self, st, ctx.it, ctx)
                ctx.ord = o
                return some(v)
        return models.single_next(self, st, r)

    def while_loop(self, fr, st, header, inner):
        """loops driven by a counter"""
        def body(s2, ctx):
            ctx.mode = "while"
            self.loops.append(ctx)
            try:
                outs = self.run(fr, s2, header, inner, True)
            finally:
                self.loops.pop()
            return [("next" if b == header else b, x) for b, x in outs]
        return self.summarise_while(fr, st, body, header, inner)

    # -------------------------------------------------------- summarisation
    def leaves(self, a, b, path, out):
        """paths where b differs from a"""
        if a is b or veq(a, b):
            return
        if isinstance(a, St) and isinstance(b, St) and a.kind == b.kind and len(a.f) == len(b.f):
            if arr_like(a):
                out.append(path)
                return
            for i, (x, y) in enumerate(zip(a.f, b.f)):
                self.leaves(x, y, path + (("f", i),), out)
            return
        if isinstance(a, En) and isinstance(b, En) and a.key == b.key and a.d is b.d and set(a.p) == set(b.p):
            for k in a.p:
                for i, (x, y) in enumerate(zip(a.p[k], b.p[k])):
                    self.leaves(x, y, path + (("d", k), ("f", i)), out)
            return
        if skipping(a) and skipping(b) and veq(a.a[0], b.a[0]):
            out.append(path + (("sk",),))
            return
        out.append(path)

    def getl(self, v, path):
        """leaf value, fixed-size arrays of coefficients in container form"""
        v = self.getp(v, path)
        return arr_form(v) if arr_like(v) else v

    def getp(self, v, path):
        for p in path:
            if p[0] == "f":
                v = v.f[p[1]]
            elif p[0] == "sk":
                v = v.a[1]
            else:
                v = St("variant", v.p[p[1]])
        return v

    def setp(self, v, path, new):
        if not path:
            return new
        p = path[0]
        if p[0] == "f":
            f = list(v.f)
            f[p[1]] = self.setp(f[p[1]], path[1:], new)
            return St(v.kind, f)
        if p[0] == "sk":
            return It("skip", v.a[0], new)
        k = p[1]
        pl = list(v.p[k])
        i = path[1][1]
        pl[i] = self.setp(pl[i], path[2:], new)
        q = dict(v.p)
        q[k] = tuple(pl)
        return En(v.key, v.d, q)

    def placeholder(self, v, lid):
        if isn(v):
            s = T.sort(v)
            if s == "r":
                return rd("L#%d" % lid)
            return T.LV("L#%d" % lid, s)
        if isinstance(v, Arr):
            e = v.body
            if isn(e) and T.sort(e) == "r":
                return Arr(v.shape, v.ks, rd("L#%d" % lid, *v.ks), v.kind)
            if isn(e) and T.sort(e) in ("b", "i"):
                return Arr(v.shape, v.ks, mk("ba", "L#%d" % lid, *v.ks) if T.sort(e) == "b"
                           else T.ifn("L#%d" % lid, *v.ks), v.kind)
            return Arr(v.shape, v.ks, Opq("L#%d" % lid, *v.ks), v.kind)
        if isinstance(v, Mp):
            return Mp(v.k, rd("L#%d" % lid, v.k))
        return Hole("changed in a loop")

    def visit(self, st, body):
        """the loop body for an item written out in the source"""
        base = len(st.facts)
        ctx = LoopCtx(None, None, None, "body")
        ctx.single = True
        outs = body(st.copy(), ctx)
        nexts = [x for b, x in outs if b == "next"]
        return [self.merge_states(nexts, base)] if nexts else [], [(b, x) for b, x in outs if b != "next"]

    def summarise(self, st, body, consts=None):
        """loop over an iterator: -> (list of states after normal completion, early exits)"""
        base = len(st.facts)
        entry = st
        mods = {}          # (cell, path) -> (lid, init value, placeholder value)
        lids = {}
        cells0 = list(entry.cells)
        for rnd in range(12):
            s1 = entry.copy()
            for (c, path), (lid, init, ph) in mods.items():
                s1.cells[c] = self.setp(s1.cells[c], path, ph)
            inst = dict(s1.cells)
            ctx = LoopCtx(None, None, None, "body")
            np_, ne = len(self.panics), len(self.events)
            outs = body(s1, ctx)
            if ctx.pos is None and ctx.ord is not None:
                ctx.pos = (ctx.ord,)
            nexts = [s for b, s in outs if b == "next"]
            early = [(b, s) for b, s in outs if b != "next"]
            if nexts:
                sn = self.merge_states(nexts, base)
            else:
                sn = None
            new = []
            if sn is not None:
                for c in cells0:
                    if c not in sn.cells:
                        continue
                    out = []
                    self.leaves(inst[c], sn.cells[c], (), out)
                    for path in out:
                        if (c, path) not in mods:
                            new.append((c, path))
            if not new:
                break
            del self.panics[np_:]
            del self.events[ne:]
            for c, path in new:
                # a coarser leaf replaces finer ones
                for (c2, p2_) in [k for k in mods if k[0] == c and k[1][:len(path)] == path]:
                    del mods[(c2, p2_)]
                init = self.getl(entry.cells[c], path)
                nv = self.getl(sn.cells[c], path)
                if skipping(nv) and not skipping(init):
                    # an iterator advanced by hand: from now on its position is what changes
                    from .models import as_iter
                    try:
                        same = veq(as_iter(self, entry, init, Ref(c, path)), nv.a[0])
                    except Unsupported:
                        same = False
                    if same:
                        entry.cells[c] = self.setp(entry.cells[c], path, It("skip", nv.a[0], ZERO))
                        continue
                self.nc += 1
                lid = self.nc
                ph = self.placeholder(init, lid)
                if isinstance(init, Arr) and isinstance(nv, Arr) and isinstance(ph, Arr):
                    if nv.shape != init.shape:
                        ph = Arr([x if x is y else T.LV("N#%d.%d" % (lid, i), "i") for i, (x, y) in
                                  enumerate(zip(init.shape, nv.shape))], ph.ks, ph.body, ph.kind)
                        if not (isn(init.body) and T.sort(init.body) == "r") and not isn(nv.body):
                            ph = Arr(ph.shape, ph.ks, Opq("L#%d" % lid, *ph.ks), ph.kind)
                    if isinstance(init.body, Hole) and isn(nv.body):
                        pass
                mods[(c, path)] = (lid, init, ph)
        else:
            raise Unsupported("loop state does not stabilise")
        bs = ctx.binders
        done = []
        # closed forms
        final, prefix = ({}, {})
        rec = None
        G = TRUE
        if sn is not None:
            # conditions whose failure leaves the loop (or panics) hold for every iteration seen after it
            drop = set()
            for b, s in early:
                for f in s.facts[base:]:
                    drop.update(elim.conjuncts(bnot(f)))
            G = band(*[f for f in sn.facts[base:] if f not in drop and f not in self.required])
            if self.mentions(G, self.ph_ids(mods), ()):
                # required only on some branches: the merge of the branches left a disjunction
                need = {f: TRUE for f in self.required if self.mentions(f, self.ph_ids(mods), ())}
                G = subst(G, need) if need else G
            final, prefix = self.solve(entry, sn, mods, bs, G, ctx, bool(early))
            if self.conf.get("series") and any(isinstance(v, Hole) and isn(mods[k][1]) for k, v in final.items()):
                r = self.kept(entry, mods, sn, early, base, bs, ctx.count)
                return [x for b, x in r if b is None], [(b, x) for b, x in r if b is not None]
            if self.conf.get("recurrences"):
                rec = self.recurrence(entry, sn, mods, final, prefix, bs, ctx)
            if prefix:
                for i in range(np_, len(self.panics)):
                    p = dict(self.panics[i])
                    p["cond"] = subst(p["cond"], prefix)
                    p["facts"] = tuple(subst(f, prefix) for f in p["facts"])
                    self.panics[i] = p
        res_early = []
        E = FALSE
        phs = self.ph_ids(mods)
        leave = []
        for b, s in early:
            g = self.apply_prefix(band(*s.facts[base:]), prefix)
            if self.mentions(g, phs, ()):
                if rec is None:
                    raise Unsupported("loop exit depends on state changed in the loop")
                x = mk("ba", "leaves@%d.%d" % (rec["id"], len(rec["exits"])))
                rec["exits"].append((x, g, s))
                g = x
            leave.append(g)
        first = None
        for (b, s), g in zip(early, leave):
            ex = elim.exists(bs, g)
            ex = simp(ex, entry.facts)
            if ex is FALSE:
                continue
            es = State({}, entry.facts)
            es.assume(ex)
            for c, v in s.cells.items():
                v = self.apply_prefix_v(v, prefix)
                if self.vmentions(v, phs, bs):
                    if c in entry.cells and ctx.pos and not self.vmentions(v, phs, ()):
                        if first is None:
                            first = bnot(self.some_before(bs, bor(*leave), ctx))
                        v = self.pick(v, bs, band(g, first))
                    else:
                        v = Hole("leaves the loop at an unspecified iteration")
                es.cells[c] = v
            res_early.append((b, es))
            E = bor(E, ex)
        if len(res_early) > 1:
            # different exits: acceptable only if they lead to the same place with equal state
            b0 = res_early[0][0]
            if any(b != b0 for b, _ in res_early):
                pass
        if E is not TRUE:
            d = entry.copy()
            d.facts = entry.facts
            try:
                if E is not FALSE:
                    d.assume(bnot(E))
                for (c, path), v in final.items():
                    d.cells[c] = self.setp(d.cells[c], path, v)
                done.append(d)
            except Diverge:
                pass
        if sn is None and not early and not outs:
            # body never completes (always panics or domain is empty): fall through only when empty
            pass
        return done, res_early

    def kept(self, entry, mods, sn, early, base, bs, count):
        """a loop kept as a recurrence over scalars: -> exits with the values of the last pass as symbols"""
        self.nc += 1
        rec = {"ev": "steps", "id": self.nc, "binders": list(bs), "count": count, "exits": [], "vars": [],
               "fn": self.stack[-1].fn.get("path"), "stay": band(*[f for f in sn.facts[base:]])}
        ren = {b: T.SYM("step@%d.%d" % (self.nc, i)) for i, b in enumerate(bs)}
        for (c, path), (lid, init, ph) in mods.items():
            v = self.getp(sn.cells[c], path)
            if not (isn(init) and isn(ph) and isn(v)):
                raise Unsupported("recurrence over a container")
            out = rd("after@%d" % lid) if T.sort(init) == "r" else mk("ba", "after@%d" % lid) \
                if T.sort(init) == "b" else T.SYM("after@%d" % lid)
            rec["vars"].append((ph, init, v, out))
            ren[ph] = out
        self.events.append(rec)
        res = []
        for i, (b, s) in enumerate(early):
            x = mk("ba", "leaves@%d" % rec["id"], INT(i))
            rec["exits"].append(band(*s.facts[base:]))
            es = State({}, entry.facts)
            if len(early) > 1 or bs:
                es.assume(x)
            for c, v in s.cells.items():
                es.cells[c] = vsubst(v, ren)
            res.append((b, es))
        if bs:
            d = entry.copy()
            d.assume(mk("ba", "leaves@%d" % rec["id"], INT(-1)))
            for (c, path), (lid, init, ph) in mods.items():
                d.cells[c] = self.setp(d.cells[c], path, ren[ph])
            res.append((None, d))
        return res

    def recurrence(self, entry, sn, mods, final, prefix, bs, ctx):
        """a loop whose arrays have no closed form is kept as one step of a recurrence: start values, the values after
        an iteration in terms of those before it, and the conditions of leaving it"""
        cut = [k for k, v in final.items() if isinstance(v, Hole) and isinstance(mods[k][1], Arr)
               and isn(mods[k][1].body) and T.sort(mods[k][1].body) == "r" and isinstance(mods[k][2], Arr)]
        if not cut:
            return None
        self.nc += 1
        rec = {"ev": "recurrence", "id": self.nc, "binders": list(bs), "count": ctx.count, "pos": ctx.pos, "exits": [],
               "fn": self.stack[-1].fn.get("path"), "vars": [], "facts": entry.facts, "depth": len(self.loops),
               "inside": [f for f in sn.facts[len(entry.facts):]]}
        for k in cut:
            lid, init, ph = mods[k]
            v = self.apply_prefix_v(self.getl(sn.cells[k[0]], k[1]), prefix)
            out = Arr(init.shape, init.ks, rd("after@%d.%d" % (rec["id"], lid), *init.ks), init.kind)
            rec["vars"].append({"in": "L#%d" % lid, "out": out.body.a[0], "init": init, "next": v})
            final[k] = out
        self.events.append(rec)
        return rec

    def pick(self, v, bs, g):
        """the value v takes in the only iteration that satisfies g"""
        if isn(v):
            if not self.mentions(v, (), bs):
                return v
            s = T.sort(v)
            if s == "i":
                return mkisum(bs, g, v)
            if s == "r":
                return elim.rsum(bs, g, v)
            if s == "b":
                return elim.exists(bs, band(g, v))
            return Hole("leaves the loop at an unspecified iteration")
        if not self.vmentions(v, (), bs):
            return v
        if isinstance(v, St):
            return St(v.kind, tuple(self.pick(x, bs, g) for x in v.f))
        if isinstance(v, En):
            return En(v.key, self.pick(v.d, bs, g), {k: tuple(self.pick(x, bs, g) for x in p) for k, p in v.p.items()})
        if isinstance(v, Ref):
            return Ref(v.cell, tuple(("ix", tuple(self.pick(i, bs, g) for i in p[1])) if p[0] == "ix" else p
                                     for p in v.proj))
        return Hole("leaves the loop at an unspecified iteration")

    def ph_ids(self, mods):
        return {lid for (lid, i, p) in mods.values()}

    def mentions(self, t, lids, binders):
        seen = set()
        stck = [t]
        bset = set(binders)
        while stck:
            x = stck.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in bset:
                return True
            if x.op == "lv" and lid_of(x.a[0]) in lids:
                return True
            if x.op in ("rd", "ba", "ifn") and isinstance(x.a[0], str) and lid_of(x.a[0]) in lids:
                return True
            stck.extend(T.children(x))
        return False

    def vmentions(self, v, lids, binders):
        if isn(v):
            return self.mentions(v, lids, binders)
        if isinstance(v, Hole):
            return False
        if isinstance(v, St):
            return any(self.vmentions(x, lids, binders) for x in v.f)
        if isinstance(v, En):
            return self.mentions(v.d, lids, binders) or any(
                self.vmentions(x, lids, binders) for p in v.p.values() for x in p)
        if isinstance(v, Arr):
            return any(self.mentions(x, lids, binders) for x in v.shape) or self.vmentions(v.body, lids, binders)
        if isinstance(v, Mp):
            return self.vmentions(v.body, lids, binders)
        if isinstance(v, Ref):
            return any(self.mentions(i, lids, binders) for p in v.proj if p[0] == "ix" for i in p[1])
        if isinstance(v, Vw):
            return self.vmentions(v.base, lids, binders) or any(self.mentions(i, lids, binders) for i in v.ix + v.shape)
        if isinstance(v, Clo):
            return any(self.vmentions(x, lids, binders) for x in v.up)
        if isinstance(v, VIte):
            return self.mentions(v.c, lids, binders) or self.vmentions(v.x, lids, binders) or \
                self.vmentions(v.y, lids, binders)
        if isinstance(v, Opq):
            if lid_of(v.name) in lids:
                return True
            return any(self.vmentions(x, lids, binders) for x in v.a if isn(x) or hasattr(x, "__slots__"))
        if isinstance(v, It):
            return any(self.vmentions(x, lids, binders) for x in v.a if isn(x) or hasattr(x, "__slots__"))
        return False

    def apply_prefix(self, t, prefix):
        if not prefix:
            return t
        return subst(t, prefix)

    def apply_prefix_v(self, v, prefix):
        if not prefix:
            return v
        try:
            return vsubst(v, prefix)
        except Unsupported:
            return Hole("loop-carried")

    def solve(self, entry, sn, mods, bs, G, ctx, has_early):
        """closed forms of the modified leaves -> (final values, per-iteration prefix values)"""
        lids = self.ph_ids(mods)
        vals = {}
        for (c, path), (lid, init, ph) in mods.items():
            vals[(c, path)] = self.getl(sn.cells[c], path)
        prefix = {}
        final = {}
        # 1. counters
        for (c, path), (lid, init, ph) in mods.items():
            v = vals[(c, path)]
            if isn(init) and isn(v) and isn(ph) and T.sort(init) == "i":
                d = idelta(v, ph)
                if not self.mentions(d, lids, bs):
                    if ctx.ord is not None and not self.guarded(G, bs):
                        prefix[ph] = add(init, mul(ctx.ord, d))
                        final[(c, path)] = add(init, mul(ctx.count, d))
                        continue
                    if not ctx.pos:
                        continue
                if ctx.pos and not self.mentions(d, lids, ()) and not self.mentions(G, lids, ()):
                    # conditional counter: what the earlier iterations added
                    prefix[ph] = add(init, self.earlier(bs, G, d, ctx))
                    final[(c, path)] = add(init, mkisum(bs, G, d))
                    continue
                # bit sets and signs
                r = self.folded(init, ph, v, bs, G, lids)
                if r is not None:
                    final[(c, path)] = r
                    if ctx.pos:
                        nb, ren, before = self.before(bs, ctx)
                        r = self.folded(init, ph, subst(v, ren), nb, band(before, subst(G, ren)), lids)
                        if r is not None:
                            prefix[ph] = r
                    continue
                # doubling / halving
                if ctx.ord is not None and not self.guarded(G, bs):
                    if v is scale(ph, 2):
                        prefix[ph] = mul(init, p2(ctx.ord))
                        final[(c, path)] = mul(init, p2(ctx.count))
                    elif ctx.more and subst(v, ctx.more) is scale(ph, 2):
                        prefix[ph] = mul(init, p2(ctx.ord))
                    elif v is div(ph, INT(2)):
                        prefix[ph] = shr(init, ctx.ord)
                        final[(c, path)] = shr(init, ctx.count)
            if isn(init) and isn(v) and isn(ph) and T.sort(init) == "b" and ctx.pos and not self.mentions(G, lids, ()):
                f = self.flag_before(init, ph, v, bs, G, lids, ctx)
                if f is not None:
                    prefix[ph] = f
            if isn(init) and isn(v) and isn(ph) and T.sort(init) == "s" and ctx.pos and not self.mentions(G, lids, ()):
                d, front = sdelta(v, ph)
                if d is None:
                    c_, w_ = overwrite(v, ph)
                    if w_ is not None and not self.mentions(c_, lids, ()) and not self.mentions(w_, lids, bs):
                        prefix[ph] = self.prev_value(init, w_, bs, band(G, c_), ctx)
                elif d is not None:
                    e = T.sempty(subst(d, {lt(ZERO, T.ifn("strlen", ph)): bnot(T.sempty(ph)),
                                           eq(T.ifn("strlen", ph), ZERO): T.sempty(ph)}))
                    if not self.mentions(e, lids, ()):
                        ne = self.some_before(bs, band(G, bnot(e)), ctx)
                        pe = band(T.sempty(init), bnot(ne))
                        prefix[T.sempty(ph)] = pe
                        prefix[lt(ZERO, T.ifn("strlen", ph))] = bnot(pe)
                        prefix[eq(T.ifn("strlen", ph), ZERO)] = pe
            if isinstance(init, Arr) and isinstance(v, Arr) and isinstance(ph, Arr) and ph.shape != init.shape:
                for s0, s1, sp in zip(init.shape, v.shape, ph.shape):
                    if sp.op == "lv":
                        d = idelta(s1, sp)
                        if not self.mentions(d, lids, bs) and ctx.ord is not None and not self.guarded(G, bs):
                            prefix[sp] = add(s0, mul(ctx.ord, d))
                        elif ctx.ord is not None and not self.mentions(d, lids, ()) and \
                                not self.mentions(G, lids, ()):
                            prefix[sp] = add(s0, self.earlier(bs, G, d, ctx))
        for (c, path), (lid, init, ph) in mods.items():
            if isn(init) and isn(ph) and T.sort(init) in "ir" and ph not in prefix and ctx.pos:
                self.running_best(init, ph, vals[(c, path)], bs, G, lids, ctx, prefix)
        if prefix:
            # counters may feed each other only through already closed forms
            for _ in range(3):
                prefix = {k: subst(v, prefix) for k, v in prefix.items()}
            G = subst(G, prefix)
        for (c, path), (lid, init, ph) in mods.items():
            if (c, path) in final:
                continue
            v = vals[(c, path)]
            own = isn(ph) and T.sort(ph) in "bs" and ph in prefix
            v = self.apply_prefix_v(v, {k: x for k, x in prefix.items() if k is not ph} if own else prefix)
            final[(c, path)] = self.solve_leaf(entry, lid, init, ph, v, bs, G, lids, ctx, prefix)
        self.last_G = G
        return final, prefix

    def folded(self, init, ph, v, bs, G, lids):
        """init combined with the contributions of all iterations, for bit operations and changes of sign"""
        if self.mentions(G, lids, ()) or v is ph:
            return None
        for op, f, fold in (("or", T.or_, "ior"), ("xor", T.xor, "ixor")):
            d = bitdelta(v, ph, op, f)
            if d is not None and not self.mentions(d, lids, ()):
                return f(init, T.bitfold(fold, bs, G, d))
        d = bitdelta(v, ph, "and", and_)
        if d is not None and not self.mentions(d, lids, ()):
            return and_(init, T.not_(T.bitfold("ior", bs, G, T.not_(d))))
        c = signdelta(v, ph)
        if c is not None and not self.mentions(c, lids, ()):
            return ite(T.odd(mkisum(bs, band(G, c), ONE)), sub(ZERO, init), init)
        if T.isint(init):
            # two values in turn
            w = subst(v, {ph: init})
            if w.op == "ite" and T.isint(w.a[1]) and T.isint(w.a[2]) and init in w.a[1:]:
                c, o = (w.a[0], w.a[1]) if w.a[2] is init else (bnot(w.a[0]), w.a[2])
            elif T.isint(w) and w is not init:
                c, o = TRUE, w
            else:
                return None
            if subst(v, {ph: o}) is ite(c, init, o) and not self.mentions(c, lids, ()):
                return ite(T.odd(mkisum(bs, band(G, c), ONE)), o, init)
        return None

    def running_best(self, init, ph, v, bs, G, lids, ctx, prefix):
        """a variable replaced when a comparison with its own measure says so (largest or smallest so far)"""
        if not isn(v) or self.mentions(G, lids, ()):
            return
        c, w = overwrite(v, ph)
        if w is None or self.mentions(w, lids, ()):
            return
        neg = c.op == "bnot"
        q = c.a[0] if neg else c
        if q.op in ("flt", "lt"):
            x, y = q.a
            rel = lambda a, b: mk(q.op, a, b) if q.op == "flt" else lt(a, b)
        elif q.op == "ba" and q.a[0] == "fle":
            x, y = q.a[1:]
            rel = lambda a, b: mk("ba", "fle", a, b)
        else:
            return
        lid = {lid_of(ph.a[0])}
        if self.mentions(x, lid, ()) and not self.mentions(y, lids, ()) and subst(x, {ph: w}) is y:
            old, new, r = x, y, rel
        elif self.mentions(y, lid, ()) and not self.mentions(x, lids, ()) and subst(y, {ph: w}) is x:
            old, new, r = y, x, lambda a, b: rel(b, a)
        else:
            return
        first = subst(old, {ph: init})
        if self.mentions(first, lids, ()):
            return
        take = (lambda a, b: bnot(r(a, b))) if neg else r
        nb, ren, before = self.before(bs, ctx)
        u = band(take(first, new), bnot(elim.exists(nb, band(before, subst(G, ren), bnot(take(subst(new, ren), new))))))
        if neg:
            prefix[q] = bnot(u)
        else:
            prefix[c] = u

    def earlier(self, bs, G, d, ctx):
        """sum of d over the iterations before the current one"""
        nb, ren, before = self.before(bs, ctx)
        return mkisum(nb, band(before, subst(G, ren)), subst(d, ren))

    def some_before(self, bs, g, ctx):
        """some iteration before the current one satisfies g"""
        nb, ren, before = self.before(bs, ctx)
        return elim.exists(nb, band(before, subst(g, ren)))

    def before(self, bs, ctx):
        """an iteration before the current one: (binders, renaming, condition)"""
        nb = [refresh_binder(b) for b in bs]
        ren = dict(zip(bs, nb))
        return nb, ren, lexlt([subst(x, ren) for x in ctx.pos], ctx.pos)

    def prev_value(self, init, v, bs, G, ctx):
        """a variable overwritten in every iteration, at the start of an iteration"""
        some = self.some_before(bs, G, ctx)
        if not self.mentions(v, (), bs):
            return ite(some, v, init)
        nb, ren, before = self.before(bs, ctx)
        mb, mid, before2 = self.before(bs, ctx)
        between = band(lexlt([subst(x, ren) for x in ctx.pos], [subst(x, mid) for x in ctx.pos]), before2, subst(G, mid))
        last = band(before, subst(G, ren), bnot(elim.exists(mb, between)))
        s = T.sort(v)
        if s == "b":
            return ite(some, elim.exists(nb, band(last, subst(v, ren))), init)
        if s == "i":
            return ite(some, mkisum(nb, last, subst(v, ren)), init)
        return None

    def flag_before(self, init, ph, v, bs, G, lids, ctx):
        """a loop-carried flag at the start of an iteration"""
        m1, m0 = subst(v, {ph: TRUE}), subst(v, {ph: FALSE})
        if self.mentions(m1, lids, ()) or self.mentions(m0, lids, ()):
            return None
        if m1 is TRUE:
            return bor(init, self.some_before(bs, band(G, m0), ctx))
        if m0 is FALSE:
            return band(init, bnot(self.some_before(bs, band(G, bnot(m1)), ctx)))
        if band(m0, bnot(m1)) is FALSE:
            # overwritten unless m1 and not m0
            return self.prev_value(init, m0, bs, band(G, bor(m0, bnot(m1))), ctx)
        return None

    def guarded(self, G, bs):
        """iterations are filtered (the ordinal is not the iteration count)"""
        return ctx_guarded(G, bs)

    def solve_leaf(self, entry, lid, init, ph, v, bs, G, lids, ctx, prefix):
        try:
            return self._solve_leaf(entry, lid, init, ph, v, bs, G, lids, ctx, prefix)
        except Unsupported as e:
            import os
            if os.environ.get("VERIF_LOOPS"):
                print("LOOP", e, type(init).__name__, type(v).__name__, "init", init, "\n   v", v, "\n   G", G, "\n   bs", bs)
            return Hole("loop: %s" % e)

    def _solve_leaf(self, entry, lid, init, ph, v, bs, G, lids, ctx, prefix):
        if isinstance(ph, Hole):
            if isinstance(v, Hole):
                return v
            return self.last_value(init, v, bs, G, lids, ctx, ph)
        if isn(init) and isn(v):
            s = T.sort(init)
            if s == "i":
                d = idelta(v, ph)
                if not self.mentions(d, lids, ()):
                    return add(init, mkisum(bs, G, d))
                d = idelta(v, scale(ph, 2))
                if not self.mentions(d, lids, ()) and ctx.ord is not None and not self.guarded(G, bs):
                    # v = 2 ph + d
                    rest = p2(sub(sub(ctx.count, ONE), ctx.ord))
                    return add(mul(init, p2(ctx.count)), mkisum(bs, G, mul(d, rest)))
                return self.last_value(init, v, bs, G, lids, ctx, ph)
            if s == "b":
                r = self.flag(init, ph, v, bs, G, lids)
                if r is not None:
                    return r
                return self.last_value(init, v, bs, G, lids, ctx, ph)
            if s == "s":
                d, front = sdelta(v, ph, prefix.get(T.sempty(ph)))
                if d is None or not ctx.pos or self.mentions(d, lids, ()):
                    return self.last_value(init, v, bs, G, lids, ctx, ph)
                if front:
                    return T.scat(T.sfor(bs, G, [sub(ZERO, x) for x in ctx.pos], d), init)
                return T.scat(init, T.sfor(bs, G, ctx.pos, d))
            if s == "r":
                D = rdelta(v, ph, None)
                if D is not None and not self.mentions(D, lids, ()):
                    return radd(init, elim.rsum(bs, G, D))
                c = signdelta(v, ph)
                if c is not None and not self.mentions(c, lids, ()) and not self.mentions(G, lids, ()):
                    return rite(T.odd(mkisum(bs, band(G, c), ONE)), rneg(init), init)
                u = unitdelta(v, ph)
                if u and not self.mentions(G, lids, ()):
                    from .models import ipow
                    return rmul(ipow(scale(mkisum(bs, G, ONE), u)), init)
                return self.last_value(init, v, bs, G, lids, ctx, ph)
            return self.last_value(init, v, bs, G, lids, ctx, ph)
        if isinstance(init, (Arr, Mp)) and type(v) is type(init):
            return self.solve_content(entry, lid, init, ph, v, bs, G, lids, ctx, prefix)
        raise Unsupported("loop-carried %s" % type(init).__name__)

    def last_value(self, init, v, bs, G, lids, ctx, ph=None):
        if isn(v) and isn(ph):
            c, w = overwrite(v, ph)
            if w is not None and not self.mentions(c, lids, ()):
                v, G = w, band(G, c)
        if self.vmentions(v, lids, ()):
            raise Unsupported("loop-carried dependence")
        if not self.vmentions(v, (), bs):
            return merge(elim.exists(bs, G), v, init)
        if isn(v) and isn(init) and T.sort(v) in "bir" and ctx.pos and not self.mentions(G, lids, ()):
            nb = [refresh_binder(b) for b in bs]
            ren = dict(zip(bs, nb))
            later = elim.exists(nb, band(lexlt(ctx.pos, [subst(x, ren) for x in ctx.pos]), subst(G, ren)))
            return merge(elim.exists(bs, G), self.pick(v, bs, band(G, bnot(later))), init)
        return Hole("value of the last iteration")

    def flag(self, init, ph, v, bs, G, lids):
        # v = ph or c
        m1 = subst(v, {ph: TRUE})
        m0 = subst(v, {ph: FALSE})
        if self.mentions(m1, lids, ()) or self.mentions(m0, lids, ()):
            return None
        if m1 is TRUE:
            return bor(init, elim.exists(bs, band(G, m0)))
        if m0 is FALSE:
            return band(init, bnot(elim.exists(bs, band(G, bnot(m1)))))
        if m1 is FALSE and m0 is FALSE:
            return band(init, bnot(elim.exists(bs, G)))
        if m1 is bnot(m0):
            return bxor(init, T.odd(mkisum(bs, band(G, m0), ONE)))
        return None

    def solve_content(self, entry, lid, init, ph, v, bs, G, lids, ctx, prefix):
        ks = init.ks if isinstance(init, Arr) else (init.k,)
        vks = v.ks if isinstance(v, Arr) else (v.k,)
        body = v.body
        if vks != ks:
            body = vsubst(body, dict(zip(vks, ks)))
        name = "L#%d" % lid
        if isinstance(init, Arr):
            shape = init.shape
            if ph.shape != init.shape:
                shape = []
                for s0, s1, sp in zip(init.shape, v.shape, ph.shape):
                    d = idelta(s1, subst(sp, prefix))
                    if sp is s0:
                        if s1 is not s0:
                            raise Unsupported("length changes in the loop")
                        shape.append(s0)
                    elif ctx.count is not None and not self.guarded(G, bs) and not self.mentions(d, lids, bs):
                        shape.append(add(s0, mul(ctx.count, d)))
                    elif ctx.ord is not None and not self.mentions(d, lids, ()):
                        shape.append(add(s0, mkisum(bs, G, d)))
                    else:
                        shape.append(None)
                if any(x is None for x in shape):
                    return self.filtered_vec(init, ph, v, bs, G, lids, ctx)
            rangefacts = tuple(lt(k, s) for k, s in zip(ks, shape))
        else:
            shape = None
            rangefacts = ()
        here = rd(name, *ks)
        out = None
        if isn(body) and isn(init.body) and T.sort(body) == "r":
            body = self.untouched_reads(body, name, ks, init, bs, G)
        if isn(body) and T.sort(body) == "r":
            D = rdelta(body, here, name)
            if D is None:
                # positions are in range; whether a new value is zero does not matter where zero would be stored
                body = zero_tests(simp_in(body, rangefacts), name)
                D = rdelta(body, here, name)
            if D is not None and not self.mentions(D, lids, ()):
                s = elim.rsum(bs, G, D)
                s = simp_in(s, rangefacts)
                out = radd(init.body, s)
        if out is None:
            writes = []
            split_writes(body, name, TRUE, writes, ks)
            out = init.body
            if isinstance(out, Hole):
                out = Opq("uninit")
            for cond, val in writes:
                # reads of the element being written see its value before the loop
                cond2 = band(G, cond)
                rbs, g2, s2 = elim.eliminate(bs, cond2)
                own = not rbs
                val2 = self.own_reads(val, name, ks, init, own, s2)
                g3 = self.own_reads(g2, name, ks, init, own, s2)
                if self.vmentions(val2, lids, ()) or self.mentions(g3, lids, ()):
                    raise Unsupported("loop reads elements written by other iterations")
                if not rbs:
                    g3 = simp(g3, rangefacts)
                    if isinstance(out, Opq) and isinstance(init, Arr) and init.shape[0] is ZERO:
                        g3 = TRUE       # a collection that starts empty: every position was written
                    out = merge(g3, vsubst(val2, s2), out)
                else:
                    out = elim.scatter(rbs, g3, vsubst(val2, s2), out)
        if isinstance(init, Arr):
            return Arr(shape, ks, out, init.kind)
        return Mp(init.k, out)

    def untouched_reads(self, body, name, ks, init, bs, G):
        """reads at positions that no other iteration writes see the value before the loop"""
        rds = [r for r in T.reads(body) if r.a[0] == name and r.a[1] != ks]
        if not rds:
            return body
        writes = []
        split_writes(body, name, TRUE, writes, ks)
        nb = [refresh_binder(b) for b in bs]
        ren = dict(zip(bs, nb))
        rep = {}
        facts = elim.conjuncts(G)
        for r in rds:
            at = dict(zip(ks, r.a[1]))
            for cond, val in writes:
                c = band(subst(subst(band(G, cond), ren), at), bnot(band(*[eq(x, y) for x, y in ren.items()])))
                if simp(elim.exists(nb, c), tuple(facts)) is not FALSE:
                    break
            else:
                rep[r] = subst(init.body, dict(zip(ks, r.a[1])))
        if not rep:
            return body
        return T.replace_reads(body, lambda r: rep.get(r))

    def filtered_vec(self, init, ph, v, bs, G, lids, ctx):
        raise Unsupported("collection of a filtered sequence")

    def own_reads(self, val, name, ks, init, own, s2):
        def fix(t):
            def fn(r):
                if r.a[0] == name:
                    if not own:
                        return None
                    idx = [subst(i, s2) for i in r.a[1]]
                    if all(i is k for i, k in zip(idx, ks)):
                        b = init.body
                        return b if isn(b) else None
                return None
            return T.replace_reads(t, fn)
        if isn(val):
            return fix(val)
        return vmap(val, fix)

    def summarise_while(self, fr, st, body, header, inner):
        """counter-controlled loops"""
        base = len(st.facts)
        entry = st
        mods = {}
        cells0 = list(entry.cells)
        for rnd in range(12):
            s1 = entry.copy()
            for (c, path), (lid, init, ph) in mods.items():
                s1.cells[c] = self.setp(s1.cells[c], path, ph)
            inst = dict(s1.cells)
            ctx = LoopCtx(None, None, None, "while")
            np_, ne = len(self.panics), len(self.events)
            outs = body(s1, ctx)
            del self.panics[np_:]
            del self.events[ne:]
            nexts = [s for b, s in outs if b == "next"]
            if not nexts:
                break
            sn = self.merge_states(nexts, base)
            new = []
            for c in cells0:
                if c not in sn.cells:
                    continue
                out = []
                self.leaves(inst[c], sn.cells[c], (), out)
                for path in out:
                    if (c, path) not in mods:
                        new.append((c, path))
            if not new:
                break
            for c, path in new:
                for (c2, p2_) in [k for k in mods if k[0] == c and k[1][:len(path)] == path]:
                    del mods[(c2, p2_)]
                init = self.getl(entry.cells[c], path)
                self.nc += 1
                mods[(c, path)] = (self.nc, init, self.placeholder(init, self.nc))
        else:
            raise Unsupported("loop state does not stabilise")
        if not nexts:
            return [(b, s) for b, s in outs]
        # find the controlling counter
        lids = self.ph_ids(mods)
        cand = None
        for (c, path), (lid, init, ph) in mods.items():
            if not (isn(init) and isn(ph) and T.sort(init) == "i"):
                continue
            v = self.getp(sn.cells[c], path)
            if not isn(v):
                continue
            d = idelta(v, ph)
            if d not in (ONE, INT(-1)):
                continue
            for f in sn.facts[base:]:
                n = stay_bound(f, ph, d)
                if n is not None and not self.mentions(n(init), lids, ()):
                    cand = (c, path, lid, init, ph, d, n, f)
                    break
            if cand:
                break
        half = None if cand else self.halving(mods, sn, base)
        if cand is None and half is None:
            if self.conf.get("series"):
                return self.kept(entry, mods, sn, [(b, s) for b, s in outs if b != "next"], base, [], None)
            raise Unsupported("loop without a recognised induction variable")
        if half:
            c, path, init, count, fin, stay = half
            o = mkbinder(count)
            cur = shr(init, o)
            more = {x: TRUE for x in stay(shr(cur, ONE))}
            more.update({bnot(x): FALSE for x in more})
            stay = stay(cur)
            self.required.update(stay)
        else:
            c, path, lid, init, ph, d, n, f = cand
            count = n(init)
            o = mkbinder(count)
            cur = add(init, o) if d is ONE else sub(init, o)
            stay, more = (), {}

        def body2(s2, ctx2):
            ctx2.binders.append(o)
            ctx2.ord = o
            ctx2.count = count
            ctx2.more = more
            s2.cells[c] = self.setp(s2.cells[c], path, cur)
            for x in stay:
                s2.assume(x)
            outs2 = body(s2, ctx2)
            res = []
            for b, s in outs2:
                if b == "next":
                    s.cells[c] = self.setp(s.cells[c], path, init) if False else s.cells[c]
                res.append((b, s))
            return res

        # the counter itself is installed by body2: hide its change from the summary
        def body3(s2, ctx2):
            keep = s2.cells[c]
            outs2 = body2(s2, ctx2)
            for b, s in outs2:
                if b == "next":
                    s.cells[c] = self.setp(s.cells[c], path, self.getp(keep, path))
            return outs2
        done, early = self.summarise(entry, body3)
        if not half:
            fin = ite(bnot(lt(count, ONE)), add(init, mul(count, d)), init) if not nonneg(count) else \
                add(init, mul(count, d))
        res = list(early)
        for s in done:
            s.cells[c] = self.setp(s.cells[c], path, fin)
            ctx3 = LoopCtx(None, None, None, "while")
            self.loops.append(ctx3)
            try:
                outs = self.run(fr, s, header, inner, True)
            finally:
                self.loops.pop()
            for b, x in outs:
                if b == header:
                    raise Unsupported("counter loop does not leave at its bound")
                res.append((b, x))
        return res


    def halving(self, mods, sn, base):
        """a leaf halved every iteration until it is 0 (or 1): its bit length is the trip count"""
        for (c, path), (lid, init, ph) in mods.items():
            if not (isn(init) and isn(ph) and T.sort(init) == "i" and nonneg(init)):
                continue
            if self.getp(sn.cells[c], path) is not div(ph, INT(2)):
                continue
            for f in sn.facts[base:]:
                if f in (bnot(eq(ZERO, ph)), lt(ZERO, ph), bnot(lt(ph, ONE))):
                    return c, path, init, ite(eq(init, ZERO), ZERO, add(T.ilog2(init), ONE)), ZERO, \
                        lambda x: (bnot(eq(ZERO, x)), lt(ZERO, x), bnot(lt(x, ONE)))
                if f in (lt(ONE, ph), bnot(lt(ph, INT(2)))):
                    return c, path, init, ite(eq(init, ZERO), ZERO, T.ilog2(init)), \
                        ite(eq(init, ZERO), ZERO, ONE), lambda x: (lt(ONE, x), bnot(lt(x, INT(2))))
        return None


# ------------------------------------------------------------------ helpers
def arr_like(v):
    return isinstance(v, St) and v.kind == "arr" and v.f and all(isn(x) and T.sort(x) == "r" for x in v.f)


def arr_form(v):
    k = freshk()
    return Arr((INT(len(v.f)),), (k,), T.rtab(k, list(v.f)), "arr")


def stay_bound(f, ph, d):
    """condition under which the loop body runs -> function init -> trip count"""
    if d is ONE:
        if f.op == "lt" and f.a[0] is ph:
            n = f.a[1]
            return lambda init: sub(n, init)
        if f.op == "lt" and ph in freevars(f.a[0]):
            k = sub(f.a[0], ph)
            n = sub(f.a[1], k)
            if ph not in freevars(n):
                return lambda init: sub(n, init)
        if f.op == "bnot" and f.a[0].op == "lt" and f.a[0].a[1] is ph:     # ph <= n
            n = f.a[0].a[0]
            return lambda init: add(sub(n, init), ONE)
        if f.op == "bnot" and f.a[0].op == "eq" and ph in f.a[0].a:
            n = f.a[0].a[0] if f.a[0].a[1] is ph else f.a[0].a[1]
            return lambda init: sub(n, init)
    else:
        if f.op == "lt" and f.a[1] is ph:          # n < ph
            n = f.a[0]
            return lambda init: sub(init, n)
        if f.op == "bnot" and f.a[0].op == "eq" and ph in f.a[0].a:
            n = f.a[0].a[0] if f.a[0].a[1] is ph else f.a[0].a[1]
            return lambda init: sub(init, n)
        if f.op == "bnot" and f.a[0].op == "lt" and f.a[0].a[0] is ph:     # ph >= n
            n = f.a[0].a[1]
            return lambda init: add(sub(init, n), ONE)
    return None


def mkbinder(n):
    """fresh index binder over [0, n)"""
    p = T.topoly(n)
    if len(p) == 1:
        (m, c), = p.items()
        e = T._monoexp(m, c)
        if e is not None:
            return T.VAR(T.fresh("i"), e)
    return T.NVAR(T.fresh("n"), n)


def ctx_guarded(G, bs):
    return any(any(b in freevars(c) for b in bs) or True for c in elim.conjuncts(G))


def mkisum(bs, G, d):
    if d is ZERO or G is FALSE:
        return ZERO
    if G is TRUE and len(bs) == 1 and bs[0] not in freevars(d):
        n = p2(bs[0].a[1]) if bs[0].op == "var" else bs[0].a[1]
        if nonneg(n):
            return mul(n, d)
    if d.op == "ite" and d.a[2] is ZERO:
        return mkisum(bs, band(G, d.a[0]), d.a[1])
    if d.op == "ite" and d.a[1] is ZERO:
        return mkisum(bs, band(G, bnot(d.a[0])), d.a[2])
    return T.isum(bs, G, d)


def bitdelta(v, ph, op, f):
    """d with v = ph op d"""
    if v is ph:
        return ZERO if op != "and" else INT(T.ALL64)
    if v.op == op and ph in v.a[0]:
        return f(*[x for x in v.a[0] if x is not ph])
    if v.op == "ite":
        x, y = bitdelta(v.a[1], ph, op, f), bitdelta(v.a[2], ph, op, f)
        return ite(v.a[0], x, y) if x is not None and y is not None else None
    return None


def signdelta(v, ph):
    """the condition under which v is -ph, if it is ph otherwise"""
    if v is ph:
        return FALSE
    if v is sub(ZERO, ph) or T.sort(v) == "r" and v is rneg(ph):
        return TRUE
    if v.op in ("ite", "rite"):
        x, y = signdelta(v.a[1], ph), signdelta(v.a[2], ph)
        return T.bite(v.a[0], x, y) if x is not None and y is not None else None
    return None


def idelta(v, ph):
    """v - ph, conditions distributed"""
    d = sub(v, ph)
    if v.op == "ite" and any(x in freevars(d) for x in freevars(ph)):
        return ite(v.a[0], idelta(v.a[1], ph), idelta(v.a[2], ph))
    return d


def lexlt(xs, ys):
    out, same = FALSE, TRUE
    for x, y in zip(xs, ys):
        out = bor(out, band(same, lt(x, y)))
        same = band(same, eq(x, y))
    return out


def overwrite(v, ph):
    """v as 'w where c, otherwise unchanged' -> (c, w)"""
    if v is ph:
        return FALSE, None
    if T.sort(v) == "b":
        m1, m0 = subst(v, {ph: TRUE}), subst(v, {ph: FALSE})
        return (bor(m0, bnot(m1)), m0) if band(m0, bnot(m1)) is FALSE else (TRUE, v)
    if v.op in ("ite", "rite", "site"):
        c1, w1 = overwrite(v.a[1], ph)
        c2, w2 = overwrite(v.a[2], ph)
        w = w2 if w1 is None else w1 if w2 is None else ite(v.a[0], w1, w2)
        return bor(band(v.a[0], c1), band(bnot(v.a[0]), c2)), w
    return TRUE, v


def sdelta(v, ph, empty=None):
    """what an iteration adds to a string: (text, True when it goes in front) or (None, False)"""
    d, front = _sdelta(v, ph, (T.sempty(ph), empty), False)
    return d, bool(front)


def _sdelta(v, ph, tests, empty):
    if v is ph:
        return mk("str", ""), None
    if v.op == "scat":
        if v.a[0][0] is ph:
            return T.scat(*v.a[0][1:]), False
        if v.a[0][-1] is ph:
            return T.scat(*v.a[0][:-1]), True
        if ph not in freevars(T.scat(*v.a[0][1:])):
            d, front = _sdelta(v.a[0][0], ph, tests, empty)
            return (None, False) if d is None or front else (T.scat(d, *v.a[0][1:]), False)
        if ph not in freevars(T.scat(*v.a[0][:-1])):
            d, front = _sdelta(v.a[0][-1], ph, tests, empty)
            return (None, False) if d is None or front is False else (T.scat(*v.a[0][:-1], d), True)
    if v.op == "site":
        # where the text so far is empty, replacing it is adding to it
        c = v.a[0]
        x, fx = _sdelta(v.a[1], ph, tests, empty or c in tests or any(k in tests for k in elim.conjuncts(c)))
        y, fy = _sdelta(v.a[2], ph, tests, empty or bnot(c) in tests)
        if x is not None and y is not None and (fx is None or fy is None or fx == fy):
            return ite(c, x, y), fy if fx is None else fx
    if empty and ph not in freevars(v):
        return v, None
    return None, False


def rdelta(v, ph, name):
    """v - ph if v is ph plus something (conditions distributed)"""
    if v is ph:
        return R0
    if v.op == "radd":
        rest = []
        hit = False
        for u in v.a[0]:
            if u is ph and not hit:
                hit = True
            else:
                rest.append(u)
        if hit:
            return radd(*rest) if rest else R0
        # one gated summand may carry the old value
        for i, u in enumerate(v.a[0]):
            if u.op == "rite" and mentions_node(u, ph):
                d = rdelta(u, ph, name)
                if d is not None:
                    return radd(d, *[w for j, w in enumerate(v.a[0]) if j != i])
        return None
    if v.op == "rite":
        c, a, b = v.a
        if name is not None:
            a = under_eq(c, a, name, ph)
            b = under_eq(bnot(c), b, name, ph)
        da = rdelta(a, ph, name)
        if da is None:
            return None
        db = rdelta(b, ph, name)
        if db is None:
            return None
        return rite(c, da, db)
    return None


def unitdelta(v, ph):
    """e with v = i^e * ph, else None"""
    for e, c in ((1, T.rc(0, 1)), (2, T.rc(-1)), (3, T.rc(0, -1))):
        if v is T.rmul(c, ph):
            return e
    return None


def mentions_node(t, x):
    st = [t]
    seen = set()
    while st:
        y = st.pop()
        if y is x:
            return True
        if y in seen:
            continue
        seen.add(y)
        st.extend(T.children(y))
    return False


def under_eq(c, a, name, ph):
    """within c: replace reads name[t] by name[K] when c contains K == t"""
    ks = ph.a[1]
    eqs = {}
    for g in elim.conjuncts(c):
        if g.op == "eq":
            for k in ks:
                if g.a[0] is k:
                    eqs[g.a[1]] = k
                elif g.a[1] is k:
                    eqs[g.a[0]] = k
    if not eqs:
        return a

    def fn(r):
        if r.a[0] == name:
            return rd(name, *[eqs.get(i, i) for i in r.a[1]])
        return None
    return T.replace_reads(a, fn)


def split_writes(body, name, cond, out, ks):
    """decompose gated content into (condition, new value) pairs; untouched = name[ks]"""
    if cond is FALSE:
        return
    if isn(body):
        if body.op == "rd" and body.a[0] == name and all(i is k for i, k in zip(body.a[1], ks)):
            return
        if body.op in ("ba", "ifn") and body.a[0] == name:
            return
        if body.op in ("rite", "ite"):
            c, a, b = body.a
            if body.op == "rite":
                ph = rd(name, *ks)
                a = under_eq(c, a, name, ph)
                b = under_eq(bnot(c), b, name, ph)
            split_writes(a, name, band(cond, c), out, ks)
            split_writes(b, name, band(cond, bnot(c)), out, ks)
            return
        if T.sort(body) == "b":
            # gated booleans lose their structure: recover ph-linear form
            ph = mk("ba", name, *ks)
            m1 = subst(body, {ph: TRUE})
            m0 = subst(body, {ph: FALSE})
            # body = (ph and m1) or m0 ; written when m1 == m0
            wr = bor(band(m1, m0), band(bnot(m1), bnot(m0)))
            if m1 is not TRUE or m0 is not FALSE:
                out.append((band(cond, m0), TRUE))
                out.append((band(cond, bnot(m1)), FALSE))
            return
        out.append((cond, body))
        return
    if isinstance(body, VIte):
        split_writes(body.x, name, band(cond, body.c), out, ks)
        split_writes(body.y, name, band(cond, bnot(body.c)), out, ks)
        return
    if isinstance(body, Opq) and body.name == name:
        return
    out.append((cond, body))


def vmap(v, f):
    if isn(v):
        return f(v)
    if isinstance(v, St):
        return St(v.kind, [vmap(x, f) for x in v.f])
    if isinstance(v, En):
        return En(v.key, f(v.d), {k: tuple(vmap(x, f) for x in p) for k, p in v.p.items()})
    if isinstance(v, Arr):
        return Arr([f(s) for s in v.shape], v.ks, vmap(v.body, f), v.kind)
    if isinstance(v, Mp):
        return Mp(v.k, vmap(v.body, f))
    if isinstance(v, VIte):
        return merge(f(v.c), vmap(v.x, f), vmap(v.y, f))
    return v


def simp_in(t, facts):
    """simplify the outer guard of a ring term under range facts"""
    if not facts:
        return t
    if t.op == "rite":
        c, a, b = simp(t.a[0], facts), simp_in(t.a[1], facts), simp_in(t.a[2], facts)
        if c is not t.a[0] or a is not t.a[1] or b is not t.a[2]:
            return rite(c, a, b)
    if t.op == "radd":
        return radd(*[simp_in(x, facts) for x in t.a[0]])
    if t.op == "rmul" and t.a[0][0].op == "rc":
        return rmul(t.a[0][0], simp_in(rmul(*t.a[0][1:]), facts))
    return t


def skipping(v):
    return isinstance(v, It) and v.k == "skip"


def zero_tests(t, name):
    """drop tests is_zero(X) of values computed from the content under construction, when both outcomes store the same"""
    for _ in range(4):
        tests = [z for z in bool_atoms(t) if z.op == "isz" and any(r.a[0] == name for r in T.reads(z))]
        for z in tests:
            off, on = subst(t, {z: FALSE}), subst(t, {z: TRUE})
            zero = {z.a[0]: R0}
            if same_gated(subst(on, zero), subst(off, zero), [200]):
                t = off
                break
        else:
            break
    return t


def bool_atoms(t):
    """atoms of the conditions that gate a ring term"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("rite", "radd", "rmul", "bnot", "band", "bor"):
            st.extend(T.children(x))
        elif T.sort(x) == "b":
            out.append(x)
    return out


def same_gated(a, b, fuel):
    """gated terms with the same value for every outcome of their conditions"""
    if a is b:
        return True
    at = bool_atoms(a)[:1] or bool_atoms(b)[:1]
    fuel[0] -= 1
    if not at or fuel[0] < 0:
        return False
    return all(same_gated(subst(a, {at[0]: v}), subst(b, {at[0]: v}), fuel) for v in (TRUE, FALSE))


def refresh_binder(b):
    return mk(b.op, T.fresh("u"), b.a[1])


def lid_of(n):
    if isinstance(n, str) and len(n) > 2 and n[1] == "#":
        return int(n[2:].split(".")[0])
    return None


def r_or_none(r):
    return bool(r)


def nodes(t, lim=60):
    n = 0
    st = [t]
    while st and n < lim:
        x = st.pop()
        n += 1
        st.extend(T.children(x))
    return n


def enumkey(path):
    if path.endswith("option::Option"):
        return OPT
    if path.endswith("result::Result"):
        return RES
    return path.replace("std::", "core::", 1) if path.startswith("std::") else path


def pick(elems, i):
    if T.isint(i):
        if 0 <= i.a[0] < len(elems):
            return elems[i.a[0]]
        raise Diverge()
    if all(isn(x) for x in elems) and elems:
        s = T.sort(elems[0])
        if s == "r":
            return T.rtab(i, elems)
        if s == "i":
            return T.tab(i, elems)
    v = elems[-1]
    for j in range(len(elems) - 2, -1, -1):
        v = merge(eq(i, INT(j)), elems[j], v)
    return v


def mapvals(t, f):
    """apply f to the integer leaves of a gated integer"""
    if T.isint(t):
        return f(t.a[0])
    if t.op == "ite":
        return ite(t.a[0], mapvals(t.a[1], f), mapvals(t.a[2], f))
    raise Unsupported("discriminant is not a gated constant")


def intleaves(t, out):
    if T.isint(t):
        out.add(t.a[0])
        return True
    if t.op == "ite":
        return intleaves(t.a[1], out) and intleaves(t.a[2], out)
    return False


def signparts(t):
    """gated sign value -> (null condition, minus parity)"""
    null = eq(t, ZERO)

    def par(x):
        if T.isint(x):
            return {0: None, 1: FALSE, -1: TRUE}[x.a[0]]
        a, b = par(x.a[1]), par(x.a[2])
        if a is None:
            return b
        if b is None:
            return a
        return T.bite(x.a[0], a, b) if not (a is TRUE and b is FALSE) and not (a is FALSE and b is TRUE) else (
            x.a[0] if a is TRUE else bnot(x.a[0]))
    p = par(t)
    if p is None:
        p = FALSE
    if null is not FALSE:
        p = simp(p, tuple(elim.conjuncts(bnot(null))))
    return null, p


def smul(a, b):
    """product of integers, keeping gated signs in (null, parity) form"""
    sa, sb = set(), set()
    if a.op == "ite" and b.op == "ite" and intleaves(a, sa) and intleaves(b, sb) and \
            sa <= {-1, 0, 1} and sb <= {-1, 0, 1}:
        n1, p1 = signparts(a)
        n2, p2_ = signparts(b)
        return ite(bor(n1, n2), ZERO, ite(bxor(p1, p2_), INT(-1), ONE))
    if a.op == "ite" and T.isint(b):
        return ite(a.a[0], smul(a.a[1], b), smul(a.a[2], b))
    if b.op == "ite" and T.isint(a):
        return ite(b.a[0], smul(a, b.a[1]), smul(a, b.a[2]))
    return mul(a, b)


def flt(a, b):
    if a.op == "rc" and b.op == "rc" and a.a[1] == 0 and b.a[1] == 0:
        return TRUE if a.a[0] < b.a[0] else FALSE
    return mk("flt", a, b)


def fle(a, b):
    if a.op == "rc" and b.op == "rc" and a.a[1] == 0 and b.a[1] == 0:
        return TRUE if a.a[0] <= b.a[0] else FALSE
    return mk("ba", "fle", a, b)


def int2r(a):
    if T.isint(a):
        return rc(a.a[0])
    if a.op == "ite":
        return rite(a.a[0], int2r(a.a[1]), int2r(a.a[2]))
    return rf("int", a)
