"""Strings and formatting: text is a concatenation of literals, opaque names and renderings, and loops over them."""
from . import terms as T
from .models import model, NI, UNIT, OPT, RES, as_iter, consume, isstr, isring, isint_, to_text, view
from .interp import mkbinder
from .terms import FALSE, TRUE, ZERO, Unsupported, eq, isn, ite, mk
from .vals import Arr, Clo, En, FnV, It, Opq, Ref, St, Vw

OKU = En(RES, ZERO, {0: (UNIT,)})
FORMATTER = "std::fmt::Formatter"
EMPTY = mk("str", "")


def formatter(alternate, sign_plus):
    """an empty formatter with the given flags (width, precision and fill are carried opaquely)"""
    return St(FORMATTER, (EMPTY, alternate, sign_plus))


def text(I, st, v):
    v = I.deep(st, v)
    if isinstance(v, St) and v.kind == FORMATTER:
        return v.f[0]
    if isstr(v):
        return v
    raise Unsupported("text of %s" % type(v).__name__)


def home(I, st, r):
    """the location of the string or formatter itself"""
    while isinstance(r, Ref):
        v = I.read(st, r)
        if not isinstance(v, Ref):
            return r, v
        r = v
    raise Unsupported("write to a temporary")


def append(I, st, r, s):
    r, v = home(I, st, r)
    if isinstance(v, St) and v.kind == FORMATTER:
        I.write(st, r, St(FORMATTER, (T.scat(v.f[0], s),) + tuple(v.f[1:])))
    elif isstr(v):
        I.write(st, r, T.scat(v, s))
    else:
        raise Unsupported("write to %s" % type(v).__name__)


@model("write_str", "write_char", "write_fmt")
def m_write(c):
    x = c.I.deep(c.st, c.a[1])
    if isinstance(x, Opq) and x.name == "fmtargs":
        x = render(c.I, c.st, x)
    if not isstr(x):
        return NI
    append(c.I, c.st, c.a[0], x)
    return OKU


@model("alternate", "sign_plus")
def m_flags(c):
    r, v = home(c.I, c.st, c.a[0])
    if isinstance(v, St) and v.kind == FORMATTER:
        return v.f[1 if c.name == "alternate" else 2]
    return NI


@model("fmt")
def m_fmt(c):
    """a coefficient rendered with the flags of the formatter"""
    x = c.I.deep(c.st, c.a[0])
    tr = (c.f.get("trait") or "").split("::")[-1]
    if tr and isring(x):
        append(c.I, c.st, c.a[1], mk("sf", "fmt", mk("str", tr), x, mk("str", "flags of the formatter")))
        return OKU
    return NI


ARGS = {"new_display": "Display", "new_lower_exp": "LowerExp", "new_upper_exp": "UpperExp", "new_debug": "Debug"}


@model(*ARGS)
def m_arg(c):
    return Opq("fmtarg", ARGS[c.name], c.a[0])


@model("from_str", "new_const", "from_str_nonconst")
def m_fromstr(c):
    x = c.I.deep(c.st, c.a[0])
    if isstr(x) and "Arguments" in c.f["path"]:
        return Opq("fmtargs", (x,), ())
    return NI


def arguments(c):
    """core::fmt::Arguments::new: template bytes and arguments"""
    I, st = c.I, c.st
    t = I.deep(st, c.a[0])
    args = I.deep(st, c.a[1])
    if not (isinstance(t, Opq) and t.name == "mem" and isinstance(t.a[0], tuple)) or not isinstance(args, St):
        raise Unsupported("format template")
    b = bytes(t.a[0])
    out = []
    i, nxt = 0, 0
    while b[i] != 0:
        x = b[i]
        i += 1
        if x < 0x80:
            out.append(mk("str", b[i:i + x].decode()))
            i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8
            out.append(mk("str", b[i + 2:i + 2 + n].decode()))
            i += 2 + n
        elif x == 0xc0:
            out.append(args.f[nxt])
            nxt += 1
        elif x & 0xf0 == 0xc0:
            opts = []
            for bit, n in ((1, 4), (2, 2), (4, 2)):
                if x & bit:
                    opts.append((bit, int.from_bytes(b[i:i + n], "little")))
                    i += n
            if x & 8:
                nxt = b[i] | b[i + 1] << 8
                i += 2
            a = args.f[nxt]
            nxt += 1
            out.append(Opq("fmtarg", a.a[0], a.a[1], str(opts)) if opts else a)
        else:
            raise Unsupported("format template byte %d" % x)
    return Opq("fmtargs", tuple(out), ())


def render(I, st, args):
    out = []
    for p in args.a[0]:
        if isn(p):
            out.append(p)
            continue
        tr, v = p.a[0], I.deep(st, p.a[1])
        opts = p.a[2] if len(p.a) > 2 else ""
        if isinstance(v, Opq) and v.name == "fmtargs" and not opts:
            out.append(render(I, st, v))
        elif isstr(v) and tr == "Display" and not opts:
            out.append(v)
        elif isint_(v) and tr in ("Display", "Debug") and not opts:
            out.append(to_text(v))
        elif isn(v):
            out.append(mk("sf", "fmt", mk("str", tr), v, mk("str", opts or "plain")))
        else:
            raise Unsupported("rendering of %s" % type(v).__name__)
    return T.scat(*out)


@model("format")
def m_format(c):
    x = c.I.deep(c.st, c.a[0])
    return render(c.I, c.st, x) if isinstance(x, Opq) and x.name == "fmtargs" else NI


@model("must_use")
def m_mustuse(c):
    return c.a[0]


def charset(I, st, p):
    """the characters a pattern matches, or None"""
    p = I.deep(st, p)
    if isn(p) and p.op == "str":
        return p.a[0] if len(p.a[0]) == 1 else None
    if isinstance(p, St) and all(isn(x) and x.op == "str" for x in p.f):
        return "".join(sorted(x.a[0] for x in p.f))
    if isinstance(p, (Clo, FnV)):
        out = ""
        for n in range(32, 127):
            b = I.call_value(st, p, [mk("str", chr(n))])
            if b not in (TRUE, FALSE):
                return None
            if b is TRUE:
                out += chr(n)
        return out
    return None


@model("chars")
def m_chars(c):
    v = c.I.deep(c.st, c.a[0])
    return Opq("chars", v) if isstr(v) else NI


@model("starts_with")
def m_starts(c):
    v, k = c.I.deep(c.st, c.a[0]), charset(c.I, c.st, c.a[1])
    return mk("ba", "str_starts", v, mk("str", k)) if isstr(v) and k else NI


@model("reverse")
def m_reverse(c):
    """the order of a slice reversed in place"""
    I, st = c.I, c.st
    r, v = home(I, st, c.a[0])
    if isinstance(v, Opq) and v.name == "iter":
        I.write(st, r, Opq("iter", It("rev", v.a[0])))
        return UNIT
    if isinstance(v, Arr) and len(v.shape) == 1:
        I.write(st, r, Arr(v.shape, v.ks, v.at((T.sub(T.sub(v.shape[0], T.ONE), v.ks[0]),)), v.kind))
        return UNIT
    return NI


@model("join", "concat")
def m_join(c):
    I, st = c.I, c.st
    sep = I.deep(st, c.a[1]) if len(c.a) > 1 else EMPTY
    if not isstr(sep):
        return NI
    v = I.deep(st, c.a[0])
    if isinstance(v, St) and v.kind == "arr" and all(isstr(I.deep(st, x)) for x in v.f):
        out = EMPTY
        for i, x in enumerate(v.f):
            out = T.scat(out, sep if i else EMPTY, I.deep(st, x))
        return out
    if isinstance(v, (Arr, Vw)):
        if v.shape[0] is ZERO:
            return EMPTY
        w = view(I, st, c.a[0])
        b = mkbinder(w.shape[0])
        x = I.deep(st, w.at((b,)))
        if not isstr(x):
            return NI
        return T.sfor([b], TRUE, [b], T.scat(ite(eq(b, ZERO), EMPTY, sep), x))
    acc, first = I.tmpref(st, EMPTY), I.tmpref(st, TRUE)

    def step(s, x):
        x = I.deep(s, x)
        if not isstr(x):
            if not isn(x):
                raise Unsupported("join of %s" % type(x).__name__)
            x = to_text(x)
        I.write(s, acc, T.scat(I.read(s, acc), ite(I.read(s, first), EMPTY, sep), x))
        I.write(s, first, FALSE)
    consume(I, st, as_iter(I, st, v, c.a[0] if isinstance(c.a[0], Ref) else None), step)
    r = I.read(st, acc)
    if not isstr(r):
        raise Unsupported("joined text")
    return r


@model("insert_str")
def m_insertstr(c):
    I, st = c.I, c.st
    r, v = home(I, st, c.a[0])
    x = I.deep(st, c.a[2])
    if isstr(v) and isstr(x) and c.a[1] is ZERO:
        I.write(st, r, T.scat(x, v))
        return UNIT
    return NI


@model("truncate", "pop")
def m_unstr(c):
    r, v = home(c.I, c.st, c.a[0])
    if isstr(v):
        raise Unsupported("shortened text")
    return NI
