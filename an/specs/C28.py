"""C28: unsafe code, hidden state, thread safety."""
import re

from .. import witness as W
from ..session import tname
from .common import *

EXPLAIN = ("queries over the type-checked program: every body (functions, closures, constants) of the library is searched "
           "for unsafe blocks written in this crate, every impl and trait for unsafe ones, every resolved call, type and "
           "static for hidden state, interior mutability and I/O; the array-building helper's writes are derived for an "
           "arbitrary length and element function by value flow; Send, Sync and RefUnwindSafe of the public types are "
           "decided by the compiler on a client crate that is generic over the coefficients")
RULE = ("unsafe blocks only in a private function that builds [T; N] from a function of the index (or in helpers reached "
        "only through it); that function writes element n exactly once, with f(n), for every n < N; no static mut, no "
        "static with interior mutability, no cell, lock, atomic, thread-local, I/O, environment, time or thread call; "
        "coefficients Send/Sync/RefUnwindSafe => public value types are")
FLOOR = 8
TECH = "queries over the type-checked program, value-flow analysis of the unsafe helper, compile-time trait witnesses"

CELLS = re.compile(r"(^|::)(UnsafeCell|SyncUnsafeCell|Cell|RefCell|OnceCell|LazyCell|OnceLock|LazyLock|Once|Mutex|RwLock|"
                   r"ReentrantLock|Condvar|Barrier|Atomic\w*|LocalKey|Lazy|ThreadLocal|AtomicCell|ThreadRng|JoinHandle|"
                   r"ThreadId|Instant|SystemTime|Stdout|Stdin|Stderr|File|TcpStream|UdpSocket|Child|Command)$")
CALLS = re.compile(r"^(std|core|alloc)::(io|fs|env|process|thread|time|net|os|cell|random|backtrace)::"
                   r"|^(std|core|alloc)::sync::(?!Arc)"
                   r"|^(std|core)::panic::(set_hook|take_hook|update_hook)"
                   r"|^(std|core|alloc)::alloc::"
                   r"|::(read_volatile|write_volatile)$"
                   r"|RandomState.*::new$|DefaultHasher|hash_map::RandomState"
                   r"|^(libc|rand|getrandom|chrono|log|tracing|once_cell|lazy_static|parking_lot|crossbeam\w*|rayon\w*)::")


def walk(o, f):
    if isinstance(o, dict):
        f(o)
        for v in o.values():
            walk(v, f)
    elif isinstance(o, list):
        for v in o:
            walk(v, f)


def calls(b):
    out = []

    def g(o):
        fn = o.get("fn")
        if isinstance(fn, dict):
            out.append(fn)
    walk(b.get("body"), g)
    walk(b.get("promoted"), g)
    return out


def adts(t, out):
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == "adt" and isinstance(t[1], str):
            out.add(t[1])
        for x in t:
            adts(x, out)


def owner(p, b):
    """the function a closure or constant belongs to"""
    k = b["key"]
    while True:
        m = re.match(r"(.*)::\{(closure|constant|inline_const|anon_const)[^}]*\}$", k)
        if not m:
            return k
        k = m.group(1)


def run(cx):
    p = cx.prog
    entry = []
    for title, rule, least in LINTS:
        with cx.clause(title):
            n, found, notes = rule(p, entry)
            cx.cur["compared"] = n
            cx.cur.update(notes)
            for kind, text, where_, span in found:
                cx.violate(kind, text, where=where_, detail={"span": span})
            if n < least:
                raise Unsupported("only %d constructs were seen" % n)
    initialised(cx, p, entry, [k for k, b in p.bodies.items() if b.get("unsafe_blocks") or b.get("unsafe")])
    lib = W.Lib()
    try:
        examples(cx, lib)
        traits(cx, lib)
    finally:
        lib.close()


def unsafe_code(p, entry):
    U = {}
    out = []
    for k, b in p.bodies.items():
        if b.get("unsafe_blocks") or b.get("unsafe"):
            U.setdefault(owner(p, b), []).append(b)
    callers = {}
    for k, b in p.bodies.items():
        for fn in calls(b):
            for c in (fn.get("res"), fn.get("key")):
                if c in U:
                    callers.setdefault(c, set()).add(owner(p, b))
    for u in sorted(U):
        b = p.bodies.get(u) or U[u][0]
        outside = callers.get(u, set()) - set(U)
        if builder(p, b) and not b.get("unsafe") and not b.get("reach"):
            entry.append(u)
            continue
        if b["kind"] in ("Fn", "AssocFn") and not b.get("reach") and not outside and callers.get(u, set()) - {u}:
            continue        # reached only through the helper
        out.append(("unsafe", "unsafe code in %s (%s)" % (b["path"], "unsafe fn" if b.get("unsafe") else "unsafe block"),
                    b["path"], b["span"]))
    return len(p.bodies), out, {
        "functions_with_unsafe": sorted((p.bodies.get(u) or U[u][0])["path"] for u in U),
        "blocks_from_foreign_macros": sum(b.get("unsafe_foreign", 0) for b in p.bodies.values())}


DERIVED = ("std::clone::TrivialClone",)     # emitted by #[derive(Clone, Copy)]


def unsafe_impls(p, entry):
    out = [("unsafe impl", "unsafe impl %s for %s" % (im.get("trait"), tname(p.ty(im["self"]))),
            "impl %s" % im.get("trait"), im["span"])
           for im in p.impls if im.get("unsafe") and im.get("trait") not in DERIVED]
    return len(p.impls), out, {}


def initialised(cx, p, entry, unsafe):
    with cx.clause("the helper initialises every element exactly once"):
        if not entry:
            cx.cur["note"] = "no helper contains unsafe code"
        for u in entry:
            b = p.bodies[u]
            s = cx.sess(conf={"count_writes": True})
            D = T.SYM("D")
            env = {g: TS for g in b["generics"]}
            env[ret(p, b)[2][1]] = ("cst", D)
            args = [Opq("rfun", "f") if fnlike(p, b, p.ty(t)) else None for t in b["inputs"]]
            if None in args:
                raise Unsupported("parameters of %s" % b["path"])
            r = s.deep(s.call((u, b, env), args))
            n = NVAR("n", D)
            ms = [dict(m, syms=dict(m["syms"], D=m["dim"])) for m in dim_models(cx)]
            seen = [e["val"] for e in s.I.events if e["ev"] == "exposed"]
            if not seen:
                raise Unsupported("%s: the point where the array is exposed" % b["path"])
            for what, v in [("when exposed", v) for v in seen if isinstance(v, Arr)] + [("returned", r)]:
                if not hasattr(v, "at"):
                    raise Unsupported("result of %s" % b["path"])
                cx.equal("sum of the values written to element n, " + what, s.deep(v.at((n,))), rf("f", n), [n],
                         models=ms, where=b["path"], budget=10 ** 8)
                cx.equal("length", v.shape[0], D, [], models=ms, where=b["path"])
            for k in unsafe:
                for bb in p.bodies[k]["body"]["blocks"]:
                    if bb["t"][0] == "drop" and bb["t"][1][1] and not bb.get("cleanup"):
                        cx.violate("drop", "%s drops what a place held before the element is written" % b["path"],
                                   where=b["path"])
            cx.no_panics(s, models=ms)


def ret(p, b):
    return p.ty(b["output"])


def fnlike(p, b, t):
    while t[0] == "ref":
        t = t[1]
    if t[0] != "param":
        return False
    for tr, args in b["bounds"]:
        if re.search(r"::(Fn|FnMut|FnOnce)$", tr) and p.ty(args[0]) == t:
            return True
    return False


def builder(p, b):
    """fn(impl Fn(usize) -> T) -> [T; N]"""
    if b["kind"] not in ("Fn", "AssocFn"):
        return False
    t = ret(p, b)
    return t[0] == "array" and t[1][0] == "param" and not isinstance(t[2], int) and \
        any(fnlike(p, b, p.ty(i)) for i in b["inputs"])


def statics(p, entry):
    out = []
    for s in p.statics:
        if s["mut"] or not s.get("freeze", True):
            out.append(("static", "%s %s" % ("static mut" if s["mut"] else "static with interior mutability", s["path"]),
                        s["path"], s["span"]))
    return len(p.statics), out, {}


def cells(p, entry):
    seen = {}
    for b in p.bodies.values():
        for t in b["body"]["locals"]:
            a = set()
            adts(p.ty(t["ty"] if isinstance(t, dict) else t), a)
            for x in a:
                seen.setdefault(x, b["path"])
    for d in p.adts.values():
        for v in d["variants"]:
            for f in v[1]:
                a = set()
                adts(p.ty(f[1]), a)
                for x in a:
                    seen[x] = d["path"]
    for i in range(len(p.types)):
        a = set()
        adts(p.ty(i), a)
        for x in a:
            seen.setdefault(x, "")
    return len(seen), [("type", "%s uses %s" % (seen[a] or "the library", a), a, None)
                       for a in sorted(seen) if CELLS.search(a)], {}


def effects(p, entry):
    n = 0
    out = []
    for k, b in p.bodies.items():
        for fn in calls(b):
            n += 1
            if CALLS.search(fn.get("path") or ""):
                out.append(("call", "%s calls %s" % (b["path"], fn["path"]), b["path"], b["span"]))
    return n, out, {}


def addresses(p, entry):
    n = 0
    out = []
    for k, b in p.bodies.items():
        for bb in b["body"]["blocks"]:
            for st in bb["s"]:
                n += 1
                if st[0] == "=" and st[2][0] == "cast" and "Expose" in str(st[2][1]):
                    out.append(("address", "%s turns an address into a number" % b["path"], b["path"], b["span"]))
    return n, out, {}


LINTS = [("unsafe code only in the array-building helper", unsafe_code, 100),
         ("no unsafe impl", unsafe_impls, 50),
         ("no mutable or interior-mutable static", statics, 0),
         ("no cell, lock, atomic or thread-local type anywhere", cells, 20),
         ("no I/O, environment, time, thread or hidden-state call", effects, 500),
         ("no result depends on an address", addresses, 1000)]

EXAMPLES = [
    ("unsafe", "pub fn e1(a: &[u8]) -> u8 { unsafe { *a.get_unchecked(0) } }"),
    ("unsafe", "pub unsafe fn e2() {}"),
    ("unsafe", "pub fn e2b(a: &[u8]) -> Vec<u8> { (0..2).map(|i| unsafe { *a.get_unchecked(i) }).collect() }"),
    ("unsafe impl", "pub struct E3(pub *const u8); unsafe impl Sync for E3 {}"),
    ("static", "pub static mut E4: usize = 0;"),
    ("static", "pub static E5: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);"),
    ("static", "pub fn e5b() -> u8 { static M: std::sync::Mutex<u8> = std::sync::Mutex::new(0); *M.lock().unwrap() }"),
    ("type", "pub struct E6 { pub x: std::cell::RefCell<u8> }"),
    ("type", "thread_local! { pub static E7: std::cell::Cell<u8> = const { std::cell::Cell::new(0) }; }"),
    ("call", "pub fn e8() { println!(\"x\"); }"),
    ("call", "pub fn e9() -> bool { std::env::var(\"X\").is_ok() }"),
    ("call", "pub fn e10() -> std::time::Instant { std::time::Instant::now() }"),
    ("call", "pub fn e11() { std::thread::spawn(|| 1).join().unwrap(); }"),
    ("address", "pub fn e12(a: &u8) -> usize { a as *const u8 as usize }"),
]


def examples(cx, lib):
    """each rule must find the hazard written for it in a copy of the library"""
    with cx.clause("each rule finds its own positive examples"):
        from ..mir import Prog
        mod = "\n".join("pub mod x%d { %s }" % (i, e[1]) for i, e in enumerate(EXAMPLES))
        q = Prog(lib.dump(mod))
        base, got = set(), set()
        for _, rule, _ in LINTS:
            base |= {(f[0], f[1]) for f in rule(cx.prog, [])[1]}
            got |= {(f[0], f[1]) for f in rule(q, [])[1]}
        new = got - base
        for i, (kind, text) in enumerate(EXAMPLES):
            cx.cur["compared"] += 1
            if not any(k == kind and (re.search(r"\bx%d\b" % i, t) or kind == "type" and "Cell" in t
                                        or kind == "unsafe impl" and " for E3" in t) for k, t in new):
                raise Unsupported("the rule for %s does not see `%s`" % (kind, text))


TYPES = ["Multivector<T, S0>", "SparseMultivector<T, S1>", "Multivector<T, S2>", "SparseMultivector<T, S0>",
         "FFTRepr<S0>", "FFTRepr<S2>", "ClError", "Sign", "S0", "QuaternionAlgebra"]


def traits(cx, lib):
    both = "Send + Sync + std::panic::RefUnwindSafe + std::panic::UnwindSafe"
    lines = ["pub fn t%d<T: Ring + Clone + %s>() { needs::<%s>() }" % (i, both, t) for i, t in enumerate(TYPES)]
    lines += ["pub fn q<T: DivRing + Clone + Copy + %s>() { needs::<Quaternion<T>>() }" % both]
    for j, t in enumerate(("Multivector<T, A>", "SparseMultivector<T, A>", "FFTRepr<A>")):
        lines.append("pub fn g%d<T: Ring + Clone + %s, A: ClAlgebra + %s>() { needs::<%s>() }" % (j, both, both, t))
    lines += ["pub fn c0(a: &Multivector<f64, S0>) { val(&a.fft()); val(&a.to_sparse()); val(&a.rev()); }"]
    for tr in ("Send", "Sync", "std::panic::RefUnwindSafe", "std::panic::UnwindSafe"):
        name = tr.split("::")[-1]
        with cx.clause("public value types are %s when the coefficients are" % name):
            head = ["use tclifford::types::*;", "use tclifford::quaternion::*;",
                    "use tclifford::{ClAlgebra, ClError, FFTRepr, Multivector, SparseMultivector};",
                    "tclifford::declare_algebra!(pub S0, [+,+], []);", "tclifford::declare_algebra!(pub S1, [-], []);",
                    "tclifford::declare_algebra!(pub S2, [+,-,0], []);",
                    "pub fn needs<X: %s>() {}", "pub fn val<X: %s>(_: &X) {}"]
            control = ["pub fn k<'a>() { needs::<(*const u8, &'a mut u8, std::cell::UnsafeCell<u8>)>() }"]
            r = lib.check_all({"twin": "\n".join(head + lines + control).replace("%s", "Sized") + "\n",
                               "needed": "\n".join(head + lines).replace("%s", tr) + "\n",
                               "control": "\n".join(head + control).replace("%s", tr) + "\n"})
            if r["twin"]:
                raise Unsupported("witness without the trait: %s" % (r["twin"][0],))
            if not [c for c in r["control"] if c[0] == "E0277"]:
                raise Unsupported("the control is accepted")
            cx.cur["compared"] = len(lines)
            for code, ln, msg in r["needed"][:6]:
                if not ln or ln <= len(head):
                    raise Unsupported("witness: %s %s" % (code, msg))
                cx.violate("not " + name, "%s (`%s`)" % (msg, lines[ln - len(head) - 1]), where=name,
                           detail={"code": code})
