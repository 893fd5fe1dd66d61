"""Clause bookkeeping: comparison of normal forms, verdicts, evidence."""
import contextlib
import itertools
import os
import random
import time
import traceback

from . import evalm
from . import terms as T
from .evalm import Model
from .interp import Diverge
from .session import Missing, Sess
from .terms import TRUE, FALSE, Unsupported, band, freevars, isn

LIMIT = {"quick": 20, "thorough": 120}
SMALL = [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2), (3, 0), (2, 1), (1, 2), (4, 0), (3, 1), (2, 2), (0, 3)]
MID = [(5, 0), (4, 1), (6, 0), (5, 1)]
BIG = [(7, 0), (6, 1), (5, 2), (8, 0)]


def plain_models(tier, seed, big=True):
    out = []
    n = 0
    for (m, s) in SMALL + MID + (BIG if big else []):
        reps = 2 if m >= 2 and m + s <= 4 else 1
        if tier == "thorough":
            reps *= 3
        for r in range(reps):
            n += 1
            rnd = random.Random("%d|%d|%d|%d" % (seed, m, s, r))
            R = rnd.randrange(1 << m)
            full = (1 << m) - 1
            if r == 0 and m >= 2:
                R = 0
                for i in range(0, m, 2):
                    R |= 1 << i
            out.append({"syms": {"m": m, "s": s}, "masks": {"R": R, "I": full & ~R}, "seed": "%d.%d" % (seed, n),
                        "dim": m + s, "grow": grow_plain})
    return out


def grow_plain(rnd, d):
    """an algebra with d generators"""
    s = rnd.choice((0, 0, 1, rnd.randrange(d + 1), rnd.randrange(min(d, 8) + 1), d))
    m = d - s
    R = rnd.randrange(1 << m)
    return {"syms": {"m": m, "s": s}, "masks": {"R": R, "I": ((1 << m) - 1) & ~R}, "dim": d}


WIDE = {"quick": (9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 24, 27, 31, 32, 33, 34, 40, 48, 56, 60),
        "thorough": tuple(range(9, 63))}


def constants(t):
    """integer constants of a form"""
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "int":
            out.add(x.a[0])
        elif x.op == "poly":
            for m, c in x.a[0]:
                out.add(abs(c))
        st.extend(T.children(x))
    return out


class Ctx:
    def __init__(self, prop, tier, seed, prog):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.prog = prog
        self.clauses = []
        self.violations = []
        self.undecided = []
        self.analysed = set()
        self.points = 0
        self.contracts = set()
        self.cur = None
        self.notes = []
        self.nloops = 0
        self.ncalls = 0
        self.samples = []

    # ------------------------------------------------------------ clauses
    @contextlib.contextmanager
    def clause(self, name):
        c = {"name": name, "verdict": "held", "compared": 0, "identical": 0, "points": 0, "proved": 0}
        prev = self.cur
        self.cur = c
        try:
            yield c
        except Missing as e:
            self.violate("missing", "public item not found: %s" % e, where=str(e))
        except Unsupported as e:
            c["verdict"] = "undecided"
            c["why"] = str(e)
            c["trace"] = traceback.format_exc()[-2500:]
        except Diverge:
            self.violate("diverges", "every execution of the analysed function panics")
        except RecursionError:
            c["verdict"] = "undecided"
            c["why"] = "analysis recursion limit"
        except Exception as e:       # analyser defect: never an alarm
            c["verdict"] = "undecided"
            c["why"] = "analyser error %s: %s" % (type(e).__name__, e)
            c["trace"] = traceback.format_exc()[-1500:]
        finally:
            self.cur = prev
            self.clauses.append(c)
            if c["verdict"] == "undecided":
                self.undecided.append({"clause": name, "why": c["why"]})

    def violate(self, kind, msg, where=None, detail=None):
        v = {"property": self.prop, "clause": self.cur["name"] if self.cur else "", "kind": kind, "message": msg}
        if where:
            v["where"] = where
        if detail:
            v["detail"] = detail
        self.violations.append(v)
        if self.cur is not None:
            self.cur["verdict"] = "violated"

    def sess(self, alg=None, contracts=True, **kw):
        s = Sess(self.prog, alg, contracts, **kw)
        self._sessions = getattr(self, "_sessions", [])
        self._sessions.append(s)
        return s

    def finish(self):
        for s in getattr(self, "_sessions", []):
            self.analysed |= s.I.analysed
            self.contracts |= s.I.used_contracts
            self.nloops += s.I.nloops
            self.ncalls += s.I.ncalls

    # --------------------------------------------------------- comparison
    def models(self, alg_models=None):
        return alg_models if alg_models is not None else plain_models(self.tier, self.seed)

    def mk_model(self, md, bounds, real, funs, zero=0.25):
        b = {n: tuple(x(md) for x in t) for n, t in (bounds or {}).items()}
        return Model(md["seed"], md["syms"], md["masks"], zero=zero, real=real, bounds=b, funs=funs)

    def _points(self, M, md, free, cost, cap):
        """assignments of the free index variables in a model"""
        doms = []
        for v in free:
            e = v.a[1]
            f = evalm.compile_term([e], [])
            d = f(M)[0]
            doms.append((1 << d) if v.op == "var" and d < 200 else d)
        total = 1
        for d in doms:
            total *= max(d, 0)
        if total == 0:
            return
        if total <= cap:
            yield from itertools.product(*[range(d) for d in doms])
            return
        rnd = random.Random("%s|pts" % md["seed"])
        seen = set()
        for i in range(cap):
            if i < 2:
                p = tuple((d - 1) if i else 0 for d in doms)
            else:
                p = tuple(rnd.randrange(d) for d in doms)
            if p not in seen:
                seen.add(p)
                yield p

    def equal(self, what, got, want, free=(), models=None, bounds=None, real=(), funs=None, cond=TRUE, where=None,
              cap=None, budget=None, zero=0.25, nc=False):
        """decide got == want (terms) for all index values; report a violation with a witness otherwise"""
        c = self.cur
        c["compared"] += 1
        free = list(free)
        if got is want:
            c["identical"] += 1
            return True
        if nc:
            # factor order first, on the small models
            ok = self._cmp(what, got, want, free, [m for m in self.models(models) if m["dim"] <= 3], bounds, real, funs,
                           cond, where, 64, 20000, zero, True)
            if not ok:
                return False
        if not self._cmp(what, got, want, free, models, bounds, real, funs, cond, where, cap, budget, zero, False):
            return False
        if not self._wide(what, got, want, free, models, bounds, real, funs, cond, where, nc):
            return False
        if zero == "small" or not tests_values(got, want):
            return True
        # coefficients drawn from -1, 0, 1, where sums cancel
        ms = [m for m in self.models(models) if m["dim"] <= 4]
        if not ms:
            return True
        # then all zero, and almost all zero
        return all(self._cmp(what, got, want, free, ms, bounds, real, funs, cond, where, 64,
                             (budget or (120000 if self.tier == "quick" else 3000000)) // 4, z, False)
                   for z in ("small", 1.0, 0.8))

    def _wide(self, what, got, want, free, models, bounds, real, funs, cond, where, nc):
        """the comparison in algebras with many generators, for operands with few non-zero coefficients"""
        c = self.cur
        ms = list(self.models(models))
        ms = [m for m in ms if "grow" in m]
        if not ms or os.environ.get("VERIF_NOWIDE"):
            return True
        try:
            f = evalm.compile_term([got, want] + ([cond] if cond is not TRUE else []), free, nc and depth(got) <= 3, True)
        except Unsupported:
            c["wide_skipped"] = c.get("wide_skipped", 0) + 1
            return True
        cs = sorted(x for x in constants(got) - constants(want) if 2 < x < 1 << 63)
        dims = list(WIDE[self.tier])
        for x in cs[:12]:
            for d in (x - 1, x, x + 1) if x < 62 else (x.bit_length(), x.bit_length() + 1):
                if 8 < d < 62 and d not in dims:
                    dims.append(d)
        if bounds is None:
            bounds = {n: (lambda md: 1 << md["dim"],) for n in "abc"}
        tests = tests_values(got, want)
        if tests or not free:
            dims = [d for d in dims for _ in range(3)]
        # small and large ones alternate, in case the time does not suffice
        dims = [d for r in range(5) for d in dims[r::5]]
        used = live = misses = 0
        t0 = time.monotonic()
        lim = LIMIT.get(self.tier, 25) / 6
        for n, d in enumerate(dims):
            rnd = random.Random("%d|wide|%d|%d" % (self.seed, n, d))
            base = rnd.choice(ms)
            md = dict(base, **base["grow"](rnd, d))
            md["seed"] = "w%d.%d.%d" % (self.seed, d, n)
            if not extra_syms(rnd, base, md, cs):
                return True
            b = {k: tuple(x(md) for x in t) for k, t in bounds.items()}
            M = evalm.WModel(md["seed"], md["syms"], md["masks"], zero=0.1, real=real, bounds=b, funs=funs, consts=cs,
                             bare=0.5 if tests and n % 3 == 2 else 0)
            try:
                for p in self._widepoints(M, md, free, rnd):
                    if time.monotonic() - t0 > lim:
                        c["models_skipped_for_time"] = c.get("models_skipped_for_time", 0) + 1
                        break
                    r = f(M, *p)
                    if cond is not TRUE and not r[2]:
                        continue
                    used += 1
                    if r[1] and r[1] != evalm.Z4:
                        live += 1
                    if r[0] != r[1]:
                        wit = {"model": M.describe(), "at": {str(v.a[0]): x for v, x in zip(free, p)},
                               "derived": r[0], "required": r[1],
                               "nonzero_coefficients": {k: v for k, v in M.supps.items() if isinstance(k, str) and not k.endswith("#")}}
                        self.points += used
                        self.violate("differs",
                                     "%s: the value derived from the source differs from the required one" % what,
                                     where=where, detail={"derived_form": T.show(got)[:2000],
                                                          "required_form": T.show(want)[:2000], "witness": wit})
                        return False
            except (evalm.TooWide, MemoryError, OverflowError, RecursionError) as e:
                c["wide_skipped"] = c.get("wide_skipped", 0) + 1
                if os.environ.get("VERIF_LOOPS"):
                    print("WIDE skipped", what, type(e).__name__, e)
                misses += 1
                if misses > 5:
                    break
        if os.environ.get("VERIF_WIDE"):
            print("WIDE %s | %s: %d points, %d non-zero, %.2f s" % (c["name"], what, used, live, time.monotonic() - t0))
        c["points"] += used
        self.points += used
        return True

    def _widepoints(self, M, md, free, rnd):
        """index values likely to meet the non-zero coefficients"""
        if not free:
            yield ()
            return
        doms = []
        for v in free:
            d = evalm.compile_term([v.a[1]], [])(M)[0]
            doms.append((1 << d) if v.op == "var" else d)
        if any(d <= 0 for d in doms):
            return
        if len(doms) == 1 and doms[0] <= 64:
            for x in range(doms[0]):
                yield (x,)
            return
        raw = {0}
        for k in list(M.bounds):
            for t in M.supp(k):
                raw.update(t)
        m = md["masks"]
        m = (m.get("R", 0) | m.get("I", 0)).bit_length()
        pool = set(raw)
        for x in sorted(raw):
            for y in (x, x & ((1 << m) - 1), x >> m):
                o, e = evalm._ob(y), evalm._eb(y)
                pool.update((y, o, e, o ^ e))
        raw, pool = sorted(raw), sorted(pool)
        seen = set()
        for i in range(24 * len(free)):
            p = []
            meet = len(doms) == 3 and rnd.random() < 0.5
            for j, d in enumerate(doms):
                k = rnd.random()
                if meet:
                    x = rnd.choice(M.trail(d)) if j else rnd.choice(M.lead(d)) ^ rnd.choice(M.lead(d))
                    p.append(x if x < d else 0)
                    continue
                if len(doms) > 1 and k < 0.45:
                    x = rnd.choice(M.shared(d))
                    if rnd.random() < 0.3:
                        x ^= rnd.choice(M.shared(d))
                elif k < 0.3:
                    x = rnd.choice(raw)
                elif k < 0.5:
                    x = rnd.choice(raw) ^ rnd.choice(raw)
                elif k < 0.6:
                    x = (d - 1) ^ rnd.choice(raw)
                elif k < 0.7:
                    x = (d - 1) ^ rnd.choice(raw) ^ rnd.choice(raw)
                elif k < 0.8:
                    x = rnd.choice(pool)
                elif k < 0.9 and p:
                    x = rnd.choice(p) ^ rnd.choice(pool)
                else:
                    x = M.index(rnd, d)
                p.append(x if 0 <= x < d else x & (d - 1) if d & (d - 1) == 0 else x % d)
            p = tuple(p)
            if p not in seen:
                seen.add(p)
                yield p

    def _cmp(self, what, got, want, free, models, bounds, real, funs, cond, where, cap, budget, zero, nc):
        c = self.cur
        if os.environ.get("VERIF_FORMS"):
            print("## %s\n   got  %s\n   want %s" % (what, T.show(got)[:3000], T.show(want)[:1500]), flush=True)
        f = evalm.compile_term([got, want] + ([cond] if cond is not TRUE else []), free, nc)
        nb = max(depth(got), depth(want))
        cap = cap or (256 if self.tier == "quick" else 4096)
        budget = budget or (120000 if self.tier == "quick" else 3000000)
        if bounds is None:
            bounds = {n: (lambda md: 1 << md["dim"],) for n in "abc"}
        used = 0
        t0 = time.monotonic()
        ms = list(self.models(models))
        few = sum(1 for _ in ms) < 8 and not free or all(m["dim"] <= 1 for m in ms)
        for md in ms + [dict(m, seed="%s/%d" % (m["seed"], i)) for i in range(1, 8) for m in ms] if few else ms:
            if used and time.monotonic() - t0 > LIMIT.get(self.tier, 25):
                c["models_skipped_for_time"] = c.get("models_skipped_for_time", 0) + 1
                continue
            wide = md.get("sums", md["dim"])            # size of the index sets that sums range over
            per = (1 << wide) ** nb if wide * nb < 60 else 1 << 60
            n = min(cap if "sums" not in md else 24, max(budget // per, 0))
            if n < 1:
                continue
            M = self.mk_model(md, bounds, real, funs, zero)
            for p in self._points(M, md, free, per, n):
                r = f(M, *p)
                if cond is not TRUE and not r[2]:
                    continue
                used += 1
                if used & 15 == 0 and time.monotonic() - t0 > 2 * LIMIT.get(self.tier, 25):
                    break
                if r[0] != r[1]:
                    wit = {"model": M.describe(), "at": {str(v.a[0]): x for v, x in zip(free, p)},
                           "derived": r[0], "required": r[1]}
                    self.points += used
                    self.violate("differs", "%s: the value derived from the source differs from the required one" % what,
                                 where=where, detail={"derived_form": T.show(got)[:2000],
                                                      "required_form": T.show(want)[:2000], "witness": wit})
                    return False
        c["points"] += used
        self.points += used
        if used == 0 and zero != "small":
            raise Unsupported("%s: no model applicable to the comparison" % what)
        if len(self.samples) < 4:
            self.samples.append({"clause": c["name"], "what": what, "derived": T.show(got)[:300],
                                 "required": T.show(want)[:300], "points": used})
        return True

    def always(self, what, claim, free=(), **kw):
        return self.equal(what, T.ite(claim, T.ONE, T.ZERO), T.ONE, free, **kw)

    def no_panics(self, s, pre=TRUE, free=(), models=None, bounds=None, real=(), funs=None, allow=()):
        """no recorded panic site is reachable in the models under the precondition"""
        c = self.cur
        seen = set()
        for p in s.I.panics:
            cond = band(p["cond"], *p["facts"])
            cond = band(cond, pre)
            if cond is FALSE:
                continue
            site = (p["kind"], p["fn"], cond)
            if site in seen:
                continue
            seen.add(site)
            if any(a(p) for a in allow):
                continue
            if has_lv(cond):
                c.setdefault("panic_skipped", 0)
                c["panic_skipped"] += 1
                continue
            vs = sorted([v for v in freevars(cond) if v.op in ("var", "nv")], key=lambda v: v.id)
            # domains may depend on other variables: quantify with ex
            ex = T.mk("ex", tuple(vs), cond) if vs else cond
            try:
                f = evalm.compile_term([ex], [])
            except Unsupported:
                continue
            nb = sum(1 for v in vs if wide(v)) + depth(cond)
            bd = bounds or {n: (lambda md: 1 << md["dim"],) for n in "abc"}
            for md in self.models(models):
                if md["dim"] * nb > (14 if self.tier == "quick" else 18):
                    continue
                M = self.mk_model(md, bd, real, funs)
                self.points += 1
                if f(M)[0]:
                    self.violate("panic", "panics on an input inside the stated domain (%s)" % p["kind"],
                                 where="%s (%s)" % (p["fn"], span_str(p["span"])),
                                 detail={"condition": T.show(cond)[:1200], "model": M.describe(),
                                         "call_path": p["stack"]})
                    break
            else:
                self._widepanic(p, cond, vs, models, bd, real, funs)
            c.setdefault("panic_sites", 0)
            c["panic_sites"] += 1


    def _widepanic(self, p, cond, vs, models, bd, real, funs):
        """the same for a few index values in algebras with many generators"""
        ms = [m for m in self.models(models) if "grow" in m and set(m["syms"]) <= {"m", "s", "h", "D"}]
        if not ms or len(vs) > 4 or os.environ.get("VERIF_NOWIDE"):
            return
        try:
            f = evalm.compile_term([cond], vs, False, True)
        except Unsupported:
            return
        cs = sorted(x for x in constants(cond) if 2 < x < 1 << 63)
        dims = [9, 16, 17, 24, 33, 40, 56, 60]
        for x in cs[:6]:
            for d in (x - 1, x, x + 1) if x < 62 else (x.bit_length(), x.bit_length() + 1):
                if 8 < d < 62 and d not in dims:
                    dims.append(d)
        t0 = time.monotonic()
        for n, d in enumerate(dims):
            rnd = random.Random("%d|panic|%d|%d" % (self.seed, n, d))
            base = rnd.choice(ms)
            md = dict(base, **base["grow"](rnd, d))
            md["seed"] = "p%d.%d.%d" % (self.seed, d, n)
            if not extra_syms(rnd, base, md, cs):
                return
            b = {k: tuple(x(md) for x in t) for k, t in bd.items()}
            M = evalm.WModel(md["seed"], md["syms"], md["masks"], zero=0.1, real=real, bounds=b, funs=funs, consts=cs)
            try:
                for q in self._widepoints(M, md, vs, rnd):
                    if time.monotonic() - t0 > 1:
                        return
                    self.points += 1
                    if f(M, *q)[0]:
                        self.violate("panic", "panics on an input inside the stated domain (%s)" % p["kind"],
                                     where="%s (%s)" % (p["fn"], span_str(p["span"])),
                                     detail={"condition": T.show(cond)[:1200], "model": M.describe(),
                                             "at": {str(v.a[0]): x for v, x in zip(vs, q)}, "call_path": p["stack"]})
                        return
            except Exception as e:
                if os.environ.get("VERIF_LOOPS"):
                    print("WIDE panic skipped", p["kind"], type(e).__name__, e)
                self.cur["wide_skipped"] = self.cur.get("wide_skipped", 0) + 1
                return


def extra_syms(rnd, base, md, cs):
    """symbols besides those of the algebra: values in proportion to the new dimension; False when one is unknown"""
    d = md["dim"]
    for k, v in base["syms"].items():
        if k in md["syms"]:
            continue
        if k == "D":
            v = d
        elif k in ("N", "g"):
            v = rnd.choice((d, d, d - 1, d + 1, rnd.randrange(d + 1)) + tuple(c for c in cs if c <= d))
        elif k == "idx":
            v = rnd.choice((rnd.randrange(1 << d), (1 << d) - 1, 1 << d, 1 << rnd.randrange(d)) + tuple(cs))
        elif k in ("W", "rows", "cols") and "h" in md["syms"]:
            # shapes of representations, right and wrong
            y = md["syms"]
            v = 1 << (y["s"] if k == "W" else (d - y["s"] + 1) // 2)
            v = rnd.choice((v,) * 8 + (2 * v, v // 2, v + 1, 1))
        elif k not in ("G", "alt", "plus"):
            return False
        md["syms"][k] = v
    return True


def wide(v):
    """the variable ranges over as many values as there are blades (not over axes)"""
    if v.op == "var":
        return True
    seen, st = set(), [v.a[1]]
    while st:
        x = st.pop()
        if x.op in ("p2", "pow2", "shl") or x.op == "sym" and x.a[0] not in ("m", "s", "D"):
            return True
        if x not in seen:
            seen.add(x)
            st.extend(T.children(x))
    return False


def span_str(sp):
    if isinstance(sp, str):
        return sp
    return str(sp)


def tests_values(*ts):
    """a form depends on a comparison of coefficients"""
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("isz", "req", "flt", "ba"):
            return True
        st.extend(T.children(x))
    return False


def has_lv(t):
    return any(v.op == "lv" for v in freevars(t)) or "L#" in _names(t)


def _names(t):
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("rd", "ba", "ifn") and isinstance(x.a[0], str) and "#" in x.a[0]:
            return "L#"
        st.extend(T.children(x))
    return ""


_dep = {}


def depth(t):
    """nesting depth of index binders"""
    r = _dep.get(t)
    if r is not None:
        return r
    d = 0
    for x in T.children(t):
        d = max(d, depth(x))
    if t.op in ("rsum", "isum", "ior", "ixor", "ex", "last", "sfor", "slast"):
        n = 0
        for b in t.a[0]:
            n += 1 if b.op == "var" else 0
        d += n
    _dep[t] = d
    return d
