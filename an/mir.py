"""Loader for the MIR dump: types, impl table, control-flow facts."""
import json

from .terms import INT, SYM, N, isn


class Prog:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.crate = d["crate"]
        self.raw = d
        self.types = d["types"]
        self._ty = {}
        self.bodies = {b["key"]: b for b in d["bodies"]}
        self.impls = d["impls"]
        self.by_trait = {}
        for im in self.impls:
            im["_items"] = {it["name"]: it for it in im["items"]}
            if im.get("trait"):
                self.by_trait.setdefault(im["trait"], []).append(im)
        self.traits = {t["path"]: t for t in d["traits"]}
        self.adts = {a["key"]: a for a in d["adts"]}
        self.adt_path = {a["path"]: a for a in d["adts"]}
        self.statics = d["statics"]
        self._cfg = {}
        self._rec = None

    # ---------------------------------------------------------------- types
    def ty(self, t):
        """type id (or inline type/const) -> tuple form"""
        if isinstance(t, int):
            r = self._ty.get(t)
            if r is None:
                self._ty[t] = ("opq", "recursive")
                r = self._conv(self.types[t])
                self._ty[t] = r
            return r
        return self._conv(t)

    def _conv(self, t):
        if isinstance(t, int):
            return self.ty(t)
        if "cparam" in t:
            return ("param", t["cparam"])
        if "k" not in t:
            if "v" in t and isinstance(t["v"], dict) and "i" in t["v"]:
                return ("cst", INT(int(t["v"]["i"])))
            if "cval" in t:
                return ("cst", INT(int(t["cval"])))
            if "i" in t and len(t) <= 2:
                return ("cst", INT(int(t["i"])))
            return ("opq", json.dumps(t))
        k = t["k"]
        if k == "prim":
            return ("prim", t["name"])
        if k == "adt":
            return ("adt", t["key"], tuple(self.ty(a) for a in t["args"]))
        if k == "array":
            return ("array", self.ty(t["elem"]), self._conv(t["len"]))
        if k == "slice":
            return ("slice", self.ty(t["elem"]))
        if k == "ref":
            return ("ref", self.ty(t["elem"]), bool(t["mut"]))
        if k == "ptr":
            return ("ptr", self.ty(t["elem"]))
        if k == "tuple":
            return ("tuple", tuple(self.ty(a) for a in t["args"]))
        if k == "param":
            return ("param", t["name"])
        if k == "alias":
            return ("proj", t["path"], t.get("name", ""), tuple(self.ty(a) for a in t["args"]))
        if k == "closure":
            return ("clo", t["key"])
        if k == "fndef":
            return ("fndef", t.get("key", ""), t.get("path", ""))
        return ("opq", t.get("s", k))

    def subst(self, t, env):
        k = t[0]
        if k == "param":
            return env.get(t[1], t)
        if k == "adt":
            return ("adt", t[1], tuple(self.subst(a, env) for a in t[2]))
        if k == "array":
            return ("array", self.subst(t[1], env), self.subst(t[2], env))
        if k == "slice":
            return ("slice", self.subst(t[1], env))
        if k == "ref":
            return ("ref", self.subst(t[1], env), t[2])
        if k == "ptr":
            return ("ptr", self.subst(t[1], env))
        if k == "tuple":
            return ("tuple", tuple(self.subst(a, env) for a in t[1]))
        if k == "proj":
            return self.normalize(("proj", t[1], t[2], tuple(self.subst(a, env) for a in t[3])))
        return t

    def normalize(self, t):
        """resolve associated types where the impl is known"""
        path = t[1]
        trait, _, name = path.rpartition("::")
        args = t[3]
        if not args:
            return t
        if name == "Output" and args and args[0][0] in ("sym", "ref"):
            s = args[0]
            if s[0] == "ref":
                s = s[1]
            if s[0] == "sym":
                return s
        r = self.find_impl(trait, args)
        if r:
            im, env = r
            it = im["_items"].get(name)
            if it and it.get("ty") is not None:
                return self.subst(self.ty(it["ty"]), env)
        return t

    def unify(self, pat, t, env):
        """one-way matching pat (with params) against t"""
        if pat[0] == "param":
            old = env.get(pat[1])
            if old is None:
                env[pat[1]] = t
                return True
            return old == t
        if pat[0] == "proj" or t[0] == "proj":
            return pat == t or pat[0] == "proj"
        if pat[0] == "ref" and t[0] == "ref":
            return pat[2] == t[2] and self.unify(pat[1], t[1], env)
        if pat[0] != t[0] or len(pat) != len(t):
            return False
        for a, b in zip(pat[1:], t[1:]):
            if isinstance(a, tuple) and a and isinstance(a[0], tuple):
                if len(a) != len(b):
                    return False
                for x, y in zip(a, b):
                    if not self.unify(x, y, env):
                        return False
            elif isinstance(a, tuple) and a and isinstance(a[0], str):
                if not (isinstance(b, tuple) and b and self.unify(a, b, env)):
                    return False
            elif a != b:
                return False
        return True

    def find_impl(self, trait, args):
        """most specific impl of `trait` whose trait args match"""
        best = None
        for im in self.by_trait.get(trait, []):
            if im.get("neg"):
                continue
            env = {}
            pats = [self.ty(a) for a in im["trait_args"]]
            n = min(len(pats), len(args))
            if all(self.unify(p, a, env) for p, a in zip(pats[:n], args[:n])):
                spec = 0 if pats[0][0] == "param" else 1
                if self.blanket_excluded(im, env):
                    continue
                if best is None or spec > best[2]:
                    best = (im, env, spec)
        if best:
            return best[0], best[1]
        return None

    def blanket_excluded(self, im, env):
        """bounds of the impl that visibly fail for a concrete type"""
        for tr, args in im.get("bounds", []):
            if tr not in self.traits or tr in ("types::Ring", "types::DivRing"):
                continue
            a = [self.subst(self.ty(x), env) for x in args]
            if a and a[0][0] == "adt" and self.is_local(a[0][1]):
                if not self.by_trait.get(tr):
                    return True
                ok = False
                for im2 in self.by_trait[tr]:
                    e2 = {}
                    if self.unify(self.ty(im2["trait_args"][0]), a[0], e2):
                        ok = True
                        break
                if not ok:
                    return True
        return False

    def adt(self, key):
        return self.adts.get(key) or self.adt_path.get(key)

    def adt_discr(self, key):
        a = self.adt(key)
        return [int(x) for x in a["discr"]] if a and a["discr"] else None

    def is_local(self, key):
        return key.startswith(self.crate + "::") or key in self.adt_path

    # ------------------------------------------------------------------ cfg
    def cfg(self, body):
        k = id(body)
        c = self._cfg.get(k)
        if c is None:
            c = Cfg(body)
            self._cfg[k] = c
        return c

    def recursive(self):
        """keys of bodies in a call-graph cycle"""
        if self._rec is not None:
            return self._rec
        g = {}
        for k, b in self.bodies.items():
            s = set()
            _callees(b.get("body"), s)
            for p in b.get("promoted") or []:
                _callees(p, s)
            g[k] = {x for x in s if x in self.bodies}
        self.callgraph = g
        self._rec = _scc_cycles(g)
        return self._rec


def _callees(o, acc):
    if isinstance(o, dict):
        f = o.get("fn")
        if isinstance(f, dict):
            acc.add(f.get("res") or f.get("key"))
            acc.add(f.get("key"))
        if o.get("k") == "closure" and "key" in o:
            acc.add(o["key"])
        for v in o.values():
            _callees(v, acc)
    elif isinstance(o, list):
        for v in o:
            _callees(v, acc)


def _scc_cycles(g):
    idx, low, st, on, out = {}, {}, [], set(), set()
    cnt = [0]
    for root in g:
        if root in idx:
            continue
        work = [(root, iter(g[root]))]
        idx[root] = low[root] = cnt[0]
        cnt[0] += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g[w])))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                if len(comp) > 1 or v in g[v]:
                    out.update(comp)
    return out


class Cfg:
    """normal-control-flow graph of a body with post-dominators and loops"""

    def __init__(self, body):
        bl = body["blocks"]
        n = len(bl)
        self.n = n
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(bl):
            if b.get("cleanup"):
                continue
            t = b["t"]
            k = t[0]
            if k == "goto":
                self.succ[i] = [t[1]]
            elif k == "switch":
                self.succ[i] = list(dict.fromkeys([x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])))
            elif k == "drop":
                self.succ[i] = [t[2]]
            elif k == "call":
                self.succ[i] = [t[4]] if t[4] is not None else []
            elif k == "assert":
                self.succ[i] = [t[3]]
        # reachable
        self.reach = set()
        st = [0]
        while st:
            x = st.pop()
            if x in self.reach:
                continue
            self.reach.add(x)
            st.extend(self.succ[x])
        # blocks that can reach a return ("live"); dead ends are panics/unreachable
        self.EXIT = n
        pred = {i: [] for i in list(self.reach) + [n]}
        sx = {}
        for i in self.reach:
            s = list(self.succ[i])
            if bl[i]["t"][0] == "ret":
                s = [n]
            sx[i] = s
            for j in s:
                pred[j].append(i)
        self.sx = sx
        self.pred = pred
        live = set()
        st = [n]
        while st:
            x = st.pop()
            if x in live:
                continue
            live.add(x)
            st.extend(pred[x])
        self.live = live
        # post-dominators over live blocks
        order = []
        seen = set()

        def dfs(v):
            stack = [(v, iter(pred[v]))]
            seen.add(v)
            while stack:
                x, it = stack[-1]
                for w in it:
                    if w not in seen:
                        seen.add(w)
                        stack.append((w, iter(pred[w])))
                        break
                else:
                    order.append(x)
                    stack.pop()
        dfs(n)
        rpo = list(reversed(order))
        num = {b: i for i, b in enumerate(rpo)}
        ip = {n: n}
        changed = True
        while changed:
            changed = False
            for b in rpo:
                if b == n:
                    continue
                new = None
                for s in sx[b]:
                    if s in ip:
                        new = s if new is None else self._inter(new, s, ip, num)
                if new is not None and ip.get(b) != new:
                    ip[b] = new
                    changed = True
        self.ipdom = ip
        # dominators for natural loops
        self._dom()

    @staticmethod
    def _inter(a, b, ip, num):
        while a != b:
            while num[a] > num[b]:
                a = ip[a]
            while num[b] > num[a]:
                b = ip[b]
        return a

    def _dom(self):
        order = []
        seen = {0}
        stack = [(0, iter(self.succ[0]))]
        while stack:
            x, it = stack[-1]
            for w in it:
                if w not in seen:
                    seen.add(w)
                    stack.append((w, iter(self.succ[w])))
                    break
            else:
                order.append(x)
                stack.pop()
        rpo = list(reversed(order))
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succ[b]:
                preds[s].append(b)
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        new = p if new is None else self._inter(new, p, idom, num)
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.loops = {}
        for b in rpo:
            for s in self.succ[b]:
                if dominates(s, b):
                    blk = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in blk:
                            blk.add(x)
                            st.extend(preds[x])
