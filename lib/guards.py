"""Lock guards held over the control-flow graph: who holds which lock where, what a call may acquire while it is held."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ir import strip_generics

MAPG = {"dashmap::mapref::one::Ref", "dashmap::mapref::one::RefMut", "dashmap::mapref::one::MappedRef", "dashmap::mapref::one::MappedRefMut", "dashmap::mapref::multiple::RefMulti", "dashmap::mapref::multiple::RefMutMulti",
        "dashmap::mapref::entry::Entry", "dashmap::mapref::entry::OccupiedEntry", "dashmap::mapref::entry::VacantEntry", "dashmap::iter::Iter", "dashmap::iter::IterMut"}
SYNCG = ("lock_api::", "std::sync::", "parking_lot::")
MAPT = {"dashmap::DashMap"}
LOCKT = ("lock_api::mutex::Mutex", "lock_api::rwlock::RwLock", "std::sync::poison::mutex::Mutex", "std::sync::poison::rwlock::RwLock", "std::sync::mutex::Mutex", "std::sync::rwlock::RwLock", "tokio::sync::mutex::Mutex", "tokio::sync::rwlock::RwLock", "std::sync::nonpoison::mutex::Mutex")
ACQ = {"lock", "read", "write", "upgradable_read", "blocking_lock", "blocking_read", "blocking_write", "lock_owned", "read_owned", "write_owned"}
MAPFREE = {"new", "with_capacity", "with_hasher", "hasher", "hash_usize", "determine_map", "shards", "clone_from"}


def guard_class(t):
    """lock class of a guard type (no references)"""
    if t.k != "adt":
        return None
    d = t.d or ""
    if d in MAPG:
        return ("map", t.a[0].s, t.a[1].s) if len(t.a) >= 2 else None
    if d.endswith("Guard") and (d.startswith(SYNCG) or d.startswith("tokio::sync::")):
        return ("async" if d.startswith("tokio") else "lock", t.a[-1].s if t.a else "?")
    return None


def guards_in(t, d=0):
    out = set()
    if d > 8 or t.k in ("ref", "mutref", "ptr", "fn", "closure", "coroutine", "dyn"):
        return out
    c = guard_class(t)
    if c:
        out.add(c)
    for x in t.a:
        out |= guards_in(x, d + 1)
    return out


def ref_guards(t):
    out = set()
    if t.k in ("ref", "mutref") and t.a:
        out |= guards_in(t.peel())
    return out


def closures_in(t, d=0):
    out = set()
    if d > 8:
        return out
    if t.k in ("closure", "coroutine") and t.d:
        out.add(t.d)
    for x in t.a:
        out |= closures_in(x, d + 1)
    return out


def lock_of(t):
    """lock class of a reference to a lock"""
    if t.k not in ("ref", "mutref") or not t.a:
        return None
    t = t.peel()
    if t.k != "adt":
        return None
    if t.d in MAPT and len(t.a) >= 2:
        return ("map", t.a[0].s, t.a[1].s)
    if t.d in LOCKT:
        return ("async" if t.d.startswith("tokio") else "lock", t.a[-1].s)
    return None


def root(p):
    return p if isinstance(p, int) else p[0]


def whole(p):
    return isinstance(p, int) or len(p) == 1 or not p[1]


def operands(x):
    if isinstance(x, list):
        if len(x) == 2 and x[0] in ("m", "c"):
            yield x
        else:
            for y in x:
                yield from operands(y)


class Guards:
    def __init__(self, prog):
        self.p = prog
        self.fns = {f.id: f for f in prog.fns.values() if f.blocks}
        self.eff = {}
        self._direct = {}
        self._fix()

    # ------------------------------------------------------------ calls
    def callee(self, t):
        return t[1].get("r") or t[1].get("f") or ""

    def targets(self, f, t):
        """program functions a call runs, including closures handed to it"""
        out = []
        c = t[1]
        r = c.get("r") or c.get("f")
        if r in self.fns:
            out.append(r)
            if self.fns[r].isasync:
                out += [x for x in self.p.children.get(r, ()) if x.endswith("{closure#0}")]
        elif c.get("tr") and not c.get("r"):
            out += self.p.trait_impls.get(c.get("f"), ())
        clo = set()
        for i in c.get("at", ()):
            clo |= closures_in(f.tys[i])
        return [x for x in out if x in self.fns], [x for x in clo if x in self.fns]

    def acquires(self, f, t):
        """class a call to code outside the program takes itself"""
        c = t[1]
        n = strip_generics(c.get("r") or c.get("f") or "")
        at = [f.tys[i] for i in c.get("at", ())]
        if not at or (c.get("r") or c.get("f")) in self.fns:
            return None
        k = lock_of(at[0])
        m = n.rsplit("::", 1)[-1]
        if k is None:
            return None
        if k[0] == "map":
            return None if m in MAPFREE else k
        return k if m in ACQ else None

    def _fix(self):
        dep = {}
        for f in self.fns.values():
            s, d = set(), set()
            for b in f.blocks:
                t = b["t"]
                if t[0] == "call" and isinstance(t[1], dict):
                    k = self.acquires(f, t)
                    if k:
                        s.add(k)
                    x, y = self.targets(f, t)
                    d.update(x)
                    d.update(y)
            self.eff[f.id], dep[f.id] = s, d
        ch = True
        while ch:
            ch = False
            for i, d in dep.items():
                n = set(self.eff[i])
                for x in d:
                    n |= self.eff[x]
                if n != self.eff[i]:
                    self.eff[i], ch = n, True
        self.dep = dep

    # ------------------------------------------------------ may be held
    def holds(self, f):
        """local -> classes, for the locals that own a guard"""
        g = {}
        for i in range(len(f.locals)):
            c = guards_in(f.lty(i))
            if c:
                g[i] = c
        return g

    def step(self, f, G, st, s):
        if s[0] == "dead":
            st.discard(s[1])
        elif s[0] == "=":
            d, rv = s[1], s[2]
            src = False
            for k, p in operands(rv):
                r = root(p)
                if k == "m" and r in st:
                    src = True
                    st.discard(r)
            r = root(d)
            if r in G:
                if src:
                    st.add(r)
                elif whole(d):
                    st.discard(r)

    def flow(self, f, init=(), must=False, gen=None):
        """state at every terminator: set of locals owning a live guard"""
        G = self.holds(f)
        IN = {0: frozenset(init) | {i for i in range(1, f.argc + 1) if i in G}}
        out, work = {}, [0]
        while work:
            b = work.pop()
            st = set(IN[b])
            disc, refs = {}, {}
            for s in f.blocks[b]["s"]:
                if s[0] == "=" and s[2][0] == "disc" and whole(s[2][1]):
                    disc[root(s[1])] = (root(s[2][1]), s[2][3])
                self.step(f, G, st, s)
            out[b] = frozenset(st)
            for n, x in self.succ(f, G, b, st, disc):
                if n is None or n < 0:
                    continue
                o = IN.get(n)
                x = frozenset(x)
                y = x if o is None else ((o & x) if must else (o | x))
                if y != o:
                    IN[n] = y
                    work.append(n)
        return G, out

    def succ(self, f, G, b, st, disc):
        t = f.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "switch":
            e = [(v, n) for v, n in t[2]] + [(None, t[3])]
            p = t[1][1] if t[1][0] in ("m", "c") else None
            r = []
            for v, n in e:
                x = set(st)
                if p is not None and whole(p):
                    if root(p) in disc:
                        L, names = disc[root(p)]
                        nm = dict((a, c) for a, c in names)
                        seen = {v for v, _ in t[2]}
                        poss = [nm.get(v)] if v is not None else [c for a, c in names if a not in seen]
                        if L in x and all(not self.variant_holds(f.lty(L), c) for c in poss):
                            x.discard(L)
                    else:
                        z = self.tested(f, b, root(p))
                        if z:
                            pos, L = z
                            val = (v != "0") if v is not None else any(a == "0" for a, _ in t[2])
                            if pos != val:
                                x.discard(L)
                r.append((n, x))
            return r
        if k == "call":
            c = t[1]
            x = set(st)
            for y in c.get("a", ()):
                for kk, p in operands([y]):
                    if kk == "m":
                        x.discard(root(p))
            un = set(x)
            d = c.get("d")
            if d is not None and root(d) in G:
                x.add(root(d))
            return [(c.get("t"), x), (c.get("u"), un)]
        if k == "drop":
            x = set(st)
            if whole(t[1]):
                x.discard(root(t[1]))
            return [(t[2], x), (t[3], x)]
        if k == "assert":
            return [(n, st) for n in t[3:] if isinstance(n, int) and 0 <= n < len(f.blocks)][:2]
        if k == "yield":
            return [(n, st) for n in t[2:4] if isinstance(n, int)]
        return []

    def variant_holds(self, t, name):
        d = t.d or ""
        if d == "core::option::Option":
            return name == "Some"
        if d == "core::task::poll::Poll":
            return name == "Ready"
        if d == "core::result::Result" and len(t.a) == 2:
            return bool(guards_in(t.a[0 if name == "Ok" else 1]))
        if d == "core::ops::control_flow::ControlFlow" and len(t.a) == 2:
            return bool(guards_in(t.a[0 if name == "Break" else 1]))
        return True

    def tested(self, f, b, d):
        """(some?, local) when d is the result of is_some / is_none on a local, computed by a predecessor's call"""
        for i, x in enumerate(f.blocks):
            t = x["t"]
            if t[0] == "call" and t[1].get("d") == d and t[1].get("t") == b:
                n = strip_generics(self.callee(t))
                m = n.rsplit("::", 1)[-1]
                if m in ("is_some", "is_none", "is_ok", "is_err") and t[1]["a"]:
                    r = t[1]["a"][0][1]
                    for s in x["s"]:
                        if s[0] == "=" and s[1] == r and s[2][0] == "ref" and whole(s[2][1]):
                            return m in ("is_some", "is_ok"), root(s[2][1])
        return None

    # ----------------------------------------------------------- report
    def sites(self, f):
        """(block, line, callee, held {class: local}, acquired classes, acquired by closures run inside) of every call, and yields"""
        G, out = self.flow(f)
        perm = set()
        for i in range(1, f.argc + 1):
            perm |= ref_guards(f.lty(i))
        for b, st in sorted(out.items()):
            t = f.blocks[b]["t"]
            held = {}
            for L in sorted(st):
                for c in G[L]:
                    held.setdefault(c, f.lname(L) or "a temporary")
            for c in perm:
                held.setdefault(c, "a borrowed guard")
            if t[0] == "yield":
                yield b, t[-1] if isinstance(t[-1], int) else 0, "await", held, set(), set(), True
                continue
            if t[0] == "drop":
                continue
            if t[0] != "call" or not isinstance(t[1], dict):
                continue
            k = self.acquires(f, t)
            x, y = self.targets(f, t)
            a = {k} if k else set()
            for i in x:
                a |= self.eff[i]
            ca = set()
            for i in y:
                ca |= self.eff[i]
            yield b, t[1].get("l", 0), strip_generics(self.callee(t)), held, a, ca, k


def show(c):
    return f"map of {c[1].rsplit('::', 1)[-1]} to {c[2].rsplit('::', 1)[-1]}" if c[0] == "map" else f"lock of {c[1][:60]}"


def touches(g, f, cls):
    """blocks of f in which a call may use the lock or map of the class"""
    out = []
    for b, x in enumerate(f.blocks):
        t = x["t"]
        if t[0] == "call" and isinstance(t[1], dict):
            a, c = g.targets(f, t)
            if g.acquires(f, t) == cls or any(cls in g.eff[i] for i in a + c):
                out.append((b, t, a))
    return out


def atomic(g, f, cls, depth=4):
    """(True, where) when one mutual-exclusion guard is held at every use of cls in f (in the only helper that uses it, when f has one such call)"""
    ts = touches(g, f, cls)
    if not ts:
        return None, f, 0
    G, out = g.flow(f, must=True)
    common = None
    for b, t, _ in ts:
        h = {L for L in out.get(b, ()) if any(c[0] in ("lock", "async") and "Read" not in (f.lty(L).d or "") for c in G[L])}
        common = h if common is None else common & h
    if common:
        return True, f, min(common)
    if len(ts) == 1 and ts[0][2] and depth:
        return atomic(g, g.fns[ts[0][2][0]], cls, depth - 1)
    bad = next((t for b, t, _ in ts if not out.get(b)), ts[-1][1])
    return False, f, bad[1].get("l", 0)
