"""Summary-based abstract interpretation of MIR over symbolic terms.

For each function: a forward dataflow fixpoint whose abstract state maps locals
to hash-consed terms and carries the set of branch facts that hold on *every*
path into the point (facts are intersected where paths join).  States are kept
apart only by the constructor shape of live enum/bool values (trace
partitioning), so `let ok = match .. {..}; if !ok {return Err}` keeps its
meaning.  The result is a summary: outcomes (return shape -> must-facts,
returned term, writes through &mut arguments) plus events (calls, writes,
panics) with the must-facts at each.  Callers instantiate summaries by
substitution, so extracting or inlining a helper does not change the verdict.
"""
import sys
from term import *
from ir import Program, strip_generics

sys.setrecursionlimit(100000)
CAP = 24
STRINGY = {"str", "alloc::string::String", "smol_str::SmolStr", "char"}


class St:
    __slots__ = ("env", "facts")

    def __init__(self, env, facts):
        self.env, self.facts = env, facts

    def copy(self):
        return St(dict(self.env), self.facts)


class Outcome:
    __slots__ = ("ret", "facts", "mem", "key")

    def __init__(self, ret, facts, mem, key):
        self.ret, self.facts, self.mem, self.key = ret, facts, mem, key


class Ev:
    """kind: call | write | panic | ret"""
    __slots__ = ("kind", "name", "args", "facts", "fn", "bb", "line", "rid", "extra", "env", "ret", "virt", "pkey")

    def __init__(self, kind, name, args, facts, fn, bb, line, rid=None, extra=None, virt=False):
        self.kind, self.name, self.args, self.facts = kind, name, args, facts
        self.fn, self.bb, self.line, self.rid, self.extra = fn, bb, line, rid, extra
        self.ret = None
        self.virt = virt
        self.pkey = ()

    def where(self):
        return f"{self.fn.file}:{self.line} in {strip_generics(self.fn.id)}"

    def __repr__(self):
        return f"<{self.kind} {self.name}({', '.join(show(a) for a in self.args)}) @{self.fn.id}:{self.line}>"


class Summary:
    __slots__ = ("fn", "outcomes", "events", "opaque", "entry_facts")

    def __init__(self, fn):
        self.fn = fn
        self.outcomes = []
        self.events = []
        self.opaque = False


def short(name):
    """alloc::vec::Vec::<T, A>::push -> Vec::push ; core::str::<impl str>::trim -> str::trim"""
    p = strip_generics(name)
    # split top-level ::
    parts = []
    d = 0
    cur = ""
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">" and p[i - 1] != "-":
            d -= 1
        if d == 0 and p.startswith("::", i):
            parts.append(cur)
            cur = ""
            i += 2
            continue
        cur += c
        i += 1
    parts.append(cur)
    last = parts[-1]
    own = parts[-2] if len(parts) > 1 else ""
    if own.startswith("<impl "):
        own = own[6:-1].strip()
        own = own.split(" for ")[-1]
        own = own.lstrip("&").strip()
        if own.startswith("["):
            own = "slice"
        own = own.split("<")[0].split("::")[-1]
    elif own.startswith("<") and " as " in own:
        tr = own[1:-1].rsplit(" as ", 1)[1]
        own = tr.split("<")[0].split("::")[-1]
    else:
        own = own.split("<")[0]
    return (own + "::" + last) if own else last


IMPURE_TY = ("DashMap", "Mutex", "RwLock", "Atomic", "RefCell", "OnceCell", "OnceLock", "Receiver", "Sender",
             "Notify", "Semaphore", "dashmap::", "Cell<", "Lazy<", "LazyLock", "UdpSocket", "TcpStream", "Resolver")
IMPURE_NAME = {"Instant::now", "SystemTime::now", "random", "rng", "thread_rng", "thread::rng", "rngs::thread_rng", "rand::rng", "rand::random", "SystemTime::elapsed",
               "Instant::elapsed", "fill_bytes", "next_u64", "next_u32", "spawn", "tokio::spawn"}
IDENT = {
    "Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut",
    "Clone::clone", "ToOwned::to_owned", "Box::new", "Arc::new", "Rc::new", "Pin::new", "Pin::new_unchecked",
    "String::as_str", "SmolStr::as_str", "str::to_owned", "str::to_string", "SmolStr::new", "SmolStr::new_inline",
    "SmolStr::new_static", "Cow::into_owned", "Vec::as_slice", "Vec::as_mut_slice", "String::as_mut_str", "Box::pin",
    "IntoFuture::into_future", "Iterator::by_ref", "Iterator::copied", "Iterator::cloned", "convert::identity",
    "String::into_boxed_str", "str::into_string", "Pin::get_mut", "Pin::as_mut", "Pin::get_unchecked_mut", "slice::to_vec",
    "Arc::clone", "must_use", "black_box", "Pin::as_ref", "Bytes::from_static", "Vec::into_boxed_slice",
    "Zeroizing::new", "hint::must_use", "__rt::must_use", "slice::into_vec", "Box::into_pin", "Bytes::to_vec",
    "Bytes::copy_from_slice", "Arc::as_ref", "Wrapping", "get_context", "future::get_context", "Option::as_slice",
}
OPAQUE_MODELS = {"Clone", "Deref", "DerefMut", "AsRef", "IntoIterator"}
TYPED = {"call", "icall", "vf", "field", "phi", "idx", "post", "ipost", "top", "bin"}
OPTNAMES = {"Option", "Result"}


class Engine:
    def __init__(self, prog, opaque=(), inline_depth=60):
        self.p = prog
        self.sums = {}
        self.stack = set()
        self.opaque = set(opaque)      # short or full names never inlined
        self.only = None               # when set: only functions of these crates are looked into
        self.also = set()              # ... and these (generics-stripped ids)
        self.phi_in = {}               # phi term -> {input term: facts on the edge it flows in on}
        self.phi_sub = {}              # phi term -> (orig phi, substitution)
        self.phi_join = {}             # phi term of a meeting of many paths -> (value, facts) of each of them
        self.phi_edge = {}             # phi term of a loop head -> (value, facts) of each edge that comes back to it
        self.phi_keep = {}             # phi term -> facts of the edges on which it keeps its value
        self.live_cache = {}
        self.tty = {}                  # fn id -> term -> type, for values returned by calls and read from places
        self.pathmode = False
        self.elemmap = {}    # index term -> [(length, collection, iterator phi that runs along)]
        self.forallmap = {}  # iterator phi -> what holds of each item once it is through
        self.idxuse = {}     # index term -> collections it indexes
        self.stats = {"fns": 0, "blocks": 0, "states": 0}
        self.adt_variants = {}
        for a in prog.adts.values():
            self.adt_variants[a["id"]] = a

    # ------------------------------------------------------------------ terms
    def phi_inputs(self, t):
        if t in self.phi_in:
            return self.phi_in[t]
        if t in self.phi_sub:
            r = {}
            for o, sub, known in self.phi_sub[t]:
                for x, fs in self.phi_inputs(o).items():
                    y = sub(x)
                    g = frozenset((sub(u), b) for u, b in fs)
                    if any(u.op == "bool" and u.a[0] != b for u, b in g):
                        continue       # this way in is not possible for these arguments
                    g = g | known
                    r[y] = r[y] & g if y in r else g
            self.phi_in[t] = r
            return r
        return {}

    def phi_edges(self, t):
        if t in self.phi_edge:
            return sorted(self.phi_edge[t], key=lambda z: (z[0].id, len(z[1]), sorted((u.id, b) for u, b in z[1])))
        if t in self.phi_sub:
            r = set()
            for o, sub, known in self.phi_sub[t]:
                for x, fs in self.phi_edges(o):
                    g = frozenset((sub(u), b) for u, b in fs)
                    if not any(u.op == "bool" and u.a[0] != b for u, b in g):
                        r.add((sub(x), g | known))
            self.phi_edge[t] = r
            return self.phi_edges(t)
        return []

    def phi_ways(self, t):
        """(value, facts) of the ways into a joined value, each with all that is known on it where many meet"""
        if t in self.phi_sub and t not in self.phi_join:
            r = set()
            for o, sub, known in self.phi_sub[t]:
                for x, fs in self.phi_join.get(o) or (self.phi_ways(o) if o in self.phi_sub else ()):
                    g = frozenset((sub(u), b) for u, b in fs)
                    if not any(u.op == "bool" and u.a[0] != b for u, b in g):
                        r.add((sub(x), g | known))
            self.phi_join[t] = r
        if self.phi_join.get(t):
            return sorted(self.phi_join[t], key=lambda z: (z[0].id, len(z[1]), sorted((u.id, b) for u, b in z[1])))
        return list(self.phi_inputs(t).items())

    def phi_kept(self, t):
        if t in self.phi_keep:
            return self.phi_keep[t]
        if t in self.phi_sub:
            r = set()
            for o, sub, _ in self.phi_sub[t]:
                for fs in self.phi_kept(o):
                    r.add(frozenset((sub(u), b) for u, b in fs))
            self.phi_keep[t] = r
            return r
        return ()

    def const(self, fn, k):
        if "fn" in k:
            return mk("fn", k["fn"])
        if k.get("prom"):
            pf = self.p.fn(k["prom"])
            if pf is not None:
                s = self.summary(pf)
                if len(s.outcomes) == 1:
                    return s.outcomes[0].ret
            return mk("const", k["prom"])
        if k.get("static"):
            return mk("const", k["static"])
        ty = fn.tys[k["ty"]] if "ty" in k else None
        v = k.get("v")
        if v is None:
            if ty is not None and ty.k == "tuple" and not ty.a:
                return UNIT
            return mk("const", k.get("named") or (ty.s if ty else "?"))
        return self.cv(v, ty)

    def cv(self, v, ty=None):
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if v is None:
            return mk("const", ty.s if ty else "?")
        if "i" in v:
            return Int(int(v["i"]))
        if "str" in v:
            return Str(v["str"])
        if "ch" in v:
            return mk("char", v["ch"])
        if "bytes" in v:
            return mk("bytes", tuple(v["bytes"]))
        if "fl" in v:
            return mk("float", v["fl"])
        if "arr" in v:
            if ty is not None and ty.peel().k == "tuple":
                return mk("tuple", *[self.cv(x) for x in v["arr"]])
            return mk("array", *[self.cv(x) for x in v["arr"]])
        if "adt" in v:
            names = [str(i) for i in range(len(v["f"]))]
            a = self.adt_variants.get(v["adt"])
            if a:
                for var in a["variants"]:
                    if var["name"] == v["var"] or (v["var"] is None):
                        names = [f["name"] for f in var["fields"]]
                        break
            if v["adt"] == "core::time::Duration" and len(v["f"]) == 2 and all(v["f"]) and "i" in v["f"][0]:
                nn = v["f"][1]
                nn = nn["f"][0] if "adt" in nn and nn["f"] else nn
                if nn and int(nn.get("i", 1)) == 0:
                    return simp_call("Duration::from_secs", (Int(int(v["f"][0]["i"])),))
            if v["adt"] in ("smol_str::SmolStr",):
                return mk("const", "SmolStr")
            return adt(v["adt"], v["var"], names, [self.cv(x) for x in v["f"]])
        if "zst" in v:
            if ty is not None and ty.k == "closure":
                return mk("closure", ty.d)
            if ty is not None and ty.k == "adt":
                return adt(ty.d, None, (), ())
            return UNIT
        return mk("const", str(v))

    NUM = {"u8", "u16", "u32", "u64", "usize", "u128", "i8", "i16", "i32", "i64", "isize", "i128"}

    def is_num(self, t):
        if t.op == "int" or t.op == "call" and t.a[0] in ("len", "min", "max", "saturating_sub"):
            return True
        if t.op == "bin" and t.a[0] in ("Add", "Sub", "Mul", "Div", "Rem"):
            return True
        return False

    # ------------------------------------------------------------- memory
    @staticmethod
    def default(root):
        if isinstance(root, int):
            return mk("top", (), root)
        if root[0] == "A":
            return mk("arg", root[1])
        return root[1]

    def rd(self, st, root, path=()):
        b = st.env.get(root)
        if b is None:
            b = self.default(root)
        return projpath(b, path)

    def wr(self, st, root, path, v):
        if not path:
            st.env[root] = v
            return
        b = st.env.get(root)
        if b is None:
            b = self.default(root)
        st.env[root] = updpath(b, path, v)

    def deref(self, st, v):
        n = 0
        while v.op == "ref" and n < 10:
            v = self.rd(st, v.a[0], v.a[1])
            n += 1
        return v

    def deep(self, st, v, depth=0):
        """value with mutable refs replaced by what they point to"""
        if v.op == "ref":
            return self.deep(st, self.deref(st, v), depth)
        if depth < 3 and v.op in ("tuple", "array", "adt", "closure") and any(isinstance(x, T) and x.dep & 2 for x in v.a):
            return mk(v.op, *[self.deep(st, x, depth + 1) if isinstance(x, T) else x for x in v.a])
        return v

    def pelem(self, st, fn, e):
        if isinstance(e, str):
            return None
        k = e[0]
        if k == "f":
            return ("f", e[2] if e[2] is not None else str(e[1]))
        if k == "i":
            return ("i", self.rd(st, e[1]))
        if k == "ci":
            return ("ci", e[1], bool(e[3]))
        if k == "ss":
            return ("ss", e[1], e[2], bool(e[3]))
        return None

    def loc(self, st, fn, pl):
        """-> (root, path) for a place"""
        if isinstance(pl, int):
            return pl, ()
        l, pr = pl
        root, path = l, ()
        ty = fn.lty(l)
        var = None
        for e in pr:
            if e == "*":
                cur = self.rd(st, root, path)
                if cur.op == "ref":
                    root, path = cur.a
                elif path == () and isinstance(root, int) and ty is not None and ty.k == "adt":
                    pass  # Box
                else:
                    root, path = ("O", cur), ()
                ty = ty.a[0] if ty is not None and ty.a else None
                var = None
            elif isinstance(e, list) and e[0] == "d":
                var = e[1]
                continue
            else:
                x = self.pelem(st, fn, e)
                if x is None:
                    continue
                if x[0] == "f" and var is not None:
                    x = ("v", var, x[1])
                var = None
                path = path + (x,)
                ty = None
        return root, path

    def place(self, st, fn, pl):
        if isinstance(pl, int):
            return self.rd(st, pl)
        l, pr = pl
        v = self.rd(st, l)
        var = None
        for e in pr:
            if e == "*":
                v = self.deref(st, v)
                var = None
            elif isinstance(e, list) and e[0] == "d":
                var = e[1]
            else:
                x = self.pelem(st, fn, e)
                if x is None:
                    continue
                if v.op == "ref":
                    v = self.deref(st, v)
                if x[0] == "f" and var is not None:
                    x = ("v", var, x[1])
                var = None
                v = proj(v, x)
                if v.op == "idx":
                    v = self.elem(v, st.facts)
        return v

    def elem(self, v, facts):
        """the element an index loop is at, as the item of the iterator that runs along"""
        b, i = v.a
        if i.op == "phi" or i.op == "vf":
            self.idxuse.setdefault(i, {})[b] = None
            for n, c, it in self.elemmap.get(i, ()):
                nx = mk("call", "Iterator::next", it)
                if c is b and (is_(nx, "Some"), True) in facts:
                    return proj(nx, ("v", "Some", "0"))
        return v

    def along(self, facts, t, b):
        """facts about the iterator that runs along with an index"""
        if facts is None or not self.elemmap:
            return facts
        if t.op == "bin" and b and t.a[0] == "Lt" and t.a[1] in self.elemmap:
            i, n, v = t.a[1], t.a[2], "Some"
        elif t.op == "bin" and b and t.a[0] == "Le" and t.a[2] in self.elemmap:
            i, n, v = t.a[2], t.a[1], "None"
        elif t.op == "is" and b and t.a[0].op == "call" and t.a[0].a[0] == "Iterator::next" and proj(t.a[0], ("v", "Some", "0")) in self.elemmap:
            i, n, v = proj(t.a[0], ("v", "Some", "0")), None, t.a[1]
        else:
            return facts
        for l, _, it in self.elemmap[i]:
            if n is None or l is n:
                facts = self.add_fact(facts, is_(mk("call", "Iterator::next", it), v), True)
                if facts is None:
                    return None
                if v == "None":
                    facts = self.forall_fact(facts, it)
        return facts

    def forall_fact(self, facts, ph):
        """what holds of every item when the loop over ph has run to its end"""
        fs = self.forallmap.get(ph)
        src = iter_source(self, ph) if fs else None
        while src is not None and src.op == "call" and src.a[0] == "iter" and src.a[1].op == "call" and src.a[1].a[0] == "Iterator::collect" and len(src.a[1].a) == 2 and \
                src.a[1].a[1].op == "call" and src.a[1].a[1].a[0] in ("str::chars", "str::bytes"):
            src = src.a[1].a[1]
        if src is not None:
            facts = facts | {(mk("forall", src, tuple(sorted(fs, key=lambda z: (z[0].id, z[1])))), True)}
        return facts

    def operand(self, st, fn, o):
        if o[0] == "k":
            return self.const(fn, o[1])
        return self.place(st, fn, o[1])

    # ------------------------------------------------------------- facts
    def add_fact(self, facts, t, b):
        """-> new facts or None when contradictory"""
        new = self.add_fact1(facts, t, b)
        return new if new is facts else self.along(new, t, b)

    def add_fact1(self, facts, t, b):
        if t.op == "not":
            return self.add_fact(facts, t.a[0], not b)
        if t.op == "bool":
            return facts if t.a[0] == b else None
        if not b:
            n = notop(t)
            if n.op != "not":
                return self.add_fact(facts, n, True)
        if t.op == "or" and b:
            live = []
            for d in t.a:
                if any((x, not bl) in facts or (bl and (notop(x), True) in facts) for x, bl in d):
                    continue
                live.append(d)
            if not live:
                return None
            if len(live) == 1:
                for x, bl in live[0]:
                    facts = self.add_fact(facts, x, bl)
                    if facts is None:
                        return None
                return facts
            for d in live:
                if all((x, bl) in facts for x, bl in d):
                    return facts
            if len(live) != len(t.a):
                t = mk("or", *live)
        if t.op == "bin" and t.a[0] == "BitAnd" and b:
            f = self.add_fact(facts, t.a[1], True)
            return None if f is None else self.add_fact(f, t.a[2], True)
        if t.op == "bin" and t.a[0] == "BitAnd" and not b and all(x.op in ("bin", "is", "not", "call") and not (x.op == "bin" and x.a[0] not in ("Eq", "Lt", "Le", "BitAnd", "BitOr")) for x in t.a[1:]):
            return self.add_fact(facts, mk("or", ((t.a[1], False),), ((t.a[2], False),)), True)
        if t.op == "bin" and t.a[0] == "BitOr" and not b:
            f = self.add_fact(facts, t.a[1], False)
            return None if f is None else self.add_fact(f, t.a[2], False)
        if (t, b) in facts:
            return facts
        if (t, not b) in facts:
            return None
        if t.op == "is":
            x, v = t.a
            if b:
                for (u, ub) in facts:
                    if u.op == "is" and u.a[0] is x and ub and u.a[1] != v:
                        return None
            if x.op == "phi" and b and not self.phi_may(x, v):
                return None
            if b:
                g = facts | {(t, b)}
                for (u, ub) in facts:
                    if ub and u.op == "bin" and u.a[0] == "Eq" and (u.a[1] is x or u.a[2] is x):
                        y = u.a[2] if u.a[1] is x else u.a[1]
                        n = is_(y, v)
                        if (n, True) not in g:
                            g = self.add_fact(g, n, True)
                            if g is None:
                                return None
                return g
        elif t.op == "bin" and t.a[0] == "Eq" and b and self.enumlike(t, facts):
            g = facts | {(t, b)}
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if x.op == "adt" and x.a[1] is not None:
                    g = self.add_fact(g, is_(y, x.a[1]), True)
                    if g is None:
                        return None
                    for nm, v in zip(x.a[2], x.a[3:]):
                        g = self.add_fact(g, binop("Eq", v, proj(y, ("v", x.a[1], nm))), True)
                        if g is None:
                            return None
                    break
                for (u, ub) in facts:
                    if ub and u.op == "is" and u.a[0] is x:
                        g = self.add_fact(g, is_(y, u.a[1]), True)
                        if g is None:
                            return None
            return g
        elif t.op == "bin" and t.a[0] == "Eq" and b and t.a[2].op in ("int", "str", "char"):
            x, c = t.a[1], t.a[2]
            for (u, ub) in facts:
                if ub and u.op == "bin" and u.a[0] == "Eq" and u.a[1] is x and u.a[2] is not c and u.a[2].op == c.op:
                    return None
        elif t.op == "bin" and t.a[0] in ("Lt", "Le") and b:
            n = notop(t)
            if (n, True) in facts:
                return None
        return facts | {(t, b)}

    @staticmethod
    def enumlike(t, facts):
        a, b = t.a[1], t.a[2]
        if a.op == "adt" or b.op == "adt":
            return True
        return any(ub and u.op == "is" and (u.a[0] is a or u.a[0] is b) for u, ub in facts)

    def phi_may(self, x, v):
        return True

    def known(self, facts, t):
        """True/False/None"""
        if t.op == "bool":
            return t.a[0]
        if t.op == "not":
            k = self.known(facts, t.a[0])
            return None if k is None else not k
        if (t, True) in facts:
            return True
        if (t, False) in facts:
            return False
        n = notop(t)
        if n.op != "not":
            if (n, True) in facts:
                return False
            if (n, False) in facts:
                return True
        if t.op == "is":
            for (u, ub) in facts:
                if ub and u.op == "is" and u.a[0] is t.a[0] and u.a[1] != t.a[1]:
                    return False
        return None

    # ------------------------------------------------------------- liveness etc.
    def fninfo(self, fn):
        r = self.live_cache.get(fn.id)
        if r is not None:
            return r
        nb = len(fn.blocks)
        succ = [[] for _ in range(nb)]
        use = [set() for _ in range(nb)]
        dfn = [set() for _ in range(nb)]
        addr = set()

        def pl_locals(pl, u):
            if isinstance(pl, int):
                u.add(pl)
            else:
                u.add(pl[0])
                for e in pl[1]:
                    if isinstance(e, list) and e[0] == "i":
                        u.add(e[1])

        def op(o, u):
            if o and o[0] in ("c", "m"):
                pl_locals(o[1], u)

        def rv(r, u):
            k = r[0]
            if k in ("use", "rep"):
                op(r[1], u)
            elif k in ("ref", "rebor"):
                pl_locals(r[1], u)
                l = r[1] if isinstance(r[1], int) else r[1][0]
                pr = [] if isinstance(r[1], int) else r[1][1]
                if r[2] != "shr" and "*" not in pr:
                    addr.add(l)
            elif k == "cast":
                op(r[2], u)
            elif k == "bin":
                op(r[2], u)
                op(r[3], u)
            elif k == "un":
                op(r[2], u)
            elif k == "disc":
                pl_locals(r[1], u)
            elif k == "agg":
                for o in r[2]:
                    op(o, u)

        for b, blk in enumerate(fn.blocks):
            u, d = use[b], dfn[b]

            def addu(s):
                for x in s:
                    if x not in d:
                        u.add(x)
            for s in blk["s"]:
                if s[0] == "=":
                    t = set()
                    rv(s[2], t)
                    if not isinstance(s[1], int):
                        pl_locals(s[1], t)
                    addu(t)
                    if isinstance(s[1], int):
                        d.add(s[1])
                elif s[0] == "sd":
                    t = set()
                    pl_locals(s[1], t)
                    addu(t)
                elif s[0] == "dead":
                    d.add(s[1])
            t = blk["t"]
            k = t[0]
            tu = set()
            if k == "goto":
                succ[b] = [t[1]]
            elif k == "switch":
                op(t[1], tu)
                succ[b] = [x[1] for x in t[2]] + [t[3]]
            elif k == "drop":
                succ[b] = [t[2]]
            elif k == "call":
                c = t[1]
                for o in c["a"]:
                    op(o, tu)
                if "ptr" in c:
                    op(c["ptr"], tu)
                if not isinstance(c["d"], int):
                    pl_locals(c["d"], tu)
                if c["t"] is not None:
                    succ[b] = [c["t"]]
            elif k == "assert":
                op(t[1], tu)
                for o in t[3][1:]:
                    if isinstance(o, list):
                        op(o, tu)
                succ[b] = [t[4]]
            elif k == "yield":
                op(t[1], tu)
                succ[b] = [t[2]]
            elif k == "ret":
                tu.add(0)
            addu(tu)
            if k == "call" and isinstance(t[1]["d"], int):
                d.add(t[1]["d"])
        # closures/refs: address-taken (mutably) locals stay live everywhere
        live = [set() for _ in range(nb)]
        changed = True
        # reachable order
        order = []
        seen = set()
        color = {}
        back = set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
                elif color[s] == 1:
                    back.add((b, s))
            else:
                color[b] = 2
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        while changed:
            changed = False
            for b in order:
                o = set()
                for s in succ[b]:
                    o |= live[s]
                n = use[b] | (o - dfn[b])
                if n != live[b]:
                    live[b] = n
                    changed = True
        preds = [[] for _ in range(nb)]
        for b in rpo:
            for s in set(succ[b]):
                preds[s].append(b)
        heads = {}
        for (b, h) in back:
            body = heads.setdefault(h, {h})
            st = [b]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(preds[x])
        # blocks that only lead back to a loop head: the ways that meet there are kept apart
        latch, st = set(), [b for b, h in back]
        while st:
            x = st.pop()
            if x not in latch and x not in heads and x in seen and len(set(succ[x])) == 1 and fn.blocks[x]["t"][0] in ("goto", "drop"):
                latch.add(x)
                st.extend(preds[x])
        r = dict(succ=succ, live=live, addr=addr, rpo=rpo, back=back, heads=heads, preds=preds, latch=latch)
        self.live_cache[fn.id] = r
        return r

    # ------------------------------------------------------------- fixpoint
    def summary(self, fn):
        s = self.sums.get(fn.id)
        if s is not None:
            return s
        if fn.id in self.stack:
            return None
        self.stack.add(fn.id)
        try:
            s = Analysis(self, fn).run()
        finally:
            self.stack.discard(fn.id)
        self.sums[fn.id] = s
        self.stats["fns"] += 1
        return s

    def summary_under(self, fn, facts):
        """summary of fn when the given facts about its arguments hold on entry (not cached)"""
        self.stack.add(fn.id)
        try:
            return Analysis(self, fn, frozenset(facts)).run()
        finally:
            self.stack.discard(fn.id)

    # ------------------------------------------------------------- substitution
    def substituter(self, argmap, site, st=None, src=None, dst=None, reg=None, psite=None):
        """argmap: i -> value (by-value view); site: call-site tuple prefix (psite: the same with the state the caller is in)"""
        psite = site if psite is None else psite
        memo = {}
        eng = self

        def rec(t):
            if t.dep == 0:
                return t
            r = memo.get(t)
            if r is not None:
                return r
            op, a = t.op, t.a
            if op == "arg":
                r = argmap.get(a[0], t)
                if r.op == "ref" and st is not None:
                    r = eng.deref(st, r)
            elif op == "icall":
                r = mk("icall", a[0], site + a[1], *[rec(x) for x in a[2:]])
            elif op == "ipost":
                r = mk("ipost", a[0], a[1], site + a[2], *[rec(x) for x in a[3:]])
            elif op == "post":
                r = mk("post", a[0], a[1], *[rec(x) for x in a[2:]])
            elif op == "top":
                r = mk("top", site + a[0], a[1])
            elif op == "phi":
                r = mk("phi", psite + a[0], a[1])
                if r is not t and (reg is not None or r not in eng.phi_sub):
                    eng.phi_in.pop(r, None)
                    eng.phi_keep.pop(r, None)
                    eng.phi_edge.pop(r, None)
                    eng.phi_join.pop(r, None)
                    l = eng.phi_sub.setdefault(r, [])
                    l.append((t, rec, st.facts if st is not None else frozenset()))
                    if reg is not None:
                        reg.append(r)
            elif op == "call":
                r = simp_call(a[0], tuple(rec(x) for x in a[1:]))
            elif op == "bin":
                r = binop(a[0], rec(a[1]), rec(a[2]))
            elif op == "not":
                r = notop(rec(a[0]))
            elif op == "is":
                r = is_(rec(a[0]), a[1])
            elif op == "field":
                r = proj(rec(a[0]), ("f", a[1]))
                if r.op == "ref" and st is not None:
                    r = eng.deref(st, r)
            elif op == "vf":
                r = proj(rec(a[0]), ("v", a[1], a[2]))
                if r.op == "ref" and st is not None:
                    r = eng.deref(st, r)
            elif op == "idx":
                r = proj(rec(a[0]), ("i", rec(a[1])))
            elif op == "upd":
                e = a[1]
                if e[0] == "i":
                    e = ("i", rec(e[1]))
                r = upd(rec(a[0]), e, rec(a[2]))
            elif op == "disc":
                r = mk("disc", rec(a[0]), *a[1:])
            elif op == "forall":
                r = mk("forall", rec(a[0]), tuple(sorted(((rec(x), b) for x, b in a[1]), key=lambda z: (z[0].id, z[1]))))
            elif op == "or":
                r = map_or(a, rec)
            elif op == "ref":
                loc = eng.subst_loc(rec, argmap, a[0], a[1])
                r = mk("ref", *loc) if loc else mk("top", site, "ref")
            elif op == "tuple" or op == "array":
                r = mk(op, *[rec(x) for x in a])
            else:
                r = mk(op, *[rec(x) if isinstance(x, T) else x for x in a])
            memo[t] = r
            if src is not None and t in src and r.op in TYPED:
                dst.setdefault(r, src[t])
            return r
        return rec

    def subst_loc(self, rec, argmap, root, path):
        path = tuple(("i", rec(e[1])) if e[0] == "i" else e for e in path)
        if not isinstance(root, tuple):
            return None                # a local of the function, which nothing outside can see
        if root[0] == "A":
            v = argmap.get(root[1])
            if v is None:
                return (root, path)
            if v.op == "ref":
                return (v.a[0], v.a[1] + path)
            return (("O", v), path)
        t = root[1]
        # keep references found inside arguments (closure captures by &mut)
        v = self.rec_keepref(rec, argmap, t)
        if v.op == "ref":
            return (v.a[0], v.a[1] + path)
        return (("O", v), path)

    def rec_keepref(self, rec, argmap, t):
        if t.op == "arg":
            return argmap.get(t.a[0], t)
        if t.op == "field":
            return proj(self.rec_keepref(rec, argmap, t.a[0]), ("f", t.a[1]))
        if t.op == "vf":
            return proj(self.rec_keepref(rec, argmap, t.a[0]), ("v", t.a[1], t.a[2]))
        return rec(t)

    def mentions(self, t, fnid, blocks, memo):
        """does t mention a program point of fn inside the given blocks"""
        if t.dep & 2 == 0:
            return False
        r = memo.get(t)
        if r is not None:
            return r
        r = False
        if t.op in ("icall", "ipost", "phi", "top"):
            s = t.a[0] if t.op in ("phi", "top") else (t.a[2] if t.op == "ipost" else t.a[1])
            if s and s[0][0] == fnid and s[0][1] in blocks:
                r = True
        if not r:
            for x in t.a:
                if isinstance(x, T):
                    if self.mentions(x, fnid, blocks, memo):
                        r = True
                        break
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, T) and self.mentions(y, fnid, blocks, memo):
                            r = True
                            break
                        if isinstance(y, tuple) and any(isinstance(z, T) and self.mentions(z, fnid, blocks, memo) for z in y):
                            r = True
                            break
        memo[t] = r
        return r


def map_or(a, rec):
    """a disjunction of fact conjunctions with every term mapped by rec"""
    ds = []
    for d in a:
        nd = []
        dead = False
        for x, bl in d:
            y = rec(x)
            if y.op == "not":
                y, bl = y.a[0], not bl
            if y.op == "bool":
                if y.a[0] != bl:
                    dead = True
                    break
                continue
            if not bl:
                z = notop(y)
                if z.op != "not":
                    y, bl = z, True
            nd.append((y, bl))
        if dead:
            continue
        if not nd:
            return TRUE
        ds.append(tuple(sorted(set(nd), key=lambda z: (z[0].id, z[1]))))
    if not ds:
        return FALSE
    return mk("or", *sorted(set(ds), key=lambda d: [(x.id, bl) for x, bl in d]))


def digest_ty(s):
    """Sha256VarCore with an output size of UInt<..> bits -> Sha256:32"""
    import re
    m = re.search(r"(\w+?)(?:VarCore|Core)\b", s.replace("CtVariableCoreWrapper", "").replace("CoreWrapper", ""))
    bits = re.findall(r"typenum::bit::B([01])", s)
    return (m.group(1) if m else s.split("<")[0].split("::")[-1]) + (":" + str(int("".join(bits), 2)) if bits else "")


def shape(v, depth=0):
    if v.op == "bool":
        return "T" if v.a[0] else "F"
    if v.op == "adt" and v.a[1] is not None:
        if depth < 1 and len(v.a) == 4:
            s = shape(v.a[3], depth + 1)
            return v.a[1] + ("(" + s + ")" if s != "." else "")
        return v.a[1]
    return "."


def tshape(v):
    """the same, with what is known of the parts of a tuple"""
    if v.op in ("tuple", "array") and 2 <= len(v.a) <= 4 and all(isinstance(x, T) for x in v.a):
        ss = [shape(x, 1) for x in v.a]
        if any(x != "." for x in ss):
            return "(" + ",".join(ss) + ")"
    return shape(v)


import models  # noqa: E402


class Analysis:
    def __init__(self, eng, fn, facts=frozenset()):
        self.facts0 = facts
        self.e = eng
        self.fn = fn
        self.info = eng.fninfo(fn)
        self.sticky = {}     # (bb,key) -> set of roots that are phi
        self.hfacts = {}     # (bb,key) -> facts
        self.collapsed, self.settled = set(), set()
        self.events = None
        self.forall = {}     # phi term -> frozenset facts on the item
        self.cur = None
        self.ckey = ()
        self.myphis = set()
        self.mysubs = []
        self.reft = {}
        self.elref = {}      # where an element of a field is -> (where the field is, (adt, field, rest))
        self.flagsof = {}
        self.shape = tshape if len(fn.blocks) <= 48 else shape
        self.requeue = set()
        self.idxwant = {}    # loop head -> {(root, kind, collection): number}
        self.tty = eng.tty.setdefault(fn.id, {})

    def mutated(self, st, b, loc, old, new, how, line):
        """a &mut borrow of a typed field was changed by a call"""
        if self.events is None:
            return
        root, path = loc
        ow = self.reft.get((root, path))
        if ow is not None:
            self.events.append(Ev("wr", ow[0], (self.e.deep(st, new), old), st.facts, self.fn, b, line, extra=(ow[1], ow[2], how)))
        elif (root, path) in self.elref:
            (r, p), ow = self.elref[(root, path)]
            was = self.e.rd(st, r, p)
            self.events.append(Ev("wr", ow[0], (self.e.deep(st, mk("upd", was, path[-1], self.e.deep(st, new))), was), st.facts, self.fn, b, line, extra=(ow[1], ow[2], how)))

    def element(self, ref, key):
        """a reference to what a map holds under a key"""
        root, path = ref.a
        loc = (root, path + (("i", key),))
        if (root, path) in self.reft:
            self.elref[loc] = ((root, path), self.reft[(root, path)])
        return mk("ref", *loc)

    # --- run
    def run(self):
        fn, e = self.fn, self.e
        s = Summary(fn)
        env = {}
        for i in range(1, fn.argc + 1):
            t = fn.lty(i)
            if t.k == "mutref":
                env[i] = mk("ref", ("A", i), ())
                env[("A", i)] = mk("arg", i)
            else:
                env[i] = mk("arg", i)
        init = St(env, frozenset(self.facts0))
        for ph in [ph for ph in e.forallmap if ph.a[0][0][0] == fn.id]:
            del e.forallmap[ph]
        self.fix(init)
        while self.info["heads"] and self.collapsed != self.settled:
            # once more from the start, without what was only there before states were given up
            self.settled = set(self.collapsed)
            self.fix(init)
        # what an inner loop was entered with is known only once the outer one is
        nested = self.nested()
        if nested:
            self.fix(init, True)
        if self.info["heads"]:
            if self.index_loops(init):
                self.fix(init, nested)
                while self.recheck(init):
                    self.fix(init, nested)
            if self.collect_forall():
                self.fix(init, nested)
        # final pass: events and outcomes
        for ph in self.myphis:
            e.phi_in.pop(ph, None)
            e.phi_keep.pop(ph, None)
            e.phi_edge.pop(ph, None)
            e.phi_join.pop(ph, None)
        for ph in self.mysubs:
            e.phi_sub.pop(ph, None)
            e.phi_in.pop(ph, None)
            e.phi_keep.pop(ph, None)
            e.phi_edge.pop(ph, None)
            e.phi_join.pop(ph, None)
        self.events = s.events
        outs = []
        for b in self.info["rpo"]:
            for key, st in self.ins(b, init).items():
                e.stats["states"] += 1
                self.cur = b
                self.ckey = key
                for succ, st2 in self.transfer(b, st.copy()):
                    if succ == "ret":
                        outs.append(st2)
        e.stats["blocks"] += len(self.info["rpo"])
        groups = {}
        for st in outs:
            r = e.rd(st, 0)
            if r.op == "ref" and isinstance(r.a[0], int):
                r = e.deref(st, r)
            groups.setdefault((shape(r), st.facts) if e.pathmode else shape(r), []).append(st)
        if len(groups) > 40 and not e.pathmode:
            g2 = {}
            for k, v in groups.items():
                g2.setdefault(k.split("(")[0], []).extend(v)
            groups = g2
        for k, sts in groups.items():
            st = self.join(sts, ("ret", k), k, False) if len(sts) > 1 else sts[0]
            mem = {r: v for r, v in st.env.items() if not isinstance(r, int) and v is not e.default(r)}
            ret = e.rd(st, 0)
            if ret.op == "ref" and isinstance(ret.a[0], int):
                ret = e.deref(st, ret)
            # values may still embed references to our own locals
            ret = self.nolocal(st, ret)
            mem = {r: self.nolocal(st, v) for r, v in mem.items()}
            s.outcomes.append(Outcome(ret, st.facts, mem, k))
        return s

    def nolocal(self, st, v, d=0):
        if v.dep & 2 == 0 or d > 6:
            return v
        if v.op == "ref":
            if isinstance(v.a[0], int):
                return self.nolocal(st, self.e.deref(st, v), d + 1)
            return v
        if v.op in ("adt", "tuple", "array", "closure", "coroutine", "call"):
            n = [self.nolocal(st, x, d + 1) if isinstance(x, T) else x for x in v.a]
            if any(x is not y for x, y in zip(n, v.a)):
                return mk(v.op, *n)
        return v

    def nested(self):
        hs = self.info["heads"]
        return any(h != g and h in hs[g] for h in hs for g in hs)

    def fix(self, init, again=False):
        rpo = self.info["rpo"]
        self.pos = {b: i for i, b in enumerate(rpo)}
        self.out = {b: [] for b in rpo}
        if not again:
            self.sticky = {}
        self.hfacts = {}
        self.hprev = {}
        import heapq
        q = [0]
        inq = {rpo[0]}
        n = 0
        self.events = None
        while q:
            b = rpo[heapq.heappop(q)]
            inq.discard(b)
            n += 1
            if n > 60 * len(rpo) + 400:
                raise RuntimeError("no convergence in " + self.fn.id)
            res = []
            self.cur = b
            for key, st in self.ins(b, init).items():
                self.ckey = key
                for s, x in self.transfer(b, st.copy()):
                    if s != "ret":
                        res.extend((s, y, key) for y in self.fork(s, x))
            for s in self.requeue:
                if s not in inq:
                    inq.add(s)
                    heapq.heappush(q, self.pos[s])
            self.requeue = set()
            old = self.out[b]
            if len(old) == len(res) and all(o[0] == r[0] and o[2] == r[2] and o[1].facts == r[1].facts and o[1].env == r[1].env
                                            for o, r in zip(old, res)):
                continue
            self.out[b] = res
            for s in set(x[0] for x in res) | set(x[0] for x in old):
                if s not in inq:
                    inq.add(s)
                    heapq.heappush(q, self.pos[s])
            if not q and self.info["heads"]:
                # drop partitions kept alive only by their own back edges
                for s in self.prune(init):
                    if s not in inq:
                        inq.add(s)
                        heapq.heappush(q, self.pos[s])

    def flags(self, h):
        """bool locals that the loop at h changes and looks at again"""
        r = self.flagsof.get(h)
        if r is None:
            fn, r = self.fn, set()
            for b in self.info["heads"][h]:
                for s in fn.blocks[b]["s"]:
                    if s[0] == "=" and isinstance(s[1], int):
                        r.add(s[1])
                t = fn.blocks[b]["t"]
                if t[0] == "call" and isinstance(t[1].get("d"), int):
                    r.add(t[1]["d"])
            r = self.flagsof[h] = sorted(x for x in r if x in self.info["live"][h] and fn.lty(x).s == "bool" and x not in self.info["addr"])
        return r

    def fork(self, s, st):
        """what a flag is when a loop goes round is part of the state of the loop"""
        if s not in self.info["heads"]:
            return [st]
        out = [st]
        for r in self.flags(s):
            v = st.env.get(r)
            if v is None or v.op == "bool" or v.op == "phi" and v.a[1] == (r, ()) and v.a[0][0][:2] == (self.fn.id, s) or len(out) > 2:
                continue
            new = []
            for x in out:
                for c in (True, False):
                    f = self.e.add_fact(x.facts, v, c)
                    if f is not None:
                        env = dict(x.env)
                        env[r] = mk("bool", c)
                        new.append(St(env, f))
            out = new
        return out

    def way(self, b, p, k):
        """what keeps the ways apart that meet in a block leading back to a loop head"""
        latch = self.info["latch"]
        if b not in latch or p is None:
            return ()
        if p in latch and k and k[-1][0] == "W":
            return (k[-1],)
        return (("W", p),)

    def key_of(self, b, st, p=None, k=()):
        if b in self.collapsed:
            return ()
        live, addr = self.info["live"][b], self.info["addr"]
        shape = self.shape
        key = tuple(sorted((r, shape(v)) for r, v in st.env.items() if isinstance(r, int) and (r in live or r in addr) and shape(v) != "."))
        key += self.targets(st.env, live)
        if self.e.pathmode:
            key += (("F", st.facts),)
        return key + self.way(b, p, k)

    @staticmethod
    def targets(env, live):
        """what the live references point to (a write through one has to find its place)"""
        r = []
        for k, v in sorted(((k, v) for k, v in env.items() if isinstance(k, int) and k in live and v.op in ("ref", "tuple")), key=lambda z: z[0]):
            for i, x in enumerate((v,) if v.op == "ref" else v.a):
                if x.op == "ref":
                    r.append(("&", k, i, str(x.a[0]), str(x.a[1])))
        return tuple(r)

    def prune(self, init):
        b0 = self.info["rpo"][0]
        seen = {(b0, self.key_of(b0, init))}
        work = list(seen)
        nxt = {}
        for b, o in self.out.items():
            for (s, st, k) in o:
                nxt.setdefault((b, k), []).append((s, self.key_of(s, st, b, k)))
        while work:
            x = work.pop()
            for y in nxt.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        touched = set()
        for b, o in self.out.items():
            keep = [x for x in o if (b, x[2]) in seen]
            if len(keep) != len(o):
                touched.update(x[0] for x in o if (b, x[2]) not in seen)
                self.out[b] = keep
        return touched

    def ins(self, b, init):
        live = self.info["live"][b]
        addr = self.info["addr"]
        groups = {}
        cand = []
        if b == self.info["rpo"][0]:
            cand.append((None, init, ()))
        for p in self.info["preds"][b]:
            for (s, st, k) in self.out[p]:
                if s == b:
                    cand.append((p, st, k))
        for p, st, k in cand:
            env = {r: v for r, v in st.env.items() if not isinstance(r, int) or r in live or r in addr}
            if b in self.collapsed:
                key = ()
            else:
                shape = self.shape
                key = tuple(sorted((r, shape(v)) for r, v in env.items() if isinstance(r, int) and shape(v) != "."))
                key += self.targets(env, live)
                if self.e.pathmode:
                    key += (("F", st.facts),)
                key += self.way(b, p, k)
            groups.setdefault(key, []).append((p, St(env, st.facts)))
        if len(groups) > (400 if self.e.pathmode else CAP):
            self.collapsed.add(b)
            allst = [x for g in groups.values() for x in g]
            groups = {(): allst}
        res = {}
        head = self.info["heads"].get(b)
        for key, sts in groups.items():
            if head is None:
                res[key] = self.join([x[1] for x in sts], b, key, False) if len(sts) > 1 else sts[0][1]
            else:
                res[key] = self.joinhead(sts, b, key, head)
        return res

    def phi(self, b, key, root, path):
        ph = mk("phi", ((self.fn.id, b, key),), (root, path))
        self.myphis.add(ph)
        return ph

    @staticmethod
    def addin(s, v, f):
        o = s.get(v)
        s[v] = f if o is None else o & f

    def joinval(self, vals, b, key, root, path=(), fs=()):
        v0 = vals[0]
        if all(v is v0 for v in vals):
            return v0
        if len(path) < 3 and all(v.op == "adt" and v.a[:3] == v0.a[:3] for v in vals) and len(v0.a) > 3:
            return mk("adt", *v0.a[:3], *[self.joinval([v.a[i] for v in vals], b, key, root, path + (i,), fs) for i in range(3, len(v0.a))])
        if len(path) < 3 and v0.op == "coroutine" and all(v.op == "coroutine" and v.a[0] == v0.a[0] and len(v.a) == len(v0.a) for v in vals):
            return mk("coroutine", v0.a[0], *[self.joinval([v.a[i] for v in vals], b, key, root, path + (i,), fs) for i in range(1, len(v0.a))])
        if len(path) < 3 and (v0.op == "tuple" or v0.op == "array" and len(v0.a) <= 6 and all(isinstance(x, T) for v in vals for x in v.a)) and all(v.op == v0.op and len(v.a) == len(v0.a) for v in vals):
            return mk(v0.op, *[self.joinval([v.a[i] for v in vals], b, key, root, path + (i,), fs) for i in range(len(v0.a))])
        ph = self.phi(b, key, root, path)
        s = self.e.phi_in.setdefault(ph, {})
        for v, f in zip(vals, fs):
            if len(vals) > 2:
                self.e.phi_join.setdefault(ph, set()).add((v, f))
            if v is not ph:
                self.addin(s, v, f)
            else:
                self.e.phi_keep.setdefault(ph, set()).add(f)
        return ph

    def join(self, sts, b, key, head):
        if len(sts) == 1:
            return sts[0]
        e = self.e
        facts = sts[0].facts
        for s in sts[1:]:
            facts = facts & s.facts
        roots = {}
        for s in sts:
            for r in s.env:
                roots[r] = None
        env = {}
        for r in roots:
            vals = []
            miss = False
            for s in sts:
                v = s.env.get(r)
                if v is None:
                    if isinstance(r, int):
                        miss = True
                        break
                    v = e.default(r)
                vals.append(v)
            if miss:
                continue
            env[r] = self.joinval(vals, b, key, r, (), [s.facts for s in sts])
        # keep a small disjunction of what the joined paths knew
        if 2 <= len(sts) <= 12:
            res = [frozenset(x for x in s.facts - facts) for s in sts]
            if all(1 <= len(r) <= (16 if len(sts) <= 3 else 1) for r in res):
                ds = []
                for r in res:
                    ds.append(tuple(sorted(((t, bl) for t, bl in r if t.op != "or" or self.orsize(t) <= 24), key=lambda z: (z[0].id, z[1]))))
                if all(ds):
                    facts = facts | {(mk("or", *sorted(ds, key=lambda d: [(t.id, bl) for t, bl in d])), True)}
            else:
                # error exits joined together: some step failed
                ds = {tuple(sorted(((t, bl) for t, bl in r if bl and t.op == "is" and t.a[1] == "Err"), key=lambda z: (z[0].id, z[1]))) for r in res}
                if all(ds) and len(ds) > 1:
                    facts = facts | {(mk("or", *sorted(ds, key=lambda d: [(t.id, bl) for t, bl in d])), True)}
        return St(env, facts)

    def orsize(self, t):
        return sum(self.orsize(x) if x.op == "or" else 1 for d in t.a for x, _ in d)

    def joinhead(self, sts, b, key, body):
        e = self.e
        memo = {}
        stick = self.sticky.setdefault((b, key), set())
        facts = None
        for p, s in sts:
            f = s.facts
            if p in body and p is not None:
                f = frozenset(x for x in f if not e.mentions(x[0], self.fn.id, body, memo))
            facts = f if facts is None else facts & f
        if (b, key) in self.hfacts:
            facts = facts & self.hfacts[(b, key)]
        self.hfacts[(b, key)] = facts
        prev = self.hprev.get((b, key), {})
        roots = {}
        for p, s in sts:
            for r in s.env:
                roots[r] = None
        env = {}
        for r in roots:
            vals = []
            miss = False
            force = r in stick
            for p, s in sts:
                v = s.env.get(r)
                if v is None:
                    if isinstance(r, int):
                        miss = True
                        break
                    v = e.default(r)
                vals.append((p in body if p is not None else False, v, s.facts))
            if miss:
                continue
            ph = self.phi(b, key, r, ())
            v0 = vals[0][1]
            if not force:
                same = all(x[1] is v0 for x in vals)
                pv = prev.get(r)
                if pv is not None and pv is not v0 and len(vals) == 1 and vals[0][0]:
                    same = False
                stale = any(inb and e.mentions(v, self.fn.id, body, memo) for inb, v, _ in vals)
                if same and not stale:
                    env[r] = v0
                    continue
                if len(sts) == 1 and not stale and not (vals[0][0] and not same):
                    env[r] = v0
                    continue
                sh = shape(v0)
                if (v0.op == "ref" and same) or (v0.op == "bool" and same):
                    env[r] = v0
                    continue
                stick.add(r)
            # keep the constructor shape of enum values (it is part of the key)
            cor = v0.op == "coroutine" and all(v.op == "coroutine" and v.a[0] == v0.a[0] and len(v.a) == len(v0.a) for _, v, _ in vals)
            if cor or all(v.op == "adt" and v.a[:3] == v0.a[:3] for _, v, _ in vals) and v0.a[1] is not None and len(v0.a) <= 5:
                comps = []
                n0 = 1 if cor else 3
                for i in range(n0, len(v0.a)):
                    cv = [v.a[i] for _, v, _ in vals]
                    php = self.phi(b, key, r, (i,))
                    ss = e.phi_in.setdefault(php, {})
                    for x, (inb, _, fx) in zip(cv, vals):
                        if inb:
                            e.phi_edge.setdefault(php, set()).add((x, fx))
                        if x is not php:
                            self.addin(ss, x, fx)
                        else:
                            e.phi_keep.setdefault(php, set()).add(fx)
                    comps.append(php if not (len(cv[0].a) == 0 and all(x is cv[0] for x in cv)) else cv[0])
                env[r] = mk(v0.op, *v0.a[:n0], *comps)
                continue
            sx = e.phi_in.setdefault(ph, {})
            for inb, v, fx in vals:
                if inb:
                    e.phi_edge.setdefault(ph, set()).add((v, fx))
                if v is not ph:
                    self.addin(sx, v, fx)
                else:
                    e.phi_keep.setdefault(ph, set()).add(fx)
            env[r] = ph
        self.hprev[(b, key)] = env
        if b in self.idxwant:
            self.run_along(sts, b, key, body, env)
        return St(env, facts)

    # --- loops that count an index up
    def index_term(self, kind, ph):
        return ph if kind == "w" else proj(mk("call", "Iterator::next", ph), ("v", "Some", "0"))

    def step(self, h, root, kind, v):
        """the phis at head h that v is one step after, or None"""
        out, seen, work = [], set(), [(v, 0)]
        while work:
            v, n = work.pop()
            if (v, n) in seen:
                continue
            seen.add((v, n))
            if v.op == "phi" and v.a[1] == (root, ()) and v.a[0][0][0] == self.fn.id and len(v.a[0]) == 1:
                if v.a[0][0][1] == h:
                    if n != 1:
                        return None
                    if v not in out:
                        out.append(v)
                else:                        # ways joined on the way back
                    work += [(x, n) for x in self.e.phi_in.get(v, ())]
            elif n:
                return None
            elif kind == "w" and v.op == "bin" and v.a[0] == "Add" and v.a[2] is Int(1):
                work.append((v.a[1], 1))
            elif kind == "r" and v.op == "post" and v.a[0] == "Iterator::next" and v.a[1] == 0:
                work.append((v.a[2], 1))
            else:
                return None
        return out or None

    def begin(self, kind, v, b):
        """where in the collection b the index starts"""
        if kind == "w":
            return v.a[0] if v.op == "int" and v.a[0] >= 0 else None
        while v.op == "call" and v.a[0] == "IntoIterator::into_iter" and len(v.a) == 2:
            v = v.a[1]
        if v.op == "adt" and v.a[0] == "core::ops::range::Range" and tuple(v.a[2]) == ("start", "end") and v.a[3].op == "int" and v.a[3].a[0] >= 0 and v.a[4] is self.length(b):
            return v.a[3].a[0]
        return None

    @staticmethod
    def length(b):
        return simp_call("len", (b,))

    def clean(self, init):
        """forget the ways into joined values that were only there on the way to the fixpoint"""
        for ph in self.myphis:
            self.e.phi_in.pop(ph, None)
            self.e.phi_keep.pop(ph, None)
            self.e.phi_edge.pop(ph, None)
            self.e.phi_join.pop(ph, None)
        for b in self.info["rpo"]:
            self.ins(b, init)

    def index_loops(self, init):
        e = self.e
        if not any(i.op == "phi" and i.a[0][0][0] == self.fn.id or i.op == "vf" for i in e.idxuse):
            return False
        self.clean(init)
        memo = {}
        for h, body in self.info["heads"].items():
            memo[h] = {}
            found = []
            for i, bs in e.idxuse.items():
                if i.op == "phi":
                    ph, kind = i, "w"
                else:
                    ph, kind = i.a[0], "r"
                    if not (i.a[1] == "Some" and ph.op == "call" and ph.a[0] == "Iterator::next" and len(ph.a) == 2 and ph.a[1].op == "phi"):
                        continue
                    ph = ph.a[1]
                if not (len(ph.a[0]) == 1 and ph.a[0][0][:2] == (self.fn.id, h) and ph.a[1][1] == ()):
                    continue
                root = ph.a[1][0]
                for b in bs:
                    if (root, kind, b) not in found and not e.mentions(b, self.fn.id, body, memo[h]) and self.counts(h, body, root, kind, b):
                        found.append((root, kind, b))
            if found:
                found.sort(key=lambda z: (str(z[0]), z[1], show(z[2], 0, 12)))
                self.idxwant[h] = {f: n for n, f in enumerate(found)}
        return bool(self.idxwant)

    def counts(self, h, body, root, kind, coll):
        """every way into the loop starts the index and every way round takes it one further"""
        n = 0
        for p in self.info["preds"][h]:
            for s, st, k in self.out[p]:
                if s == h:
                    v = st.env.get(root)
                    if v is None or (self.step(h, root, kind, v) if p in body else self.begin(kind, v, coll)) is None:
                        return False
                    n += 1
        return n > 1

    def run_along(self, sts, b, key, body, env):
        e = self.e
        for (root, kind, coll), n in self.idxwant[b].items():
            ph = env.get(root)
            if ph is None or ph.op != "phi" or ph.a != (((self.fn.id, b, key),), (root, ())):
                continue
            it = self.phi(b, key, ("IT", root, n), ())
            ins, good = [], False
            for p, s in sts:
                v = s.env.get(root)
                if v is None:
                    break
                if p is None or p not in body:
                    k = self.begin(kind, v, coll)
                    if k is None:
                        break
                    x = mk("call", "iter", coll)
                    ins.append((p, mk("call", "Iterator::skip", x, Int(k)) if k else x, s.facts))
                else:
                    o = self.step(b, root, kind, v)
                    if o is None:
                        break
                    for y in o:
                        ins.append((p, mk("post", "Iterator::next", 0, self.phi(b, y.a[0][0][2], ("IT", root, n), ())), s.facts))
            else:
                good = True
            i = self.index_term(kind, ph)
            l = [x for x in e.elemmap.get(i, []) if x[2] is not it]
            if good:
                sx = e.phi_in.setdefault(it, {})
                for p, x, fx in ins:
                    if p in body and p is not None:
                        e.phi_edge.setdefault(it, set()).add((x, fx))
                    self.addin(sx, x, fx)
                l.append((self.length(coll), coll, it))
            if e.elemmap.get(i, []) != l:
                self.requeue |= set(body)
            if l:
                e.elemmap[i] = l
            else:
                e.elemmap.pop(i, None)

    def recheck(self, init):
        """drop what turned out not to be a plain index loop"""
        self.clean(init)
        bad = False
        for h, want in list(self.idxwant.items()):
            for (root, kind, coll), n in list(want.items()):
                if not self.counts(h, self.info["heads"][h], root, kind, coll):
                    del want[(root, kind, coll)]
                    bad = True
                    for i in list(self.e.elemmap):
                        ph = i if i.op == "phi" else i.a[0].a[1]
                        if ph.a[0][0][:2] == (self.fn.id, h) and ph.a[1][0] == root:
                            del self.e.elemmap[i]
            if not want:
                del self.idxwant[h]
        return bad

    def collect_forall(self):
        """facts about the loop item that hold on every back edge of its loop"""
        e = self.e
        found = False
        bound = mk("bound", 0)
        for h, body in self.info["heads"].items():
            memo, phs, edges = {}, {}, []

            def items_of(facts):
                # is(next(phi), Some) identifies the item
                for (t, b) in facts:
                    if b and t.op == "is" and t.a[1] == "Some" and t.a[0].op == "call" and t.a[0].a[0] == "Iterator::next":
                        ph = t.a[0].a[1]
                        if ph.op == "phi" and ph.a[0][0][:2] == (self.fn.id, h) and len(ph.a[0]) == 1:
                            yield ph, proj(t.a[0], ("v", "Some", "0"))

            for p in self.info["preds"][h]:
                if p not in body:
                    continue
                for (s, st, k) in self.out[p]:
                    if s != h:
                        continue
                    per = {}
                    ways = [st.facts]
                    if not any(True for _ in items_of(st.facts)):
                        # paths joined before they come back to the head
                        for t, b in sorted(st.facts, key=lambda z: z[0].id):
                            if b and t.op == "or" and all(any(True for _ in items_of(d)) for d in t.a):
                                ways = [st.facts | frozenset(d) for d in t.a]
                                break
                    for w in ways:
                        one = {}
                        for ph, item in items_of(w):
                            fs = set()
                            for (t, b) in w:
                                if occurs(t, item):
                                    t = replace(t, item, bound)
                                    # what else it speaks of must be the same in every iteration
                                    if not e.mentions(t, self.fn.id, body, memo):
                                        fs.add((t, b))
                            phs[ph] = None
                            one[ph.a[1]] = (ph.a[0][0][2], fs)
                        for root in set(per) | set(one):
                            per.setdefault(root, []).append(one.get(root))
                    edges.append((self.key_of(h, st), per, len(ways)))
            got = {}
            for ph in phs:
                got.setdefault((ph.a[0][0][2], ph.a[1]), ph)
            F = {}
            change = True
            while change:
                change = False
                for K, root in got:
                    cur = None
                    for key, per, n in edges:
                        if key != K:
                            continue
                        l = per.get(root, [])
                        for x in l if len(l) == n else [None]:
                            fs = set() if x is None else x[1] if x[0] == K else x[1] & F.get((x[0], root), x[1])
                            cur = set(fs) if cur is None else cur & fs
                    cur = cur or set()
                    if F.get((K, root)) != cur:
                        F[(K, root)] = cur
                        change = True
            for (K, root), fs in F.items():
                # one of several things that may hold of an item
                rest = set()
                for key, per, n in edges:
                    if key == K:
                        l = per.get(root, [])
                        for x in l if len(l) == n else [None]:
                            if x is not None:
                                x = frozenset((x[1] if x[0] == K else x[1] & F.get((x[0], root), x[1])) - fs)
                            rest.add(x or None)
                if len(rest) > 1 and None not in rest and len(rest) <= 6:
                    ds = {tuple(sorted(((t, b) for t, b in r if t.op != "or" or self.orsize(t) <= 24), key=lambda z: (z[0].id, z[1]))) for r in rest}
                    if all(ds):
                        fs = fs | {(mk("or", *sorted(ds, key=lambda d: [(t.id, b) for t, b in d])), True)}
                if fs and self.once(got[(K, root)], h):
                    self.forall[got[(K, root)]] = e.forallmap[got[(K, root)]] = frozenset(fs)
                    found = True
        return found

    def once(self, ph, h):
        """each iteration takes one item"""
        seen, work = set(), [(x, 0) for x in self.e.phi_inputs(ph)]
        while work:
            x, n = work.pop()
            if (x, n) in seen:
                continue
            seen.add((x, n))
            if x.op in ("post", "ipost") and x.a[0] == "Iterator::next":
                work.append((x.a[2] if x.op == "post" else x.a[3], n + 1))
            elif x.op == "phi" and x.a[0][0][:2] == (self.fn.id, h):
                if n != 1:
                    return False
            elif x.op == "phi":
                work.extend((y, n) for y in self.e.phi_inputs(x))
        return True

    # --- transfer
    def transfer(self, b, st):
        fn, e = self.fn, self.e
        blk = fn.blocks[b]
        for s in blk["s"]:
            self.stmt(st, s, b)
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "drop":
            return [(t[2], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "yield":
            e.wr(st, *e.loc(st, fn, t[3]), mk("top", ((fn.id, b),), "resume"))
            if self.events is not None:
                self.events.append(Ev("yield", "yield", (), st.facts, fn, b, t[4]))
            return [(t[2], st)]
        if k == "switch":
            return self.switch(st, b, t)
        if k == "assert":
            c = e.operand(st, fn, t[1])
            exp = t[2]
            if self.events is not None:
                ops = [e.deep(st, e.operand(st, fn, o)) for o in t[3][1:] if isinstance(o, list)]
                nm = t[3][0] + (":" + t[3][1] if t[3][0] == "overflow" else "")
                ev = Ev("panic", nm, ops, st.facts, fn, b, t[6], extra=self.assert_ty(t))
                self.events.append(ev)
            f = e.add_fact(st.facts, c, exp)
            if f is None:
                return []
            st.facts = f
            return [(t[4], st)]
        if k == "call":
            return self.call(st, b, t[1])
        return []

    def assert_ty(self, t):
        for o in t[3][1:]:
            if isinstance(o, list) and o[0] in ("c", "m") and isinstance(o[1], int):
                return self.fn.lty(o[1]).s
            if isinstance(o, list) and o[0] == "k" and "ty" in o[1]:
                return self.fn.tys[o[1]["ty"]].s
        return None

    def switch(self, st, b, t):
        e, fn = self.e, self.fn
        d = e.operand(st, fn, t[1])
        targets, other = t[2], t[3]
        ty = fn.tys[t[4]].s
        res = []
        if d.op == "disc":
            x, vars_ = d.a
            names = dict(vars_) if vars_ else None
            if x.op == "upd":
                x = x.a[0]
            if names:
                used = []
                for val, bb in targets:
                    v = names.get(val)
                    if v is None:
                        continue
                    used.append(v)
                    f = e.add_fact(st.facts, is_(x, v), True)
                    if f is not None:
                        res.append((bb, St(dict(st.env), self.inject(f, x, v))))
                rest = [v for v in names.values() if v not in used]
                if rest:
                    f = st.facts
                    if len(rest) == 1:
                        f = e.add_fact(f, is_(x, rest[0]), True)
                        if f is not None:
                            f = self.inject(f, x, rest[0])
                    else:
                        for v in used:
                            f = e.add_fact(f, is_(x, v), False)
                            if f is None:
                                break
                    if f is not None:
                        res.append((other, St(st.env, f)))
                return res
        if ty == "bool":
            # targets: [["0", bb]]
            for val, bb in targets:
                f = e.add_fact(st.facts, d, val != "0")
                if f is not None:
                    res.append((bb, St(dict(st.env), f)))
            f = e.add_fact(st.facts, d, targets[0][0] == "0")
            if f is not None:
                res.append((other, St(st.env, f)))
            return res
        f0 = st.facts
        done = False
        for val, bb in targets:
            n = int(val)
            c = mk("char", n) if ty == "char" else Int(self.signed(n, ty))
            q = binop("Eq", d, c)
            f = e.add_fact(st.facts, q, True)
            if f is not None:
                res.append((bb, St(dict(st.env), f)))
            if f0 is not None:
                f0 = e.add_fact(f0, q, False)
        if f0 is not None:
            res.append((other, St(st.env, f0)))
        return res

    def inject(self, f, x, v):
        if v == "None" and x.op == "call" and x.a[0] == "Iterator::next" and x.a[1] in self.forall:
            f = self.e.forall_fact(f, x.a[1])
        return f

    @staticmethod
    def signed(n, ty):
        w = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}.get(ty)
        if w and n >= 1 << (w - 1):
            return n - (1 << w)
        return n

    def stmt(self, st, s, b):
        e, fn = self.e, self.fn
        if s[0] == "dead":
            # a mutable borrow may outlive in our env only through dead refs: safe to drop
            st.env.pop(s[1], None) if s[1] not in self.info["addr"] else None
            return
        if s[0] == "sd":
            return
        if s[0] != "=":
            return
        v = self.rvalue(st, s[2], s[1], b)
        if isinstance(s[1], int) and v.op in TYPED:
            self.tty.setdefault(v, fn.lty(s[1]))
        root, path = e.loc(st, fn, s[1])
        kept = None
        if self.events is not None and not isinstance(s[1], int):
            ow = self.owner(st, s[1])
            if ow is None and (root, path) in self.elref:
                kept = self.elref[(root, path)]
                kept += (e.rd(st, *kept[0]),)
            elif ow is None and (root, path) in self.reft:
                # through a reference to a field
                self.mutated(st, b, (root, path), e.rd(st, root, path), v, "=", s[3])
            if ow is not None:
                ev = Ev("wr", ow[0], (e.deep(st, v), e.rd(st, *e.loc(st, fn, ow[2]))), st.facts, fn, b, s[3], extra=(ow[1], ow[3], "="))
                self.events.append(ev)
        if self.events is not None and not isinstance(root, int):
            self.events.append(Ev("write", "assign", (mk("ref", root, path), e.rd(st, root, path), e.deep(st, v)), st.facts, fn, b, s[3]))
        e.wr(st, root, path, v)
        if kept is not None:
            loc, ow, old = kept
            self.events.append(Ev("wr", ow[0], (e.deep(st, e.rd(st, *loc)), old), st.facts, fn, b, s[3], extra=(ow[1], ow[2], "=")))

    def owner(self, st, pl):
        """(adt, field, place of that field, rest) for the innermost workspace field in a place"""
        l, pr = pl
        for i in range(len(pr) - 1, -1, -1):
            x = pr[i]
            if isinstance(x, list) and x[0] == "f" and len(x) > 3 and x[3]:
                return x[3], x[2], [l, pr[:i + 1]], len(pr) - 1 - i
        return None

    def rvalue(self, st, r, dest, b):
        e, fn = self.e, self.fn
        k = r[0]
        if k == "use":
            return e.operand(st, fn, r[1])
        if k in ("ref", "rebor"):
            if r[2] == "shr":
                return e.deref(st, e.place(st, fn, r[1]))
            root, path = e.loc(st, fn, r[1])
            if not isinstance(r[1], int):
                ow = self.owner(st, r[1])
                if ow is not None:
                    self.reft[(root, path)] = (ow[0], ow[1], ow[3])
            return mk("ref", root, path)
        if k == "agg":
            kd = r[1]
            vals = [e.operand(st, fn, o) for o in r[2]]
            if kd[0] == "adt":
                if self.events is not None and kd[1].startswith("sip"):
                    self.events.append(Ev("new", kd[1], tuple(e.deep(st, v) for v in vals), st.facts, fn, b, None, extra=(kd[2], tuple(kd[4][:len(vals)]))))
                return mk("adt", kd[1], kd[2], tuple(kd[4][:len(vals)]), *vals)
            if kd[0] in ("tuple", "array"):
                return mk(kd[0], *vals)
            if kd[0] in ("closure", "coroutine"):
                return mk(kd[0], kd[1], *vals)
            return mk("tuple", *vals)
        if k == "bin":
            a, c = e.deep(st, e.operand(st, fn, r[2])), e.deep(st, e.operand(st, fn, r[3]))
            op = r[1]
            ty = fn.tys[r[4]].s
            if op.endswith("WithOverflow"):
                o = op[:-12]
                return mk("tuple", binop(o, a, c), mk("ovf", o, a, c))
            if ty in ("f64", "f32"):
                return mk("bin", "F" + op, a, c)
            return binop(op, a, c)
        if k == "un":
            a = e.deep(st, e.operand(st, fn, r[2]))
            if r[1] == "Not":
                d = dest if isinstance(dest, int) else None
                if d is not None and fn.lty(d).s == "bool":
                    return notop(a)
                return mk("call", "bitnot", a)
            if r[1] == "PtrMetadata":
                return call("len", a)
            return mk("call", "un" + r[1], a)
        if k == "disc":
            v = e.place(st, fn, r[1])
            v = e.deref(st, v)
            return mk("disc", v, tuple(tuple(x) for x in r[3]) if r[3] else None)
        if k == "cast":
            v = e.operand(st, fn, r[2])
            return self.cast(st, r[1], v, fn.tys[r[3]].s, fn.tys[r[4]])
        if k == "rep":
            return mk("call", "repeat", e.operand(st, fn, r[1]), Int(r[2]) if r[2] is not None else mk("const", "?"))
        if k == "tls":
            return mk("const", r[1])
        return mk("top", ((fn.id, b),), k)

    W = {"u8": (0, 8), "u16": (0, 16), "u32": (0, 32), "u64": (0, 64), "usize": (0, 64), "u128": (0, 128),
         "i8": (1, 8), "i16": (1, 16), "i32": (1, 32), "i64": (1, 64), "isize": (1, 64), "i128": (1, 128), "char": (0, 21), "bool": (0, 1)}

    def cast(self, st, kind, v, to, fromt):
        fr = fromt.s
        if kind.startswith("IntToInt"):
            if v.op == "disc":
                return v
            v = self.e.deep(st, v)
            if to in self.W and fr in self.W:
                ts, tw = self.W[to]
                fs, fw = self.W[fr]
                if v.op in ("int", "char", "bool"):
                    n = int(v.a[0])
                    n &= (1 << tw) - 1
                    if ts and n >= 1 << (tw - 1):
                        n -= 1 << tw
                    return mk("char", n) if to == "char" else Int(n)
                if (ts == fs and tw >= fw) or (ts and not fs and tw > fw):
                    if to == "char" or fr == "char":
                        return mk("call", "cast:" + to, v)
                    return v
            return mk("call", "cast:" + to, v)
        if kind.startswith("FloatToInt") or kind.startswith("IntToFloat") or kind.startswith("FloatToFloat"):
            return mk("call", "cast:" + to, self.e.deep(st, v))
        return v

    # --- calls
    def call(self, st, b, c):
        e, fn = self.e, self.fn
        args = [e.operand(st, fn, o) for o in c["a"]]
        site = ((fn.id, b),)
        tgt = c["t"]
        at = [fn.tys[i] for i in c["at"]]
        rets = self.dispatch(st, b, c, args, at, site)
        if tgt is None:
            return []
        out = []
        for st2, v in rets:
            if isinstance(c["d"], int) and v.op in TYPED:
                self.tty.setdefault(v, fn.lty(c["d"]))
            root, path = e.loc(st2, fn, c["d"])
            e.wr(st2, root, path, v)
            out.append((tgt, st2))
        return out

    def pkey(self):
        """the known state that tells this analysis of the block from the others"""
        if self.e.pathmode:
            return ()
        return tuple(k for k in self.ckey if k[0] != "W")

    def record(self, kind, name, st, b, args, line, rid=None, extra=None, virt=False):
        if self.events is not None:
            e = self.e
            ev = Ev(kind, name, tuple(e.deep(st, a) for a in args), st.facts, self.fn, b, line, rid, extra, virt)
            ev.env = tuple(args)
            ev.pkey = self.pkey()
            self.events.append(ev)
            return ev

    def dispatch(self, st, b, c, args, at, site):
        e = self.e
        if "ptr" in c:
            f = e.operand(st, self.fn, c["ptr"])
            return self.apply(st, b, f, args, site, c.get("l"))
        f = c["f"]
        rid = c.get("r") or f
        name = short(f)
        if name.startswith("Digest::") and c.get("ga"):
            name += "<" + digest_ty(self.fn.tys[c["ga"][0]].s) + ">"
        return self.dispatch_named(st, b, name, f, rid, args, at, site, c.get("l"), c)

    def dispatch_named(self, st, b, name, f, rid, args, at, site, line, c=None):
        e = self.e
        g = e.p.fn(rid)
        if g is None and rid != f:
            g = e.p.fn(f) if not (c and c.get("tr")) else None
        if e.only is not None and g is not None and g.crate not in e.only and not g.derived and strip_generics(g.id) not in e.also:
            r = models.model(self, st, b, name, f, rid, None, args, at, site, line, c) if name.split("::")[0] in OPAQUE_MODELS else None
            return r if r is not None else self.external(st, b, name, f, rid, args, at, site, line, c)
        if c is not None and c.get("virt"):
            g = None
        if c is not None and c.get("tr") and "r" not in c and g is not None and g.in_trait:
            # unresolved generic/dyn call to a workspace trait's default method
            g = None
        r = models.model(self, st, b, name, f, rid, g, args, at, site, line, c)
        if r is not None:
            return r
        if g is not None and name not in e.opaque and strip_generics(g.id) not in e.opaque:
            s = e.summary(g)
            if s is not None and not s.opaque:
                self.record("call", name, st, b, args, line, rid=g.id)
                return self.instantiate(st, b, s, args, site)
        return self.external(st, b, name, f, rid, args, at, site, line, c)

    def instantiate(self, st, b, s, args, site):
        e = self.e
        argmap = {i + 1: a for i, a in enumerate(args)}
        k = self.pkey()
        psite = site[:-1] + (site[-1] + (k,),) if k and len(site[-1]) == 2 else site
        sub = e.substituter(argmap, site, st, e.tty.get(s.fn.id), self.tty, self.mysubs, psite)
        res = []
        outs = s.outcomes
        for o in outs:
            facts = st.facts
            for t, bl in o.facts:
                facts = e.add_fact(facts, sub(t), bl)
                if facts is None:
                    break
            if facts is None:
                continue
            st2 = St(dict(st.env), facts)
            writes = []
            for root, v in o.mem.items():
                loc = e.subst_loc(sub, argmap, root, ())
                writes.append((loc, sub(v)))
            ret = sub(o.ret)
            for loc, v in writes:
                if self.events is not None:
                    self.mutated(st2, b, loc, e.rd(st2, *loc), v, s.fn.id, None)
                e.wr(st2, loc[0], loc[1], v)
            res.append((st2, ret))
        return res

    def apply(self, st, b, f, args, site, line, name=None):
        """call a function value"""
        e = self.e
        f = e.deref(st, f)
        if f.op == "closure":
            g = e.p.fn(f.a[0])
            if g is not None:
                s = e.summary(g)
                if s is not None:
                    a = [f] + list(args)
                    self.record("call", "closure", st, b, a, line, rid=g.id)
                    return self.instantiate(st, b, s, a, site)
        if f.op == "fn":
            nm = short(f.a[0])
            return self.dispatch_named(st, b, nm, f.a[0], f.a[0], list(args), [None] * len(args), site, line, None)
        return [(st, mk("call", "apply", f, *[e.deep(st, a) for a in args]))]

    def external(self, st, b, name, f, rid, args, at, site, line, c):
        e = self.e
        vals = [e.deep(st, a) for a in args]
        impure = name in IMPURE_NAME or (c is not None and (c.get("virt") or c.get("unres") or ("r" not in c and c.get("tr") and f in e.p.fns or (c.get("tr") and f.split("::")[0].startswith("sip_")))))
        if not impure:
            for t in at:
                if t is not None and any(x in t.s for x in IMPURE_TY):
                    impure = True
                    break
        if not impure and name.split("::")[0] in ("fs", "env", "net", "time", "rand", "task", "sync", "OsRng", "SysRng", "UnixDatagram"):
            impure = True
        if e.p.fn(rid) is not None:
            impure = impure or False
        ev = self.record("call", name, st, b, args, line, rid=rid, virt=bool(c and c.get("virt")))
        if impure:
            v = mk("icall", name, site, *vals)
        else:
            v = simp_call(name, tuple(vals))
        for i, a in enumerate(args):
            ty = at[i] if i < len(at) else None
            if a.op == "ref":
                if ty is None or ty.k in ("mutref", "adt", "param", "other"):
                    nv = mk("ipost", name, i, site, *vals) if impure else mk("post", name, i, *vals)
                    self.mutated(st, b, a.a, vals[i], nv, name, line)
                    e.wr(st, a.a[0], a.a[1], nv)
            elif a.op == "closure":
                # the callee may run the closure: havoc what it captured by &mut
                for j, cpt in enumerate(a.a[1:]):
                    if cpt.op == "ref":
                        nv = mk("ipost", name, ("cap", j), site, *vals)
                        e.wr(st, cpt.a[0], cpt.a[1], nv)
            elif ty is not None and ty.k == "mutref" and self.events is not None:
                pass
        if ev is not None:
            ev.ret = v
        return [(st, v)]


def occurs(t, x, memo=None):
    if t is x:
        return True
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = False
    for y in t.a:
        if isinstance(y, T):
            if occurs(y, x, memo):
                r = True
                break
        elif isinstance(y, tuple):
            for z in y:
                if isinstance(z, T) and occurs(z, x, memo):
                    r = True
                    break
                if isinstance(z, tuple):
                    for w in z:
                        if isinstance(w, T) and occurs(w, x, memo):
                            r = True
                            break
    memo[t] = r
    return r


def replace(t, x, y):
    memo = {}

    def tup(z):
        if isinstance(z, T):
            return rec(z)
        if isinstance(z, tuple):
            return tuple(tup(w) for w in z)
        return z

    def rec(t):
        if t is x:
            return y
        r = memo.get(t)
        if r is not None:
            return r
        if not t.a:
            return t
        r = mk(t.op, *[tup(z) for z in t.a])
        memo[t] = r
        return r
    return rec(t)


def iter_source(e, ph):
    """the iterator's initial value: phi inputs that are not derived from the phi itself"""
    seen = set()
    work = [ph]
    init = set()
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            ins = e.phi_inputs(x)
            work.extend(ins)
        elif x.op in ("post", "ipost") and x.a[0] == "Iterator::next":
            work.append(x.a[2] if x.op == "post" else x.a[3])
        else:
            init.add(x)
    if len(init) == 1:
        return init.pop()
    return None
