"""Queries over function summaries: fact closure, resolution of joined values under a
configuration, string/hash normal forms, and events of a whole call tree seen from its entry."""
from term import *
from ir import strip_generics
from absint import Engine, occurs, Ev, short, map_or, replace
from prove import Prover


def remk(t, rec):
    """rebuild t with children mapped by rec, through the normalising constructors"""
    op, a = t.op, t.a
    if not a:
        return t
    if op == "call":
        return simp_call(a[0], tuple(rec(x) for x in a[1:]))
    if op == "bin":
        return binop(a[0], rec(a[1]), rec(a[2]))
    if op == "not":
        return notop(rec(a[0]))
    if op == "is":
        return is_(rec(a[0]), a[1])
    if op == "field":
        return proj(rec(a[0]), ("f", a[1]))
    if op == "vf":
        return proj(rec(a[0]), ("v", a[1], a[2]))
    if op == "idx":
        return proj(rec(a[0]), ("i", rec(a[1])))
    if op == "upd":
        e = a[1]
        if e[0] == "i":
            e = ("i", rec(e[1]))
        return upd(rec(a[0]), e, rec(a[2]))
    if op == "or":
        return map_or(a, rec)
    if op in ("forall", "ref"):
        return t
    return mk(op, *[rec(x) if isinstance(x, T) else x for x in a])


def rebuild(t):
    memo = {}

    def rec(x):
        r = memo.get(x)
        if r is None:
            r = memo[x] = remk(x, rec)
        return r
    return rec(t)


CUR = [None]


def unrolled(t):
    """the value a loop over an array written out in full leaves, as the steps one after another; None when it is no such loop's"""
    q = CUR[0]
    if q is None or t.op != "phi" or not q.is_head(q.site(t)):
        return None
    back = [(x, fs) for x, fs in q.e.phi_edges(t) if q.carried(x, t)]
    init = [x for x in q.e.phi_inputs(t) if not q.carried(x, t)]
    if len(back) != 1 or len(init) != 1:
        return None
    # the body is run to its end for every element: nothing else decides whether the next round comes
    o = t
    for _ in range(20):
        w = q.e.phi_sub.get(o)
        if not w:
            break
        if len({z[0] for z in w}) != 1:
            return None
        o = next(iter(w))[0]
    for y, fs in q.e.phi_edges(o):
        if q.carried(y, o) and not (len(fs) == 1 and all(f.op == "is" and f.a[1] == "Some" and b and f.a[0].op in ("call", "icall") and f.a[0].a[0] in ("Iterator::next", "next") for f, b in fs)):
            return None
    from rules._util import next_source, subterms
    x = back[0][0]
    it = {}
    for y in subterms(x):
        if y.op == "vf" and y.a[1] == "Some" and y.a[0].op in ("call", "icall") and y.a[0].a[0] in ("Iterator::next", "next"):
            src = next_source(q, y, frozenset())
            if src is not None and src.op == "array":
                it[y.a[0]] = src
    if len(it) != 1:
        return None
    it, src = list(it), list(it.values())[0]
    if len(src.a) > 64:
        return None
    item, acc = proj(it[0], ("v", "Some", "0")), init[0]
    for y in src.a:
        acc = replace(replace(x, item, y), t, acc)
    return acc


class Q:
    def __init__(self, ctx, only=None, also=(), opaque=()):
        self.ctx = ctx
        self.p = ctx.prog
        if only is None and not opaque:
            self.e, self.P = ctx.eng, ctx.P
        else:
            self.e = Engine(ctx.prog, opaque=opaque)
            self.e.only = set(only) if only else None
            self.e.also = set(also)
            self.P = Prover(self.e)
        self._res, self._full, self._sites = {}, {}, {}
        self._impossible = set()
        CUR[0] = self

    def under(self, fn, cfg):
        """summary under entry facts; values joined in it are re-resolved from this analysis"""
        self._res, self._full, self._sites = {}, {}, {}
        self._impossible = set()
        return self.e.summary_under(fn, cfg)

    # ------------------------------------------------------------ anchors
    def fns(self, suffix, crate=None, kind=None):
        """functions whose generics-free id ends with the suffix"""
        out = []
        for f in self.p.fns.values():
            if crate and f.crate != crate:
                continue
            i = strip_generics(f.id)
            if i == suffix or i.endswith(suffix):
                out.append(f)
        return out

    def one(self, suffix, crate=None, what=None):
        l = [f for f in self.fns(suffix, crate) if not f.test] if hasattr(next(iter(self.p.fns.values())), "test") else self.fns(suffix, crate)
        if len(l) != 1:
            self.ctx.violation("anchor:" + suffix, "-", f"expected exactly one function {suffix}, found {len(l)}: the public entry the property is about is gone or ambiguous")
            return None
        return l[0]

    # ------------------------------------------------------------ facts
    def close(self, facts):
        """re-simplify disjunctions against the other facts until nothing changes; None if contradictory"""
        f = frozenset(facts)
        if any((t, not b) in f for t, b in f):
            return None
        for _ in range(6):
            g = f
            for t, b in f:
                if t.op == "or" and b:
                    h = self.e.add_fact(frozenset(x for x in g if x[0] is not t), t, True)
                    if h is None:
                        return None
                    g = h
            if g == f:
                return f
            f = g
        return f

    def assume(self, facts, more):
        f = frozenset(facts)
        for t, b in more:
            f = self.e.add_fact(f, t, b)
            if f is None:
                return None
        return f

    # ------------------------------------------------------------ loops
    def site(self, ph):
        return tuple(p[:2] for p in ph.a[0])

    def heads(self, fid):
        f = self.e.p.fns.get(fid)
        return self.e.fninfo(f)["heads"] if f is not None else {}

    def is_head(self, site):
        fid, b = site[-1]
        return b in self.heads(fid)

    def encloses(self, h, s):
        """the loop headed at site h contains site s"""
        n = len(h)
        if len(s) < n or h[:n - 1] != s[:n - 1] or h[-1][0] != s[n - 1][0] or h == s:
            return False
        return s[n - 1][1] in self.heads(h[-1][0]).get(h[-1][1], ())

    def sites(self, t, stop=None):
        """program points whose joined values t is computed from, through other joined values; not looking round
        the loops that enclose the point `stop`"""
        r = self._sites.get((t, stop))
        if r is not None:
            return r
        seen, out, st = set(), set(), [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi":
                s = self.site(x)
                out.add(s)
                if stop is None or not (self.is_head(s) and self.encloses(s, stop)):
                    st += list(self.e.phi_inputs(x))
            for y in x.a:
                for z in (y if isinstance(y, tuple) else (y,)):
                    for w in (z if isinstance(z, tuple) else (z,)):
                        if isinstance(w, T):
                            st.append(w)
        r = self._sites[(t, stop)] = frozenset(out)
        return r

    def carried(self, x, ph):
        """x, flowing into the loop head ph, comes round the loop"""
        s = self.site(ph)
        return self.is_head(s) and s in self.sites(x, s)

    def plain_leaves(self, x, stop):
        seen, st = set(), [x]
        while st:
            y = st.pop()
            if y in seen:
                continue
            seen.add(y)
            if y.op == "phi" and y is not stop:
                st += list(self.e.phi_inputs(y))
            else:
                yield y

    def loopfree(self, facts, ph):
        """the facts that do not speak about values of the loop ph belongs to"""
        s = self.site(ph)
        return frozenset((t, b) for t, b in facts if s not in self.sites(t))

    # ------------------------------------------------------------ resolution
    def resolve(self, t, facts):
        key = (t, facts)
        r = self._res.get(key)
        if r is None:
            r = self._res[key] = Resolver(self, facts).rec(t)
        return r

    def full(self, facts):
        """the facts together with their forms after joined values are resolved"""
        facts = frozenset(facts)
        r = self._full.get(facts)
        if r is not None:
            return r
        cur = facts
        for _ in range(3):
            R = Resolver(self, cur)
            out = set(cur)
            for t, b in cur:
                y = R.plain(t)
                if y.op == "not":
                    y, b = y.a[0], not b
                if y.op == "or" and b:
                    z = self.expand_or(y, cur, R)
                    if z is not y and z.op == "or":
                        out.add((z, True))
                if y.op != "bool":
                    out.add((y, b))
                    o = self.expand(y, b, cur, R)
                    if o is not None:
                        out.add((o, True))
            nxt = self.close(frozenset(out))
            if nxt is None:
                self._impossible.add(facts)
            if nxt is None or nxt == cur:
                break
            cur = nxt
        self._full[facts] = cur
        return cur

    def possible(self, facts):
        """False when the facts contradict each other once joined values are resolved"""
        self.full(facts)
        return frozenset(facts) not in self._impossible

    def expand(self, t, b, facts, R):
        """a fact about a joined value as a disjunction over the values that can flow into it"""
        if t.op == "phi":
            ph = t
        elif t.op == "is" and t.a[0].op == "phi":
            ph = t.a[0]
        elif t.op == "bin" and t.a[0] in ("Eq", "Lt", "Le") and (t.a[1].op == "phi" or t.a[2].op == "phi"):
            ph = t.a[1] if t.a[1].op == "phi" else t.a[2]
        else:
            return None
        ins = self.e.phi_inputs(ph)
        if not 2 <= len(ins) <= 12 or any(self.carried(x, ph) for x in ins):
            return None
        ds = []
        for x, fs in ins.items():
            y = replace(t, ph, x)
            d = [(u, ub) for u, ub in fs if (u, ub) not in facts]
            d = [(u, ub) for u, ub in d if u.op != "or" or len(d) <= 4]
            ds.append(tuple(d) + ((rebuild(y), b),))
        o = map_or(tuple(ds), R.plain)
        return o if o.op == "or" else None

    def expand_or(self, t, facts, R):
        hit = False
        ds = []
        for d in t.a:
            nd = []
            for x, b in d:
                o = self.expand(x, b, facts, R)
                if o is None:
                    nd.append((x, b))
                else:
                    hit = True
                    nd.append((o, True))
            ds.append(tuple(nd))
        return map_or(tuple(ds), lambda x: x) if hit else t

    def holds(self, facts, pred, depth=6):
        """pred holds on every case of the recorded disjunctions (split goal-directed: a disjunction
        is opened only when at least one of its branches settles the goal or is contradictory)"""
        self._budget = 400
        return self._holds(self.full(facts), pred, depth)

    def _holds(self, facts, pred, depth):
        if pred(facts):
            return True
        if depth <= 0:
            return False
        best = None
        for o in sorted((t for t, b in facts if b and t.op == "or" and len(t.a) <= 12), key=lambda t: (len(t.a), t.dep, t.id)):
            self._budget -= 1
            if self._budget < 0:
                return False
            rest = facts - {(o, True)}
            left, won, dead = [], 0, 0
            for d in o.a:
                f = self.assume(rest, d)
                f = self.close(f) if f is not None else None
                if f is None:
                    dead += 1
                elif pred(f):
                    won += 1
                else:
                    left.append(f)
            if not left:
                return True
            rank = (not won, len(left))
            if (won or dead) and (best is None or rank < best[0]):
                best = rank, left, depth if not won and len(left) == 1 else depth - 1
        if best is None:
            return False
        return all(self._holds(f, pred, best[2]) for f in best[1])

    def mem(self, o, e, facts):
        """final value of a map entry or location e in an outcome, looked up by its resolved name"""
        v = o.mem.get(("O", e))
        if v is None:
            for k, x in o.mem.items():
                if k[0] == "O" and self.resolve(k[1], facts) is e:
                    return x
        return v


class Resolver:
    def __init__(self, q, facts):
        self.q, self.e = q, q.e
        self.facts = facts
        self.memo = {}
        self.busy = set()

    def rec(self, t):
        if t.dep == 0 and t.op != "phi":
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        if t.op == "phi":
            if t in self.busy:
                return t
            self.busy.add(t)
            ins = self.e.phi_inputs(t)
            ok = []
            for x, fs in ins.items():
                # a value carried round a loop comes from an earlier iteration, about which the facts say nothing
                c = self.q.carried(x, t)
                if c or self.consistent(fs):
                    ok.append((x, c))
            vals = []
            for x, c in ok:
                if c:
                    y = x
                    if all(z is t for z in self.q.plain_leaves(x, t)):
                        continue
                else:
                    y = self.rec(x)
                if y not in vals:
                    vals.append(y)
            self.busy.discard(t)
            r = vals[0] if len(vals) == 1 else t
            if r is t and self.busy:
                return r          # may resolve further outside the cycle
        else:
            r = self.part(t) if t.op in ("field", "vf") else None
            if r is None:
                r = remk(t, self.rec)
            if r.op in ("is", "bin", "not"):
                k = self.e.known(self.facts, r)
                if k is not None:
                    r = TRUE if k else FALSE
        self.memo[t] = r
        return r

    def part(self, t):
        """a part of a joined value that is the same whichever way the join was reached"""
        ph, steps = t, []
        while ph.op in ("field", "vf"):
            steps.append(("f", ph.a[1]) if ph.op == "field" else ("v", ph.a[1], ph.a[2]))
            ph = ph.a[0]
        if ph.op != "phi" or ph in self.busy:
            return None
        ins = self.e.phi_inputs(ph)
        if not 2 <= len(ins) <= 8:
            return None
        self.busy.add(ph)
        vals = set()
        for x, fs in ins.items():
            if self.q.carried(x, ph):
                vals.add(None)
                break
            if not self.consistent(fs):
                continue
            for e in steps[::-1]:
                if x.op == "adt" and e[0] == "v" and x.a[1] != e[1]:
                    x = None
                    break
                x = proj(x, e)
            if x is not None:
                vals.add(self.rec(x))
            if len(vals) > 1:
                break
        self.busy.discard(ph)
        if len(vals) == 1 and None not in vals:
            return vals.pop()
        return None

    def plain(self, t):
        """a fact's own form with its parts resolved, not replaced by its truth value"""
        if t.op == "or":
            return map_or(t.a, self.plain)
        if t.op in ("is", "bin", "not", "call") and t.a:
            return remk(t, self.rec)
        return t

    def consistent(self, fs, f=None):
        f = self.facts if f is None else f
        for t, b in fs:
            if t.op in ("or", "forall"):
                continue
            y = self.rec(t)
            if y.op == "not":
                y, b = y.a[0], not b
            f = self.e.add_fact(f, y, b)
            if f is None:
                return False
        for t, b in fs:
            if t.op == "or" and b and not any(self.consistent(d, f) for d in t.a):
                return False
        return True


# ------------------------------------------------------------------ strings and hashes
PASS = {"as_bytes", "String::into_bytes", "into_bytes", "from_utf8_lossy", "String::from_utf8_lossy", "to_string", "disp",
        "GenericArray::as_slice", "slice::to_vec", "Iterator::collect", "str::as_bytes", "Into::into", "From::from",
        "String::from_utf8_unchecked", "from_utf8_unchecked"}


def cat(*parts):
    out = []
    for p in parts:
        for x in p:
            if x[0] == "L" and out and out[-1][0] == "L":
                out[-1] = ("L", out[-1][1] + x[1])
            elif x[0] == "L" and x[1] == "":
                continue
            else:
                out.append(x)
    return tuple(out)


def flat(t):
    """normal form of a string or byte-string term: literals, opaque parts and hashes in order"""
    op, a = t.op, t.a
    if op == "str":
        return (("L", a[0]),) if a[0] else ()
    if op == "char":
        return (("L", chr(a[0])),)
    if op == "bytes":
        try:
            return (("L", bytes(a[0]).decode("utf-8")),) if a[0] else ()
        except Exception:
            return (("T", t),)
    if op == "call":
        n = a[0]
        if n in PASS and len(a) == 2:
            return flat(a[1])
        if n in ("format", "fmt"):
            return cat(*[flat(x) for x in a[1:]])
        if n in ("lower_hex", "upper_hex") and len(a) == 2:
            h = raw_hash(a[1])
            if h:
                return (("H", h[0], h[1], n),)
        if n == "hex::encode" and len(a) == 2:
            h = raw_hash(a[1])
            if h:
                return (("H", h[0], h[1], "lower_hex"),)
        if n == "Add::add":
            return cat(flat(a[1]), flat(a[2]))
        if n in ("slice::concat", "concat") and a[1].op == "array":
            return cat(*[flat(x) for x in a[1].a])
        if n in ("slice::join", "Join::join", "join") and a[1].op in ("array",):
            sep = flat(a[2])
            parts = []
            for i, x in enumerate(a[1].a):
                if i:
                    parts.append(sep)
                parts.append(flat(x))
            return cat(*parts)
        if n in ("String::new", "Vec::new", "String::with_capacity", "Vec::with_capacity"):
            return ()
    if op == "post" and a[1] == 0:
        n = a[0]
        if n in ("String::push_str", "String::push", "Vec::extend_from_slice", "Vec::push", "Write::write_fmt", "fmt::write",
                 "Write::write_str", "Write::write_char", "AddAssign::add_assign", "String::extend", "BytesMut::extend_from_slice", "BufMut::put_slice",
                 "Extend::extend"):
            return cat(flat(a[2]), flat(a[3]))
    if op == "phi":
        x = unrolled(t)
        if x is not None:
            return flat(x)
    return (("T", t),)


def raw_hash(t):
    """-> (algorithm, flat input) when t is the raw output of a hash function"""
    op, a = t.op, t.a
    if op == "call":
        n = a[0]
        if n.startswith("Digest::digest<") and len(a) == 2:
            return n[15:-1], flat(a[1])
        if n.startswith(("Digest::finalize<", "Digest::finalize_reset<")) and len(a) == 2:
            x, parts = a[1], []
            while True:
                if x.op == "phi":
                    x = unrolled(x)
                    if x is None:
                        return None
                if x.op == "post" and x.a[0].startswith("Digest::update<") and x.a[1] == 0:
                    parts.append(flat(x.a[3]))
                    x = x.a[2]
                elif x.op == "call" and x.a[0].startswith(("Digest::chain_update<",)):
                    parts.append(flat(x.a[2]))
                    x = x.a[1]
                elif x.op == "call" and x.a[0].startswith("Digest::new"):
                    return n[n.index("<") + 1:-1], cat(*parts[::-1])
                elif x.op == "call" and x.a[0].startswith("Digest::new_with_prefix<"):
                    return n[n.index("<") + 1:-1], cat(flat(x.a[1]), *parts[::-1])
                else:
                    return None
        if n == "md5::compute":
            return "Md5", flat(a[1])
        if n in PASS and len(a) == 2 or n == "Digest::as_bytes":
            return raw_hash(a[1])
        if n == "slice" and a[2] is NONE_ and a[3].op == "int":
            h = raw_hash(a[1])
            return (h[0] + "[..%d]" % a[3].a[0], h[1]) if h else None
    if op == "field" and a[1] == "0":
        return raw_hash(a[0])
    return None


def show_flat(f, W=80):
    out = []
    for x in f:
        if x[0] == "L":
            out.append(repr(x[1]))
        elif x[0] == "T":
            out.append("{" + show(x[1], 0, 12)[:W] + "}")
        else:
            out.append(f"{x[1]}[{x[3]}](" + show_flat(x[2], W) + ")")
    return " ".join(out)


def map_flat(f, fn):
    out = []
    for x in f:
        if x[0] == "L":
            out.append((x,))
        elif x[0] == "T":
            out.append(fn(x[1]))
        else:
            out.append((("H", x[1], map_flat(x[2], fn), x[3]),))
    return cat(*out)


# ------------------------------------------------------------------ events of a call tree
class TEv:
    """an event of a callee as seen from the entry: substituted arguments and accumulated facts"""
    __slots__ = ("ev", "args", "facts", "path", "ret", "sub")

    def __init__(self, ev, args, facts, path, ret, sub):
        self.ev, self.args, self.facts, self.path, self.ret, self.sub = ev, args, facts, path, ret, sub

    def where(self):
        return self.ev.where()


def chain(te):
    """call sites from the entry down to the event"""
    return te.path[-1][1] + ((te.ev.fn.id, te.ev.bb),)


def may_follow(q, a, b):
    """b can happen after a in one run of the entry both were seen from"""
    for (f, x), (g, y) in zip(chain(a), chain(b)):
        if (f, x) != (g, y):
            if f != g:
                return True
            succ = q.e.fninfo(q.p.fn(f))["succ"]
            seen, st = set(), list(succ[x])
            while st:
                z = st.pop()
                if z == y:
                    return True
                if z not in seen:
                    seen.add(z)
                    st += succ[z]
            return False
    return True


def tree(q, fn, want, depth=14, summary=None, skip=()):
    """all events satisfying want(ev) reachable from fn through inlined calls, with facts at entry scope"""
    e = q.e
    reach = {}

    def may(fid, seen):
        r = reach.get(fid)
        if r is not None:
            return r
        if fid in seen:
            return False
        seen.add(fid)
        g = e.p.fn(fid)
        s = e.summary(g) if g is not None else None
        r = False
        if s is not None:
            for ev in s.events:
                if want(ev):
                    r = True
                    break
                if any(may(c, seen) for c in children(ev)):
                    r = True
                    break
        reach[fid] = r
        return r

    def children(ev):
        out = []
        if ev.kind == "call":
            if ev.rid and ev.rid in e.p.fns and inl(ev.rid):
                out.append(ev.rid)
            if ev.name not in ("closure", "coroutine"):
                for a in ev.args:
                    if a.op == "closure" and a.a[0] in e.p.fns:
                        out.append(a.a[0])
        return out

    def inl(fid):
        g = e.p.fn(fid)
        if g is None or strip_generics(fid) in skip:
            return False
        return e.only is None or g.crate in e.only or g.derived or strip_generics(fid) in e.also

    def walk(s, sub, facts, path, d, ks=()):
        for ev in s.events:
            w = want(ev)
            kids = [c for c in children(ev) if may(c, set())] if d > 0 else []
            if not w and not kids:
                continue
            if sub is None:
                fs, args, ret = ev.facts, ev.args, ev.ret
            else:
                fs = facts
                for t, b in ev.facts:
                    fs = e.add_fact(fs, sub(t), b)
                    if fs is None:
                        break
                if fs is None:
                    continue
                args = tuple(sub(a) if isinstance(a, T) else a for a in ev.args)
                ret = sub(ev.ret) if ev.ret is not None else None
            if w:
                yield TEv(ev, args, fs, path, ret, sub)
            site = (path[-1][1] if path else ()) + ((ev.fn.id, ev.bb),)
            psite = ks + ((ev.fn.id, ev.bb) + ((ev.pkey,) if ev.pkey else ()),)
            for c in kids:
                if any(c == p[0] for p in path):
                    continue
                g = e.p.fn(c)
                cs = e.summary(g)
                if ev.rid == c:
                    am = {i + 1: a for i, a in enumerate(args)}
                else:
                    clo = next(a for a in args if a.op == "closure" and a.a[0] == c)
                    am = {1: clo}
                    for i in range(2, g.argc + 1):
                        am[i] = mk("carg", site, i)
                    if ev.name == "Iterator::for_each" and g.argc == 2:
                        # the closure is the body of a loop over the iterator
                        am[2] = proj(mk("icall", "Iterator::next", site, args[0]), ("v", "Some", "0"))
                yield from walk(cs, e.substituter(am, site, psite=psite), fs, path + ((c, site),), d - 1, psite)

    s = summary or e.summary(fn)
    yield from walk(s, None, None, ((fn.id, ()),), depth)
