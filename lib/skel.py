"""How a string is put together, as a structure: literals, terms, alternatives with their conditions, and loops.

skeleton(q, t, R) gives a tuple of segments
    ("L", text)  ("T", term)  ("ALT", ((cond, segs), ...))  ("LOOP", source, segs)
in a normal form that does not depend on whether the text was built by format!, write!, push_str, +, by helpers or by nested ifs:
literals are merged, what all alternatives start or end with is moved out of them, alternatives with the same text are merged, and the
conditions keep only what tells the alternatives apart.  A cond is a frozenset of (atom, truth) pairs; several conds of one alternative
are kept as a frozenset of conds."""
from term import *
from absint import replace
from q import flat


class Unknown(Exception):
    pass


class Skel:
    def __init__(self, q, stream=None):
        self.q, self.memo, self.apply = q, {}, stream

    # ------------------------------------------------------------------ structure
    def of(self, t, R=frozenset()):
        return norm(self.seq(t, frozenset(R), None, 0))

    def factor(self, alts):
        return factor(self, alts)

    def rounds(self, s):
        """[(facts, what is added)] when s is what was there before and more"""
        return [(frozenset(), s[1:])] if s and s[0] == ("STOP",) else None

    def seq(self, t, R, stop, depth):
        """segments of t; when stop is given, those after it (the value at the loop head)"""
        if depth > 80:
            raise Unknown("too deep")
        key = (t, stop)
        if key in self.memo:
            return self.memo[key]
        r = self.memo[key] = self._seq(t, R, stop, depth)
        return r

    def _seq(self, t, R, stop, depth):
        q = self.q
        if stop is not None and t in stop:
            return (("STOP",),)
        if t.op == "post" and t.a[1] == 0 and t.a[0] in APPEND:
            return self.seq(t.a[2], R, stop, depth + 1) + self.seq(t.a[3], R, None, depth + 1)
        if t.op == "phi":
            return self.phi(t, R, stop, depth)
        if t.op == "call" and len(t.a) == 2 and t.a[0].split("::")[-1] in ("freeze", "as_bytes", "into_bytes", "to_vec", "from", "into", "to_owned", "into_owned", "as_str", "copy_from_slice", "as_ref", "as_slice", "deref", "into_string", "to_string", "clone", "new_inline", "as_mut_str") or t.op == "call" and len(t.a) == 2 and t.a[0] == "SmolStr::new":
            return self.seq(t.a[1], R, stop, depth + 1)
        if t.op == "call" and t.a[0] in ("BytesMut::with_capacity", "BytesMut::new", "Bytes::new", "String::with_capacity", "String::new", "Vec::new", "Vec::with_capacity") and len(t.a) <= 2:
            return ()
        f = flat(t)
        if f == (("T", t),):
            j = self.joined(t, R, depth)
            if j is not None:
                return j
            return (("T", t),)
        out = ()
        for i, p in enumerate(f):
            out += (p,) if p[0] == "L" else self.seq(p[1], R, stop if i == 0 else None, depth + 1) if p[0] == "T" else (("T", t),)
        return out

    def group(self, ph):
        """the joined values of the same variable at the same loop head (one per known state of its flags)"""
        q, k = self.q, (self.q.site(ph), ph.a[1])
        out, seen, st = {ph}, set(), [ph]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi":
                if (q.site(x), x.a[1]) == k:
                    out.add(x)
                st += list(q.e.phi_inputs(x))
            elif x.op == "post" and x.a[0] in APPEND:
                st.append(x.a[2])
            else:
                st += [y for y in x.a if isinstance(y, T)][:1]
        return frozenset(out)

    def phi(self, ph, R, stop, depth):
        q = self.q
        ins = q.e.phi_inputs(ph)
        if not ins:
            return (("T", ph),)
        init, body = [], []
        G = self.group(ph) if q.is_head(q.site(ph)) else frozenset([ph])
        for g in sorted(G, key=lambda x: x.id):
            for x, fs in q.e.phi_inputs(g).items():
                if q.close(fs) is None:
                    continue
                if q.carried(x, g):
                    s = self.seq(x, R, G, depth + 1)
                    w = self.rounds(s)
                    if w is None:
                        return (("T", ph),)
                    body += [(frozenset(fs) | f, y) for f, y in w]
                else:
                    init.append((frozenset(fs), self.seq(x, R, stop, depth + 1)))
            for fs in q.e.phi_kept(g):
                if q.close(fs) is not None:
                    body.append((frozenset(fs), ()))
        if not init:
            return (("T", ph),)
        head = self.factor(init)
        if body:
            b = self.factor(body)
            src = self.source(ph, b, body)
            head += (("LOOP", src, b),)
        return head

    def source(self, ph, b, body):
        """the collection the loop ph is the head of runs over"""
        from rules._util import next_source, subterms
        q, site, other = self.q, self.q.site(ph), None
        for t in [f for fs, _ in body for f, tr in fs if f.op == "is"] + list(terms(b)):
            for z in subterms(t):
                if z.op in ("call", "icall") and z.a[0].split("::")[-1] == "next" and z.a[-1].op == "phi" and q.site(z.a[-1]) == site:
                    s = next_source(q, proj(z, ("v", "Some", "0")), frozenset())
                    if s is not None:
                        if isinstance(z.a[-1].a[1][0], tuple) and z.a[-1].a[1][0][0] == "IT" or s.op != "adt":
                            return s
                        other = s
        return other or mk("unk", "loop")

    def joined(self, t, R, depth):
        """items of an iterator joined with a separator"""
        if t.op in ("call", "icall") and t.a[0].split("::")[-1] in ("join", "concat", "collect") and self.apply is not None:
            a = t.a[1:] if t.op == "call" else t.a[2:]
            src = a[0]
            while src.op in ("call", "icall") and src.a[0] in ("Iterator::collect",):
                src = src.a[1] if src.op == "call" else src.a[2]
            sep = flat(a[1]) if len(a) > 1 else ()
            it = mk("bound", 7 + depth)
            base, items = self.apply(self.q, src, it)
            if items is None or base is src and t.a[0].split("::")[-1] == "collect":
                return None
            body = self.factor([(fs, self.seq(x, R, None, depth + 1)) for fs, x in items])
            if any(p[0] != "L" for p in sep):
                return None
            return (("JOIN", base, "".join(p[1] for p in sep), body),)
        return None


class Raw(Skel):
    """the same with every alternative kept apart, with all the facts it has"""

    def factor(self, alts):
        return (("ALT", tuple(alts)),)

    def rounds(self, s):
        if s and s[0] == ("STOP",):
            return [(frozenset(), s[1:])]
        if not s or s[0][0] != "ALT":
            return None
        out = []
        for c, x in s[0][1]:
            w = self.rounds(x)
            if w is None:
                return None
            out += [(frozenset(c) | f, y + s[1:]) for f, y in w]
        return out

    def ways(self, t, facts=frozenset(), lim=400):
        """[(facts, pieces)] with pieces ("L", text), ("T", term), ("LOOP", source, ways) and ("JOIN", source, separator, ways)"""
        return self.expand(self.seq(t, frozenset(), None, 0), frozenset(facts), lim)

    def expand(self, segs, facts, lim):
        out = [(facts, ())]
        for s in segs:
            if s[0] == "ALT":
                new = []
                for f, p in out:
                    for c, x in s[1]:
                        g = f | frozenset(c)
                        if self.q.close(g) is None:
                            continue
                        new += [(h, p + r) for h, r in self.expand(x, g, lim)]
                        if len(new) > lim:
                            raise Unknown("too many alternatives")
                out = new
            elif s[0] in ("LOOP", "JOIN"):
                b = self.expand(s[-1], frozenset(), lim)
                out = [(f, p + (s[:-1] + (tuple(b),),)) for f, p in out]
            else:
                out = [(f, p + (s,)) for f, p in out]
        return [(f, merge(p)) for f, p in out]


APPEND = {"String::push_str", "String::push", "Vec::extend_from_slice", "Vec::push", "Write::write_fmt", "fmt::write", "Write::write_str", "Write::write_char",
          "AddAssign::add_assign", "String::extend", "BytesMut::extend_from_slice", "BufMut::put_slice", "Extend::extend", "Formatter::write_str", "Formatter::write_fmt",
          "BytesMut::put_slice", "String::insert_str"} - {"String::insert_str"}


def terms(segs):
    for s in segs:
        if s[0] == "T":
            yield s[1]
        elif s[0] == "ALT":
            for _, x in s[1]:
                yield from terms(x)
        elif s[0] in ("LOOP", "JOIN"):
            yield from terms(s[-1])


def atom(f, b):
    """canonical (atom, truth) of a fact, or None when it says nothing of its own"""
    if f.op in ("or", "forall", "bool", "ovf"):
        return None
    if f.op == "is" and f.a[0].op in ("call", "icall") and f.a[0].a[0].split("::")[-1] == "next":
        return None                    # a loop goes on or is over
    if f.op == "is" and f.a[1] == "None":
        return is_(f.a[0], "Some"), not b
    if f.op == "is" and f.a[1] == "Err":
        return is_(f.a[0], "Ok"), not b
    if f.op == "bin" and f.a[0] == "Eq":
        z = mk("int", 0)
        for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
            if y is z and x.op == "call" and x.a[0] == "len":
                return mk("call", "is_empty", x.a[1]), b
            if y is mk("str", ""):
                return mk("call", "is_empty", x), b
    if f.op == "bin" and f.a[0] == "Lt" and f.a[1] is mk("int", 0) and f.a[2].op == "call" and f.a[2].a[0] == "len":
        return mk("call", "is_empty", f.a[2].a[1]), not b
    return f, b


def counts(q, t, facts):
    """the comparison says only whether a loop that counts an index goes on"""
    if t.op == "bin" and t.a[0] in ("Lt", "Le"):
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if x.op == "phi" and y.op == "call" and y.a[0] == "len":
                for u, _ in facts:
                    if u.op == "is" and u.a[0].op == "call" and u.a[0].a[0] == "Iterator::next" and u.a[0].a[-1].op == "phi":
                        it = u.a[0].a[-1]
                        if isinstance(it.a[1][0], tuple) and it.a[1][0][0] == "IT" and q.site(it) == q.site(x):
                            return True
    return False


ELSE = mk("unk", "else")


def factor(sk, alts):
    """one sequence for alternatives [(facts, segs)]"""
    alts = [(frozenset(fs), s) for fs, s in alts]
    if len(alts) == 1:
        return alts[0][1]
    pre = ()
    while all(s for _, s in alts) and all(s[0] == alts[0][1][0] for _, s in alts):
        pre += (alts[0][1][0],)
        alts = [(f, s[1:]) for f, s in alts]
    common = frozenset.intersection(*[f for f, _ in alts])
    cs = []
    for f, s in alts:
        c = frozenset(x for x in (atom(t, b) for t, b in f - common if not counts(sk.q, t, f)) if x is not None)
        cs.append((c, s, f))
    if all(s == cs[0][1] for _, s, _ in cs):
        return pre + cs[0][1]
    out = []
    for c, s, f in cs:
        if not c and all(not d or d is c or refuted(sk.q, f, d) for d, _, _ in cs):
            c = frozenset([(ELSE, True)])
        out.append((c, s))
    return pre + (("ALT", tuple(out)),)



def refuted(q, f, d):
    """the facts f and the condition d exclude each other"""
    from rules._util import holds
    h = frozenset(f)
    for t, b in d:
        h = q.e.add_fact(h, t, b)
        if h is None:
            return True
    return q.close(h) is None or holds(q, h, lambda k: False)


# ------------------------------------------------------------------ normal form
def merge(segs):
    out = []
    for s in segs:
        if s[0] == "L" and out and out[-1][0] == "L":
            out[-1] = ("L", out[-1][1] + s[1])
        elif not (s[0] == "L" and not s[1]):
            out.append(s)
    return tuple(out)


def norm(segs):
    out = []
    for s in segs:
        if s[0] == "ALT":
            out += norm_alt([(c if c and isinstance(next(iter(c)), frozenset) else frozenset([c]), norm(x)) for c, x in s[1]])
        elif s[0] in ("LOOP", "JOIN"):
            b = norm(s[-1])
            j = as_join(s, b)
            if j is not None:
                out.append(j)
            elif b:
                out.append(s[:-1] + (b,))
        else:
            out.append(s)
    return merge(out)


def as_join(s, b):
    """a loop that writes a separator before every item but the first"""
    if s[0] == "JOIN":
        return s[:-1] + (b,) if s[2] else ("LOOP", s[1], b)
    if len(b) >= 2 and b[0][0] == "ALT" and len(b[0][1]) == 2:
        (c0, x0), (c1, x1) = b[0][1]
        for c, x, y in ((c0, x0, x1), (c1, x1, x0)):
            if y == () and len(x) == 1 and x[0][0] == "L" and len(c) == 1:
                (a,) = c
                if any(first_test(f, tr) for f, tr in a):
                    return ("JOIN", s[1], x[0][1], b[1:])
    return None


def first_test(f, tr):
    """the condition says that this is not the first round (counted from 0)"""
    if f.op == "bin":
        if f.a[0] == "Lt" and f.a[1] is mk("int", 0) and tr:
            return counter(f.a[2])
        if f.a[0] == "Eq" and mk("int", 0) in f.a[1:] and not tr:
            return counter(f.a[2] if f.a[1] is mk("int", 0) else f.a[1])
        if f.a[0] == "Le" and f.a[1] is mk("int", 1) and tr:
            return counter(f.a[2])
    return False


def counter(t):
    return t.op == "field" and t.a[1] == "0" and t.a[0].op == "vf" and t.a[0].a[0].op in ("call", "icall") and t.a[0].a[0].a[0].split("::")[-1] == "next"


def norm_alt(cs):
    by = {}
    for c, x in cs:
        by[x] = by.get(x, frozenset()) | c
    if len(by) == 1:
        return list(next(iter(by)))
    xs = list(by)
    pre, suf = [], []
    while all(xs_ for xs_ in xs):
        h = [x[0] for x in xs]
        if all(y == h[0] for y in h):
            pre.append(h[0])
            xs = [x[1:] for x in xs]
            continue
        if all(y[0] == "L" for y in h):
            n = lcp([y[1] for y in h])
            if n:
                pre.append(("L", h[0][1][:n]))
                xs = [merge((("L", x[0][1][n:]),) + x[1:]) for x in xs]
                continue
        break
    while all(xs_ for xs_ in xs):
        h = [x[-1] for x in xs]
        if all(y == h[0] for y in h):
            suf.insert(0, h[0])
            xs = [x[:-1] for x in xs]
            continue
        if all(y[0] == "L" for y in h):
            n = lcp([y[1][::-1] for y in h])
            if n:
                suf.insert(0, ("L", h[0][1][len(h[0][1]) - n:]))
                xs = [merge(x[:-1] + (("L", x[-1][1][:len(x[-1][1]) - n]),)) for x in xs]
                continue
        break
    return pre + [("ALT", tuple(sorted(((c, x) for c, x in zip(by.values(), xs)), key=lambda y: show_segs(y[1]))))] + suf


def lcp(ss):
    n = 0
    for cs in zip(*ss):
        if len(set(cs)) > 1:
            break
        n += 1
    return n


def show_segs(segs, name=None):
    name = name or (lambda t: show(t, 0, 6))
    out = []
    for s in segs:
        if s[0] == "L":
            out.append(repr(s[1])[1:-1])
        elif s[0] == "T":
            out.append("{" + name(s[1]) + "}")
        elif s[0] == "ALT":
            out.append("(" + " | ".join(show_cond(c, name) + "? " + show_segs(x, name) for c, x in s[1]) + ")")
        elif s[0] == "LOOP":
            out.append("*[" + name(s[1]) + ": " + show_segs(s[2], name) + "]")
        elif s[0] == "JOIN":
            out.append("*[" + name(s[1]) + " by " + repr(s[2]) + ": " + show_segs(s[3], name) + "]")
        else:
            out.append(str(s))
    return "".join(out)


def show_cond(c, name):
    if c and not isinstance(next(iter(c)), frozenset):
        c = frozenset([c])
    return " or ".join(sorted(" & ".join(sorted(("" if b else "!") + name(f) for f, b in x)) or "always" for x in c))


class Canon:
    """the structure as text, with the names given for the arguments; elements of a collection x are x[]"""

    def __init__(self, q, args, conv=None, opts=None):
        self.q, self.args, self.conv, self.bound = q, args, conv or (lambda t: t), {}

    def term(self, t):
        from rules._util import next_source
        t = self.conv(t)
        if t.op == "arg":
            return self.args.get(t.a[0], show(t))
        if t.op == "bound":
            return self.bound.get(t, show(t))
        if t.op == "vf" and t.a[1] == "Some":
            s = next_source(self.q, t, frozenset())
            if s is not None:
                return self.coll(s) + "[]"
            return self.term(t.a[0])
        if t.op == "vf":
            return self.term(t.a[0]) + "." + t.a[1] + ("" if t.a[2] == "0" else "." + t.a[2])
        if t.op == "field":
            if t.a[1] == "1":
                x = t.a[0]
                if x.op == "vf" and x.a[1] == "Some":
                    s = next_source(self.q, x, frozenset())
                    if s is not None and s.op in ("call", "icall") and s.a[0] == "Iterator::enumerate":
                        return self.coll(s) + "[]"
            return self.term(t.a[0]) + "." + t.a[1]
        if t.op in ("call", "icall"):
            a = t.a[1:] if t.op == "call" else t.a[2:]
            return t.a[0].split("::")[-1] + "(" + ", ".join(self.term(x) for x in a) + ")"
        if t.op == "bin":
            x, y = self.term(t.a[1]), self.term(t.a[2])
            if t.a[0] == "Eq" and (t.a[1].op in ("str", "int", "char") or t.a[2].op not in ("str", "int", "char") and y < x):
                x, y = y, x
            return x + {"Eq": " == ", "Lt": " < ", "Le": " <= "}.get(t.a[0], " " + t.a[0] + " ") + y
        if t.op == "is":
            return self.term(t.a[0]) + ("" if t.a[1] == "Some" else " is " + t.a[1])
        if t.op == "str":
            return repr(t.a[0])
        if t.op in ("int", "bool"):
            return str(t.a[0])
        return show(t, 0, 6)

    def coll(self, s):
        while s.op in ("call", "icall") and s.a[0] in ("Iterator::enumerate", "iter", "IntoIterator::into_iter", "slice::iter", "Vec::iter", "HashMap::iter", "BTreeMap::iter", "Iterator::skip"[:0]):
            s = s.a[1] if s.op == "call" else s.a[2]
        return self.term(s)

    def cond(self, c):
        if any(t is ELSE for x in c for t in (x if isinstance(x, frozenset) else [x[0]]) if not isinstance(t, tuple)) or any(y[0] is ELSE for x in c if isinstance(x, frozenset) for y in x):
            return "else"
        if c and not isinstance(next(iter(c)), frozenset):
            c = frozenset([c])
        return " or ".join(sorted(" & ".join(sorted(("" if b else "!") + self.term(f) for f, b in x)) or "always" for x in c))

    def text(self, segs):
        out = []
        for s in segs:
            if s[0] == "L":
                out.append(s[1])
            elif s[0] == "T":
                out.append("{" + self.term(s[1]) + "}")
            elif s[0] == "ALT":
                alts = [(self.cond(c), self.text(x)) for c, x in s[1]]
                if len(alts) == 2 and "else" in [a[0] for a in alts]:
                    (c0, x0), (c1, x1) = sorted(alts, key=lambda a: a[0] == "else")
                    out.append("(" + c0 + "? " + x0 + (" | " + x1 if x1 else "") + ")")
                elif len(alts) == 2 and {a[0] for a in alts} in ({c, "!" + c} for c, _ in alts):
                    (c0, x0), (c1, x1) = sorted(alts, key=lambda a: a[0].startswith("!"))
                    out.append("(" + c0 + "? " + x0 + (" | " + x1 if x1 else "") + ")")
                else:
                    out.append("(" + " | ".join(c + "? " + x for c, x in sorted(alts)) + ")")
            elif s[0] == "LOOP":
                out.append("*[" + self.name_loop(s[1], s[2]) + "]")
            elif s[0] == "JOIN":
                out.append("*[" + self.name_loop(s[1], s[3]) + " by " + repr(s[2]) + "]")
            else:
                out.append(str(s))
        return "".join(out)

    def name_loop(self, src, body):
        for t in terms(body):
            from rules._util import subterms
            for z in subterms(t):
                if z.op == "bound" and z not in self.bound:
                    self.bound[z] = self.coll(src) + "[]"
        return self.coll(src) + ": " + self.text(body)
