"""Parser expressions built from combinators, read as a grammar.

A parser term (tag, take_till, tuple, map, alt, ...) becomes a list of alternatives (segments, value, facts): what the text looks like, and
the value that is made of its captures.  Captures are terms cap(n); a segment is one of

    ("lit", text)  ("till", charset, cap)  ("while", charset, cap)  ("digits", cap)  ("space",)  ("eol",)  ("rest", cap)
    ("list", separator alternatives, item alternatives, cap)  ("many", item alternatives, cap)
"""
from term import mk, proj, Some, NoneT
from q import remk
from rules._util import apply_fn, join_facts, short_name


class Unknown(Exception):
    pass


BLANK = {"space1": 1, "multispace1": 1, "space0": 0, "multispace0": 0}


def put(t, env):
    """t with terms replaced, evaluated again"""
    memo = dict(env)

    def rec(z):
        r = memo.get(z)
        if r is None:
            r = memo[z] = remk(z, rec)
        return r
    return rec(t)






def keeps(path):
    """a function outside the crates that gives the text it is given"""
    return path.split("::")[-1] in ("new", "from", "into", "to_string", "to_owned", "clone") and any(x in path for x in ("SmolStr", "String", "From", "Into", "ToOwned", "Clone", "str>"))


class Gram:
    def __init__(self, q):
        self.q, self.n = q, 0

    def cap(self):
        self.n += 1
        return mk("cap", self.n)

    # -------------------------------------------------------------- functions
    def function(self, name):
        """the alternatives of a parser function: what it returns when it returns Ok"""
        g = self.q.p.fn(name)
        if g is None:
            raise Unknown("no body for " + name)
        out = []
        for o in self.q.e.summary(g).outcomes:
            r = o.ret
            ap = self.applied(r)
            if ap is not None:
                out += self.chain(ap[0], ap[1])
            elif r.op == "adt" and r.a[1] == "Err":
                continue
            elif r.op == "adt" and r.a[1] == "Ok":
                out += self.steps(proj(r, ("v", "Ok", "0")), o.facts)
            else:
                raise Unknown("returns " + r.op)
        return out

    def applied(self, t):
        if t.op in ("call", "icall") and short_name(t).split("::")[-1] == "apply" and len(t.a) == 3:
            return t.a[1], t.a[2]
        if t.op == "call" and "complete::" in t.a[0] and len(t.a) == 2:
            return mk("fn", t.a[0]), t.a[1]
        return None

    def result_of(self, t):
        """t is a part of what a parser left or made: (apply term, path)"""
        path, x = [], t
        while x.op in ("field", "vf"):
            if x.op == "vf" and x.a[1] == "Ok" and self.applied(x.a[0]) is not None:
                return x.a[0], path[::-1]
            path.append(("f", x.a[1]) if x.op == "field" else ("v", x.a[1], x.a[2]))
            x = x.a[0]
        return None

    def chain(self, p, base):
        """p applied to what earlier parsers left"""
        r = self.result_of(base)
        if r is None:
            if base is not mk("arg", 1) and base.op not in ("arg", "cap", "sym"):
                raise Unknown("applied to " + base.op)
            return self.parser(p)
        if r[1] != [("f", "0")]:
            raise Unknown("applied to a part of a result")
        a = self.applied(r[0])
        return [(s1 + s2, v2, f) for s1, _, f1 in self.chain(*a) for s2, v2, f2 in self.parser(p) for f in [join_facts(self.q, f1, f2)] if f is not None]

    def steps(self, pair, facts):
        rest, value = proj(pair, ("f", "0")), proj(pair, ("f", "1"))
        order, x = [], rest
        while True:
            r = self.result_of(x)
            if r is None:
                break
            if r[1] != [("f", "0")]:
                raise Unknown("the rest is a part of a result")
            order.append(r[0])
            x = self.applied(r[0])[1]
        if not order:
            raise Unknown("no parser applied")
        ways = [((), {}, frozenset())]
        for ap in order[::-1]:
            nxt = []
            for s, env, f in ways:
                for s2, v2, f2 in self.parser(self.applied(ap)[0]):
                    j = join_facts(self.q, f, f2)
                    if j is not None:
                        nxt.append((s + s2, {**env, ap: v2}, j))
            ways = nxt
        return [(s, put(value, {proj(proj(ap, ("v", "Ok", "0")), ("f", "1")): v for ap, v in env.items()}), f) for s, env, f in ways]

    # -------------------------------------------------------------- combinators
    def parser(self, p):
        q = self.q
        if p.op == "fn":
            n = p.a[0].split("::")[-1]
            if q.p.fn(p.a[0]) is not None:
                return self.function(p.a[0])
            if n == "digit1":
                c = self.cap()
                return [((("digits", c),), c, frozenset())]
            if n in BLANK:
                return [((("space", BLANK[n]),), mk("unit"), frozenset())]
            if n in ("line_ending", "crlf"):
                return [((("eol",),), mk("unit"), frozenset())]
            if n in ("rest", "not_line_ending"):
                c = self.cap()
                return [(((n, c),), c, frozenset())]
            if n in ("u8", "u16", "u32", "u64"):
                c = self.cap()
                return [((("digits", c),), mk("call", "parse:" + n, c), frozenset())]
            raise Unknown("parser " + n)
        if p.op == "closure" and q.p.fn(p.a[0]) is not None:
            raise Unknown("parser closure")
        if p.op == "tuple":
            return self.seq(p.a)
        if p.op not in ("call", "icall"):
            raise Unknown("parser " + p.op)
        n, a = short_name(p).split("::")[-1], p.a[1:]
        if n in ("tag", "char", "tag_no_case"):
            c = self.cap()
            t = a[0].a[0] if a[0].op == "str" else chr(a[0].a[0]) if a[0].op == "char" else None
            if t is None:
                raise Unknown(n + " of " + a[0].op)
            return [((("lit" if n != "tag_no_case" else "nocase", t),), mk("str", t), frozenset())]
        if n in ("take_till", "take_till1", "take_while", "take_while1", "is_not"):
            c = self.cap()
            cs = q.P.predset(a[0], True) if n != "is_not" else None
            if cs is None:
                raise Unknown(n + " of an unknown predicate")
            return [(((n, tuple(cs.r), c),), c, frozenset())]
        if n == "tuple":
            return self.seq(a[0].a if a[0].op == "tuple" else a)
        if n == "pair":
            return self.seq(a)
        if n in ("preceded", "terminated", "delimited", "separated_pair"):
            w = {"preceded": (None, "v"), "terminated": ("v", None), "delimited": (None, "v", None), "separated_pair": ("v", None, "v")}[n]
            out = []
            for s, v, f in self.seq(a):
                keep = [proj(v, ("f", str(i))) for i, x in enumerate(w) if x]
                out.append((s, keep[0] if len(keep) == 1 else mk("tuple", *keep), f))
            return out
        if n == "map":
            return [(s, v2, f2) for s, v, f in self.parser(a[0]) for f2, v2 in self.made(a[1], v, f)]
        if n in ("map_res", "map_opt"):
            return [(s, proj(v2, ("v", "Ok" if n == "map_res" else "Some", "0")), f2) for s, v, f in self.parser(a[0]) for f2, v2 in self.made(a[1], v, f)
                    if not (v2.op == "adt" and v2.a[1] in ("Err", "None"))]
        if n == "value":
            return [(s, a[0], f) for s, v, f in self.parser(a[1])]
        if n == "alt":
            xs = a[0].a if a[0].op in ("tuple", "array") else a
            return [w for x in xs for w in self.parser(x)]
        if n == "opt":
            return [(s, Some(v), f) for s, v, f in self.parser(a[0])] + [((), NoneT, frozenset())]
        if n in ("recognize", "complete", "cut", "all_consuming"):
            return self.parser(a[0]) if n != "recognize" else self.unknown(n)
        if n in ("separated_list0", "separated_list1"):
            c = self.cap()
            return [(((n, self.parser(a[0]), self.parser(a[1]), c),), c, frozenset())]
        if n in ("many0", "many1"):
            c = self.cap()
            return [(((n, None, self.parser(a[0]), c),), c, frozenset())]
        raise Unknown("parser " + n)

    def unknown(self, n):
        raise Unknown("parser " + n)

    def seq(self, ps):
        ways = [((), (), frozenset())]
        for p in ps:
            nxt = []
            r = None
            for s, vs, f in ways:
                for s2, v2, f2 in self.parser(p):
                    j = join_facts(self.q, f, f2)
                    if j is not None:
                        nxt.append((s + s2, vs + (v2,), j))
            ways = nxt
        return [(s, mk("tuple", *vs), f) for s, vs, f in ways]

    def made(self, f, v, facts):
        """[(facts, value)] of the mapping function f applied to v"""
        if f.op == "fn" and self.q.p.fn(f.a[0]) is None:
            return [(facts, v if keeps(f.a[0]) else mk("made", f.a[0], v))]
        rs = apply_fn(self.q, f, [v], heads=False)
        if rs is None:
            raise Unknown("mapping function")
        return [(j, x) for g, x in rs for j in [join_facts(self.q, facts, g)] if j is not None]
