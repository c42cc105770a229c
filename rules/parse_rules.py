"""SIP message parsing and serialisation (sip-parse)."""
from rules._util import *
from term import Int
from rules.identity_rules import conv
from rules.limit_rules import cargs, states, swap, verdicts

CR = "sip_parse"
PARSERS = (("parse_request", 0), ("parse_request_with_limit", 0), ("parse_response", 0),
           ("parse_request_strict", 1), ("parse_request_with_limit_strict", 1), ("parse_response_strict", 1))
SINGLE = ("Call-ID", "CSeq", "From", "To", "Max-Forwards")


def short(t):
    return t.a[0].split("::")[-1] if t.op in ("call", "icall") else ""


class Msg:
    """a way a parser returns a message: Request::new(RequestLine::new(method, uri), headers, body) or
    Response::new(status line, headers, body), which must have succeeded"""

    def __init__(self, fn, name, strict, call, g):
        self.fn, self.name, self.strict, self.g, self.w = fn, name, strict, g, where(fn)
        self.request = call.a[0].split("::")[-2:][0] == "Request"
        self.line, self.headers, self.body = call.a[1:4]
        self.raw = mk("arg", 1)


def messages(ctx, q):
    n = 0
    for name, strict in PARSERS:
        fn = q.one("sip_parse::" + name, CR)
        if fn is None:
            continue
        got = False
        for o in q.e.summary(fn).outcomes:
            for v, fs in leaves(q, o.ret, o.facts):
                g = q.close(fs)
                if g is None or is_const_none(v):
                    continue
                m = None
                if v.op == "adt" and v.a[1] == "Some":
                    m = v.a[3]
                    while m.op in ("vf", "call") and (m.op == "vf" or len(m.a) == 2):
                        m = m.a[0] if m.op == "vf" else m.a[1]
                if ctx.check(m is not None and m.op == "call" and m.a[0] in ("Request::new", "Response::new") and len(m.a) == 4, f"{name}:result", where(fn),
                             "the parser returns a message that was not put together by Request::new or Response::new"):
                    got = True
                    n += 1
                    yield Msg(fn, name, strict, m, g)
        ctx.check(got, f"{name}:none", where(fn), f"no run of {name} was found that returns a message")
    ctx.count("ways to return a message", n)
    ctx.floor("ways to return a message", 6)


def is_const_none(v):
    return v.op == "adt" and v.a[1] == "None"


# ------------------------------------------------------------------ loops: one iteration after the other
def items_of(q, facts, site=None, init=()):
    """(iterator phi, item) of the iterations that the facts speak of; the iterator itself in the first one"""
    for t, b in facts:
        if b and t.op == "is" and t.a[1] == "Some" and t.a[0].op in ("call", "icall") and t.a[0].a[0] == "Iterator::next":
            ph = t.a[0].a[-1]
            if ph in init or ph.op == "phi" and q.is_head(q.site(ph)) and (site is None or q.site(ph) == site):
                yield ph, proj(t.a[0], ("v", "Some", "0"))


def started(q, ph):
    """what the iterator of the loop is before its first iteration"""
    out, seen, work = set(), set(), [ph]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            work += list(q.e.phi_inputs(x))
        elif x.op in ("post", "ipost") and x.a[0] == "Iterator::next" and carries(q, x, q.site(ph)):
            work.append(x.a[2] if x.op == "post" else x.a[3])
        elif x.op in ("post", "ipost") and x.a[0] == "Iterator::next":
            # a first iteration before the loop proper (its state differs)
            out |= {x, x.a[2] if x.op == "post" else x.a[3]}
        else:
            out.add(x)
    return out


def carries(q, x, site):
    return any(y.op == "phi" and q.site(y) == site for y in deep_subterms(q, x))


def transitions(q, ph):
    """(iterator phi of the state the iteration started in, its item or None, facts, new value) of every iteration that leads to
    the loop head phi ph"""
    site = q.site(ph)
    init = started(q, ph)
    for x, fs in q.e.phi_edges(ph):
        def parts(d):
            if any(True for _ in items_of(q, d, site, init)):
                return [frozenset(d)]
            for t, b in sorted(d, key=lambda z: z[0].id):
                if b and t.op == "or":
                    w = [parts(frozenset(e)) for e in t.a]
                    if all(w):
                        return [frozenset(d) | y for z in w for y in z]
            return None
        ways = parts(fs) or [fs]
        for w in ways:
            c = q.close(w)
            if c is None:
                continue
            its = sorted(items_of(q, w, site, init), key=lambda z: (z[0] in init, z[0].id))
            yield (its[0] + (c, x)) if its else (None, None, c, x)


# ------------------------------------------------------------------ P01: framing
def is_position(q, t, raw, lit):
    """t is the position of the first occurrence of the bytes lit in raw"""
    if t.op == "vf" and t.a[1] == "Some":
        t = t.a[0]
    if t.op not in ("call", "icall") or t.a[0] != "Iterator::position":
        return False
    c, clo = (t.a[1:] if t.op == "call" else t.a[2:])[:2]
    if not (c.op == "call" and short(c) == "windows" and conv(c.a[1]) is raw and c.a[2] is mk("int", len(lit))):
        return False
    it = mk("bound", 0)
    for want in (True, False):
        cs = closure_cases(q, clo, [it], want)
        if cs is None or not all(any(bytes_eq(f, it, lit) and b == want for f, b in d) for d in cs) or not cs:
            return False
    return True


def bytes_eq(f, x, lit):
    if f.op == "bin" and f.a[0] == "Eq":
        for u, v in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
            if conv(u) is x and lit_bytes(v) == lit:
                return True
    return False


def lit_bytes(v):
    if v.op == "bytes":
        return tuple(v.a[0])
    if v.op == "str":
        return tuple(v.a[0].encode())
    if v.op == "array" and v.a and all(isinstance(x, T) and x.op == "int" for x in v.a):
        return tuple(x.a[0] for x in v.a)
    return None


BLANK = (13, 10, 13, 10)


def rest_of(q, t, raw, facts):
    """'rest' when t is everything after the first blank line, 'none' when it is empty and there is no blank line"""
    if t.op == "call" and t.a[0] == "slice" and t.a[1] is raw:
        lo, hi = t.a[2], t.a[3]
        if hi.op == "none" and lo.op == "bin" and lo.a[0] == "Add":
            for p, k in ((lo.a[1], lo.a[2]), (lo.a[2], lo.a[1])):
                if k is mk("int", 4) and is_position(q, p, raw, BLANK):
                    return "rest"
    if t.op in ("array", "list") and not t.a or t.op == "bytes" and not t.a[0] or t.op == "str" and not t.a[0] or t.op == "call" and len(t.a) == 1 and short(t) in ("new", "default"):
        if holds(q, facts, lambda k: any(f.op == "is" and f.a[1] == "None" and b and is_position(q, f.a[0], raw, BLANK) for f, b in k)):
            return "none"
    return None


def cl_values(t, H):
    """t enumerates the Content-Length values of H"""
    t = iter_base(t)
    while t.op in ("call", "icall") and t.a[0] == "Iterator::collect":
        t = iter_base(t.a[1] if t.op == "call" else t.a[2])
    return t.op == "call" and short(t) in ("get_all_smol", "get_all") and t.a[1] is H and t.a[2].op == "str" and t.a[2].a[0].lower() == "content-length"


def number_of(t, v=None):
    """the text whose decimal value t is"""
    t = conv(t)
    while t.op == "cast" or t.op == "call" and t.a[0].startswith("cast:"):
        t = t.a[1]
    if t.op == "vf" and t.a[1] == "Ok":
        t = t.a[0]
    if t.op == "call" and t.a[0].split(":")[0] == "parse" and len(t.a) == 2:
        x = t.a[1]
        while x.op == "call" and short(x) in ("trim", "as_str", "trim_matches") and len(x.a) == 2:
            x = x.a[1]
        return x
    return None


def first_of(q, t, H, facts):
    """t is the first Content-Length value, and the facts say it is the only one"""
    if t.op == "idx" and t.a[1] is mk("int", 0) and cl_values(t.a[0], H):
        ln = mk("call", "len", t.a[0])
        return any(b and f.op == "bin" and f.a[0] == "Eq" and {f.a[1], f.a[2]} == {ln, mk("int", 1)} for f, b in facts)
    return False


def value_err(v, facts):
    return any(b and f.op == "is" and f.a[1] == "Err" and number_of(f.a[0]) is v or not b and f.op == "is" and f.a[1] == "Ok" and number_of(f.a[0]) is v for f, b in facts)


def same_number(q, v, n, facts):
    """the facts say that v is a number and equal to n"""
    if number_of(n) is v:
        return True
    for f, b in facts:
        if b and f.op == "bin" and f.a[0] == "Eq":
            for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                if y is n and number_of(x) is v:
                    return True
    return False


def all_values(q, H, n, facts, strict, none):
    """every Content-Length value of H is the number n or (unless strict) no number; with none: is no number at all"""
    def P(v, k):
        return not strict and value_err(v, k) or not none and same_number(q, v, n, k)

    def one(k):
        for f, b in k:
            # none at all
            if b and f.op == "bin" and f.a[0] == "Eq" and mk("int", 0) in f.a[1:]:
                x = f.a[1] if f.a[2] is mk("int", 0) else f.a[2]
                if x.op == "call" and x.a[0] == "len" and cl_values(x.a[1], H):
                    return True
            if b and f.op == "is" and f.a[1] == "None":
                x = f.a[0]
                if x.op in ("call", "icall") and x.a[0] == "Iterator::next" and cl_values(x.a[-1], H):
                    return True
                if x.op in ("call", "icall") and x.a[0] in ("Iterator::next", "slice::first", "Vec::first") and cl_values(x.a[-1], H):
                    return True
            # a single one
            if b and f.op == "bin" and f.a[0] == "Eq" and mk("int", 1) in f.a[1:]:
                x = f.a[1] if f.a[2] is mk("int", 1) else f.a[2]
                if x.op == "call" and x.a[0] == "len" and cl_values(x.a[1], H) and P(mk("idx", x.a[1], mk("int", 0)), k):
                    return True
        # a statement about every one of them
        for coll, cases, it in each(q, k):
            if cl_values(coll, H) and all(P(it, frozenset(k) | d) for d in cases):
                return True
        # a loop over all of them
        for f, b in k:
            if b and f.op == "is" and f.a[1] == "None" and f.a[0].op in ("call", "icall") and f.a[0].a[0] == "Iterator::next":
                ph = f.a[0].a[-1]
                if ph.op == "phi" and q.is_head(q.site(ph)) and loop_values(q, ph, H, n, strict, none):
                    return True
        return False
    return holds(q, facts, one)


def loop_values(q, ph, H, n, strict, none):
    if not all(cl_values(s.a[2] if s.op == "post" else s, H) for s in started(q, ph)):
        return False
    if not none and n.op == "phi" and q.site(n) != q.site(ph):
        return False
    # the values n starts with: the number of the item of that very iteration
    seen, work = set(), [ph]
    while work:
        p = work.pop()
        if p in seen:
            continue
        seen.add(p)
        for src, item, facts, _ in transitions(q, p):
            if src is None:
                return False
            if src is not p and src not in seen:
                work.append(src)
            if not strict and value_err(item, facts):
                if not none and p is ph or src is p:
                    continue
                return False
            if none or p is not ph:
                return False
            if src is ph:
                if not same_number(q, item, n, facts):
                    return False
            elif not any(number_of(x) is item for x in flows(q, n)):
                return False
    if not none:
        items = [i for p in seen for _, i, _, _ in transitions(q, p)]
        for x in flows(q, n):
            if not any(number_of(x) is i for i in items):
                return False
    return True


def flows(q, ph):
    """the values that reach the loop variable ph from outside of it"""
    seen, work, out = set(), [ph], []
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            work += sorted(q.e.phi_inputs(x), key=lambda z: z.id)
        else:
            out.append(x)
    return out


def p01(ctx):
    q = Q(ctx, only={CR})
    ctx.rule("every way one of the six message parsers returns a message: its body is a prefix of what follows the first blank line (CR LF CR LF) of the datagram (empty without one), of length n <= what is there; lenient parsers: every Content-Length value of the returned headers is n or no number, and without a number n is all there is; strict parsers: every value is n and n is all there is, or there is no value and nothing follows.")
    for m in messages(ctx, q):
        k = 0
        for (B, g) in states(q, m.body, m.g):
            while B.op == "call" and short(B) in ("copy_from_slice", "to_vec", "from", "into", "slice_ref") and len(B.a) == 2:
                B = B.a[1]
            k += 1
            X, n = B, None
            if B.op == "call" and B.a[0] == "slice" and rest_of(q, B, m.raw, g) is None and B.a[2].op in ("none", "int") and (B.a[2].op == "none" or B.a[2].a[0] == 0):
                X, n = B.a[1], B.a[3]
            r = rest_of(q, X, m.raw, g)
            if r is None and (X.op in ("array", "bytes", "str") and not (X.a and X.a[0]) or X.op == "call" and len(X.a) == 1 and short(X) in ("new", "default")):
                # nothing of what follows
                rests = {x for f, _ in g for x in deep_subterms(q, f) if x.op == "call" and x.a[0] == "slice" and x.a[1] is m.raw and rest_of(q, x, m.raw, g) == "rest"}
                pos = {x for f, _ in g for x in deep_subterms(q, f) if is_position(q, x, m.raw, BLANK)}
                rests |= {mk("call", "slice", m.raw, binop("Add", proj(x, ("v", "Some", "0")) if x.op != "vf" else x, Int(4)), mk("none")) for x in pos}
                X, n = next((x for x in sorted(rests, key=lambda x: x.id) if rest_of(q, x, m.raw, g) == "rest"), X), Int(0)
                r = rest_of(q, X, m.raw, g)
                for f, b in sorted(g, key=lambda z: z[0].id):
                    if b and f.op == "bin" and f.a[0] == "Eq" and f.a[2] is Int(0) and f.a[1].op == "call" and f.a[1].a[0] == "len" and all(rest_of(q, y, m.raw, k) for y, k in states(q, f.a[1].a[1], g)):
                        X, r = f.a[1].a[1], "rest"
            if not ctx.check(r is not None, f"{m.name}:what", m.w, "the body of a parsed message is not the beginning of what follows the first blank line of the datagram"):
                continue
            avail = mk("int", 0) if r == "none" else simp_call("len", (X,))
            if n is None or n.op == "none":
                n = avail
            for z, h in states(q, n, g):
                full = z is avail or z is simp_call("len", (X,)) or z is Int(0) and holds(q, h, lambda k: empty(X, k))
                if not full:
                    ctx.check(q.P.le(z, avail, h, 0) or q.P.le(z, simp_call("len", (X,)), h, 0), f"{m.name}:short", m.w, "a message can be returned although its body is shorter than declared")
                if m.strict:
                    a = full and all_eq_avail(q, m.headers, avail, X, h)
                    ctx.check(a, f"{m.name}:strict", m.w, "a strict parser can return a message whose Content-Length does not say exactly how many bytes follow (or is missing although bytes follow)")
                elif full:
                    ctx.check(all_values(q, m.headers, z, h, False, True) or all_values(q, m.headers, z, h, False, False), f"{m.name}:ignored", m.w, "a message can be returned with everything that follows as its body although a Content-Length value was given")
                else:
                    ctx.check(all(number_of(x) is not None for x in flows(q, z)) and all_values(q, m.headers, z, h, False, False), f"{m.name}:differ", m.w, "a message can be returned although one of its Content-Length values is not the length of the body")
        ctx.count("bodies analysed", k)
    ctx.floor("bodies analysed", 6)


def all_eq_avail(q, H, avail, X, facts):
    """there are Content-Length values and each is the number of bytes available, or there are none of both"""
    ln = {avail, simp_call("len", (X,))}

    def nothing(k):
        return all_values(q, H, avail, k, True, True) and (any(z is Int(0) or q.P.le(z, Int(0), k, 0) for z in ln) or empty(X, k))

    for f, b in sorted(facts, key=lambda z: z[0].id):
        if b and f.op == "bin" and f.a[0] == "Eq":
            for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                if x in ln and all(all_values(q, H, z, h, True, False) or (z is Int(0) or empty(X, h)) and all_values(q, H, z, h, True, True)
                                   for z, h in states(q, y, facts)):
                    return True
    return holds(q, facts, nothing)


def empty(X, k):
    return any(b and f.op == "bin" and f.a[0] == "Eq" and mk("int", 0) in f.a[1:] and (mk("call", "len", X) in f.a[1:] or simp_call("len", (X,)) in f.a[1:]) for f, b in k)


# ------------------------------------------------------------------ P02: headers that may appear once, CSeq
def at_most_once(q, H, name, facts):
    def same(x, n):
        return x is n or x.op == n.op == "str" and x.a[0].lower() == n.a[0].lower()

    def gets(t, n):
        t = iter_base(t)
        return t.op == "call" and short(t) in ("get_all", "get_all_smol") and t.a[1] is H and same(t.a[2], n)

    def seconds(f, b, n):
        """the fact says that there is no second (or no first) header of that name"""
        if f.op != "is" or (f.a[1] == "None") != b or f.a[0].op not in ("call", "icall"):
            return False
        t = f.a[0]
        if t.a[0] == "Iterator::nth" and t.a[-1] is Int(1):
            return gets(t.a[-2], n)
        if t.a[0] == "Iterator::next":
            x = t.a[-1]
            if x.op in ("call", "icall") and short(x) == "skip" and x.a[-1] is Int(1):
                return gets(x.a[-2], n)
            if x.op == "post" and x.a[0] == "Iterator::next":
                x = x.a[2]
            return gets(x, n)
        return t.op == "call" and short(t) in ("get", "get_smol") and t.a[1] is H and same(t.a[2], n)

    def one(k):
        for f, b in k:
            if f.op == "bin":
                for c in f.a[1:]:
                    if c.op == "call" and short(c) == "count" and c.a[1] is H and c.a[2].op == "str" and c.a[2].a[0].lower() == name.lower() and q.P.le(c, Int(1), k, 0):
                        return True
                    if c.op in ("call", "icall") and c.a[0] == "Iterator::count" and gets(c.a[-1], mk("str", name)) and q.P.le(c, Int(1), k, 0):
                        return True
            if seconds(f, b, mk("str", name)):
                return True
        for coll, cases, it in each(q, k):
            if coll.op == "array" and any(x.op == "str" and x.a[0].lower() == name.lower() for x in coll.a):
                c = mk("call", "Headers::count", H, it)
                if cases and all(q.P.le(c, Int(1), frozenset(k) | d, 0) or any(seconds(f, b, it) or f.op == "bin" and any(x.op in ("call", "icall") and x.a[0] == "Iterator::count" and gets(x.a[-1], it) and q.P.le(x, Int(1), frozenset(k) | d, 0) for x in f.a[1:]) for f, b in d) for d in cases):
                    return True
        return False
    return holds(q, facts, one)


def cseq_value(t, H):
    if t.op == "vf" and t.a[1] == "Some":
        t = t.a[0]
    h = hdr_get(t)
    return h is not None and h[0] is H and h[1].op == "str" and h[1].a[0].lower() == "cseq"


def token(q, t, i, H):
    """t is the i-th blank-separated token of the CSeq value"""
    t = conv(t)
    if t.op == "idx" and t.a[1] is Int(i):
        b = t.a[0]
        while b.op in ("call", "icall") and b.a[0] == "Iterator::collect":
            b = b.a[1] if b.op == "call" else b.a[2]
        n, t = 0, b
    elif t.op == "vf" and t.a[1] == "Some" and t.a[0].op in ("call", "icall") and t.a[0].a[0] == "Iterator::next":
        n, t = 0, t.a[0].a[-1]
        while t.op == "post" and t.a[0] == "Iterator::next":
            n, t = n + 1, t.a[2]
        if n != i:
            return False
    else:
        return False
    return t.op == "call" and short(t) in ("split_whitespace", "split_ascii_whitespace") and cseq_value(conv(t.a[1]), H)


def digits_only(q, N, k):
    for coll, cases, it in each(q, k):
        c = coll
        while c.op == "call" and short(c) in ("bytes", "chars", "as_bytes") and len(c.a) == 2:
            c = c.a[1]
        if c is N and coll is not N and cases and all(any(b and digit(f, it) for f, b in d) or in_range(q, it, d) for d in cases):
            return True
    return False


def digit(f, it):
    return f.op == "call" and short(f) == "is_ascii_digit" and it in f.a


def in_range(q, it, d):
    lo = hi = False
    for f, b in d:
        if f.op == "bin":
            lo |= f.a[0] == "Le" and b and f.a[1].op in ("int", "char") and f.a[1].a[0] == 48 and f.a[2] is it
            hi |= f.a[0] == "Le" and b and f.a[2].op in ("int", "char") and f.a[2].a[0] == 57 and f.a[1] is it
    return lo and hi


def cseq_ok(q, m, facts):
    method = None
    if m.request:
        method = m.line.a[1] if m.line.op == "call" and m.line.a[0] == "RequestLine::new" else F(m.line, "method")

    def one(k):
        # no CSeq at all
        if any(b and f.op == "is" and f.a[1] == "None" and cseq_value(f.a[0], m.headers) for f, b in k):
            return True
        nums = {t.a[0] for f, b in k for t in subterms(f) if t.op == "vf" and t.a[1] == "Ok" and t.a[0].op == "call" and t.a[0].a[0].startswith("parse:") and token(q, t.a[0].a[1], 0, m.headers)}
        good = False
        for p in nums:
            v = proj(p, ("v", "Ok", "0"))
            if any(b and f.op == "is" and f.a[0] is p and f.a[1] == "Ok" for f, b in k) and q.P.le(v, Int(2 ** 31 - 1), k, 0) and (q.P.le(Int(1), v, k, 0) or nonzero(v, k)) and digits_only(q, p.a[1], k):
                good = True
        if not good:
            return False
        # nothing after the method
        third = any(b and f.op == "is" and f.a[1] == "None" and token(q, mk("vf", f.a[0], "Some", "0"), 2, m.headers)
                    or b and f.op == "bin" and f.a[0] == "Eq" and Int(2) in f.a[1:] and any(x.op == "call" and x.a[0] == "len" and token(q, mk("idx", x.a[1], Int(0)), 0, m.headers) for x in f.a[1:]) for f, b in k)
        if not third:
            return False
        if not m.request:
            return True
        for f, b in k:
            if b and (f.op == "call" and short(f) == "eq_ignore_ascii_case" or f.op == "bin" and f.a[0] == "Eq"):
                for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                    if token(q, x, 1, m.headers) and (y is method or y.op == "call" and short(y) == "as_str" and y.a[1] is method):
                        return True
        return False
    return holds(q, facts, one)


def nonzero(v, k):
    return any(not b and f.op == "bin" and f.a[0] == "Eq" and Int(0) in f.a[1:] and v in f.a[1:] for f, b in k)


def p02(ctx):
    q = Q(ctx, only={CR})
    ctx.rule("every way one of the six message parsers returns a message: the facts prove Headers::count <= 1 on the returned headers for Call-ID, CSeq, From, To and Max-Forwards; and there is no CSeq, or its first blank-separated token consists of digits and is parsed to a number from 1 to 2^31-1, there is no third token, and in a request the second one equals the text of the request line's method, case aside.")
    for m in messages(ctx, q):
        for n in SINGLE:
            ctx.check(at_most_once(q, m.headers, n, m.g), f"{m.name}:{n}", m.w, f"a message with two {n} headers can be returned")
        ctx.check(cseq_ok(q, m, m.g), f"{m.name}:cseq", m.w, "a message can be returned whose CSeq is not a number from 1 to 2^31-1 and one method" + (", that of the request line" if m.request else ""))


# ------------------------------------------------------------------ P03: header lines
COMPACT = {"i": "Call-ID", "f": "From", "t": "To", "m": "Contact", "l": "Content-Length", "s": "Subject", "k": "Supported", "o": "Event", "e": "Content-Encoding",
           "c": "Content-Type", "v": "Via", "r": "Refer-To", "b": "Referred-By", "d": "Request-Disposition", "x": "Session-Expires", "a": "Accept-Contact", "u": "Allow-Events"}
MORE = {"j": "Reject-Contact", "n": "Identity-Info", "y": "Identity"}


def head_of(q, t, raw, facts):
    """t is what precedes the first blank line of the datagram (all of it without one)"""
    t = conv(t)
    while t.op == "vf" and t.a[1] in ("Ok", "Some") and t.a[0].op == "call" and short(t.a[0]) in ("from_utf8", "ok") or t.op == "call" and short(t) in ("from_utf8", "ok"):
        t = t.a[0] if t.op == "vf" else conv(t.a[1])
    if t is raw:
        return holds(q, facts, lambda k: any(f.op == "is" and f.a[1] == "None" and b and is_position(q, f.a[0], raw, BLANK) for f, b in k))
    return t.op == "call" and t.a[0] == "slice" and t.a[1] is raw and (t.a[2].op == "none" or t.a[2] is Int(0)) and is_position(q, t.a[3], raw, BLANK)


def drops_blank(q, clo):
    it = mk("bound", 0)
    cs = closure_cases(q, clo, [it], False)
    return cs is not None and all(is_blank(it, c) for c in cs)


def split_line(x, i, k):
    """the text whose part before (0) or after (1) the first CR LF x is, or that has none and x stands for"""
    def cut(t):
        return t.op == "call" and t.a[0] == "str::split_once" and t.a[2].op == "str" and t.a[2].a[0] == "\r\n"
    if x.op == "field" and x.a[1] == str(i) and x.a[0].op == "vf" and x.a[0].a[1] == "Some" and cut(x.a[0].a[0]):
        return x.a[0].a[0].a[1]
    for f, b in k:
        if f.op == "is" and (f.a[1] == "None") == b and cut(f.a[0]) and (f.a[0].a[1] is x if i == 0 else x.op == "str" and x.a[0] == ""):
            return f.a[0].a[1]
    return None


def lines_of(q, t, raw, facts, tail=False):
    """t runs over the CR LF separated lines of the head (with tail: over those after the first)"""
    t = iter_base(t)
    while t.op in ("call", "icall") and t.a[0] == "Iterator::filter":
        if not drops_blank(q, t.a[-1]):
            return False
        t = iter_base(t.a[-2])
    if not (t.op == "call" and short(t) == "split" and t.a[2].op == "str" and t.a[2].a[0] == "\r\n"):
        return False
    if tail:
        return all((h := split_line(x, 1, q.full(g))) is not None and all(head_of(q, y, raw, k) for y, k in states(q, h, g)) for x, g in states(q, t.a[1], facts))
    return all(head_of(q, x, raw, g) for x, g in states(q, t.a[1], facts))


def canonical(q, t, name, facts):
    """every value t can have is the canonical form of the header name `name`: problem text or None"""
    seen = {}
    for v, fs in leaves(q, t, facts):
        g = q.close(fs)
        if g is None:
            continue
        while v.op == "call" and len(v.a) == 2 and short(v) in ("new", "from", "as_str", "into", "to_string", "new_inline", "new_static"):
            v = v.a[1]
        v = conv(v)
        if v.op == "str":
            ks = [k for k in list(COMPACT) + list(MORE) if letter(g, name, k) is True]
            if not ks or any({**COMPACT, **MORE}[k] != v.a[0] for k in ks):
                return f"a header can be stored as '{v.a[0]}' although its name is not that header's compact form"
            seen.update({k: 1 for k in ks})
        elif v is name:
            for k in COMPACT:
                if letter(g, name, k) is not False:
                    return f"a header named '{k}' can be stored under that name instead of {COMPACT[k]}"
        else:
            return "a header can be stored under a name that is neither its own nor what its compact form stands for"
    for k in COMPACT:
        if k not in seen:
            return f"no way was found on which the compact name '{k}' becomes {COMPACT[k]}"
    return None


def letter(facts, name, k):
    """whether the facts say that the name is k, case aside"""
    ln = mk("call", "len", name)
    for f, b in facts:
        if f.op == "bin" and ln in f.a[1:] and (f.a[0] == "Eq" and (not b and Int(1) in f.a[1:] or b and any(x.op == "int" and x.a[0] != 1 for x in f.a[1:]))
                                                or f.a[0] == "Le" and b and f.a[2] is ln and f.a[1].op == "int" and f.a[1].a[0] > 1 or f.a[0] == "Lt" and b and f.a[2] is ln and f.a[1].op == "int" and f.a[1].a[0] >= 1):
            return False
        if f.op == "bin" and f.a[0] == "Eq" or f.op == "call" and short(f) == "eq_ignore_ascii_case":
            for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                if y.op == "str" and y.a[0].lower() == k:
                    z = conv(x)
                    low = z.op == "call" and z.a[0] in CASE and "lower" in z.a[0]
                    if (conv(z.a[1]) if low else z) is name and (f.op == "call" or low and y.a[0] == k):
                        return b
    return None


def p03(ctx):
    q = Q(ctx, only={CR})
    ctx.rule("every way one of the six message parsers returns a message: the headers are what a loop builds that starts from an empty collection, runs over the CR LF separated lines of what precedes the first blank line (the first, the start line, taken before), is left only at the end, and in each iteration either skips an empty line or pushes exactly one header, whose value is the line after its first colon and whose name the line before it, both without surrounding blanks, compact names replaced by the names they stand for; a line that starts with a blank is never pushed.")
    n = 0
    for m in messages(ctx, q):
        H = m.headers
        if not ctx.check(H.op == "phi" and q.is_head(q.site(H)), f"{m.name}:loop", m.w, "the headers are not what a loop over the lines builds"):
            continue
        for x, fs in sorted(q.e.phi_inputs(H).items(), key=lambda z: z[0].id):
            if not q.carried(x, H):
                ctx.check(x.op == "call" and x.a[0] in ("Headers::new", "Default::default", "Headers::with_capacity", "Headers::default"), f"{m.name}:start", m.w, "the headers do not start empty")
        iters = set()
        for x, fs in q.e.phi_edges(H):
            g = q.close(fs)
            if g is None:
                continue
            its = sorted(items_of(q, g, q.site(H)), key=lambda z: z[0].id)
            if not ctx.check(bool(its), f"{m.name}:iteration", m.w, "an iteration that builds the headers takes no line"):
                continue
            ph, line = its[0]
            iters.add(ph)
            n += 1
            if x is H:
                ctx.check(is_blank(line, g), f"{m.name}:skipped", m.w, "a header line that is not empty can be left out of the message")
                continue
            if not ctx.check(x.op == "post" and x.a[0] in ADDH and x.a[2] is H, f"{m.name}:pushes", m.w, "an iteration over the header lines does not add exactly one header"):
                continue
            name, value = conv(x.a[3]), conv(x.a[4])
            cut = [z for z in subterms(value) if z.op in ("call", "icall") and short(z) in ("split_once", "splitn")]
            src = part(q, value, line, 1)
            ctx.check(src, f"{m.name}:value", m.w, "a header's value is not the line after its first colon, without surrounding blanks")
            want = None
            for z in {z for y, _ in leaves(q, name, g) for z in subterms(y)} | {z for y, fs2 in leaves(q, name, g) for f, _ in fs2 for z in subterms(f)}:
                if part(q, z, line, 0):
                    want = z
            if ctx.check(want is not None, f"{m.name}:name", m.w, "a header's name is not the line before its first colon, without surrounding blanks"):
                p = canonical(q, name, want, g)
                ctx.check(p is None, f"{m.name}:compact", m.w, p or "")
            for c in " \t":
                ctx.check(not_begin(q, line, c, g) or holds(q, g, lambda k: first_not(line, c, k)), f"{m.name}:folded", m.w, "a folded header line (one that starts with a blank) can be taken as a header")
            ctx.check(any(b and f.op == "is" and f.a[1] == "Ok" and f.a[0].op in ("call", "icall") and f.a[0].a[0] in ADDH for f, b in g), f"{m.name}:refused", m.w, "a header that the collection refuses can be dropped silently")
        for ph in iters:
            init = [s for s in started(q, ph)]
            ok = bool(init)
            for s in init:
                k, filters = 0, []
                while s.op in ("post", "ipost") and s.a[0] == "Iterator::next" or s.op in ("call", "icall") and (s.a[0] == "Iterator::filter" or short(s) in ("into_iter", "iter")):
                    if s.op in ("post", "ipost"):
                        k, s = k + 1, s.a[2] if s.op == "post" else s.a[3]
                    else:
                        filters += [s.a[-1]] if s.a[0] == "Iterator::filter" else []
                        s = s.a[-2] if s.a[0] == "Iterator::filter" else s.a[-1]
                ok = ok and all(drops_blank(q, f) for f in filters)
                if s.op == "call" and short(s) == "skip" and len(s.a) == 3 and s.a[2].op == "int":
                    k, s = k + s.a[2].a[0], s.a[1]
                ok = ok and (k <= 1 and lines_of(q, s, m.raw, m.g) or k == 0 and lines_of(q, s, m.raw, m.g, True))
            ctx.check(ok, f"{m.name}:lines", m.w, "the header lines are not the CR LF separated lines of what precedes the first blank line")
            ctx.check(any(b and f.op == "is" and f.a[1] == "None" and f.a[0].op in ("call", "icall") and f.a[0].a[0] == "Iterator::next" and f.a[0].a[-1] in iters for f, b in m.g), f"{m.name}:left", m.w, "a message can be returned before all its header lines were read")
    ctx.count("iterations over header lines analysed", n)
    ctx.floor("iterations over header lines analysed", 6)


def is_blank(line, g):
    for f, b in g:
        if b and f.op == "bin" and f.a[0] == "Eq" and (mk("call", "len", line) in f.a[1:] and Int(0) in f.a[1:] or line in f.a[1:] and mk("str", "") in f.a[1:]):
            return True
        if b and f.op == "bin" and f.a[0] == "Eq" and Int(0) in f.a[1:]:
            for x in f.a[1:]:
                if x.op == "call" and x.a[0] == "len" and x.a[1].op == "call" and short(x.a[1]).startswith("trim") and x.a[1].a[1] is line:
                    return True
    return False


def part(q, t, line, i):
    """t is the i-th half of the line cut at its first colon, without surrounding blanks"""
    t = conv(t)
    n = 0
    while t.op == "call" and short(t) == "trim" and len(t.a) == 2:
        t, n = conv(t.a[1]), n + 1
    if not n:
        return False
    if t.op == "field" and t.a[1] == str(i) and t.a[0].op == "vf" and t.a[0].a[1] == "Some":
        c = t.a[0].a[0]
        return c.op == "call" and short(c) == "split_once" and c.a[1] is line and colon(c.a[2])
    if t.op == "call" and t.a[0] == "slice":
        b, lo, hi = t.a[1:4]
        if b is not line:
            return False
        if i == 0:
            return (lo.op == "none" or lo is Int(0)) and found(hi, line)
        return hi.op == "none" and lo.op == "bin" and lo.a[0] == "Add" and any(found(x, line) and y is Int(1) for x, y in ((lo.a[1], lo.a[2]), (lo.a[2], lo.a[1])))
    return False


def colon(t):
    return t.op == "char" and t.a[0] == 58 or t.op == "str" and t.a[0] == ":"


def found(t, line):
    return t.op == "vf" and t.a[1] == "Some" and t.a[0].op == "call" and short(t.a[0]) == "find" and t.a[0].a[1] is line and colon(t.a[0].a[2])


def first_not(line, c, k):
    """the facts say that the first byte (character) of the line, if there is one, is not c"""
    def first(x):
        return x.op in ("call", "icall") and (short(x) == "first" or x.a[0] == "Iterator::next") and under(x.a[-1])

    def under(x):
        x = conv(x)
        while x.op == "call" and short(x) in ("as_bytes", "bytes", "chars", "iter") and len(x.a) == 2:
            x = conv(x.a[1])
        return x is line
    for f, b in k:
        if f.op == "is" and first(f.a[0]) and (f.a[1] == "None") == b:
            return True
        if f.op == "bin" and f.a[0] == "Eq" and any(x.op == "vf" and first(x.a[0]) or x.op == "idx" and x.a[1] is Int(0) and under(x.a[0]) for x in f.a[1:]):
            for y in f.a[1:]:
                if y.op in ("int", "char") and (y.a[0] == ord(c)) != b:
                    return True
    return False


def not_begin(q, line, c, g):
    for f, b in g:
        if not b and f.op == "call" and short(f) == "starts_with" and f.a[1] is line:
            p = f.a[2]
            if p.op == "char" and p.a[0] == ord(c) or p.op == "str" and p.a[0] == c:
                return True
            if p.op in ("array", "bytes") and any(getattr(x, "op", None) == "char" and x.a[0] == ord(c) for x in p.a):
                return True
            if p.op in ("closure", "fn"):
                cs = apply_fn(q, p, [mk("char", ord(c))])
                if cs and all(v.op == "bool" and v.a[0] for _, v in cs):
                    return True
                if p.op == "fn" and p.a[0].split("::")[-1] in ("is_whitespace", "is_ascii_whitespace"):
                    return True
    return False


# ------------------------------------------------------------------ P04: size limit, start line
SIMPLE = ("space0", "space1", "multispace0", "multispace1", "rest", "u16", "u32", "digit1")


def applied(t):
    """(parser, text) when t is what a parser makes of a text"""
    if t.op == "call" and short(t) == "apply" and len(t.a) == 3:
        return t.a[1], t.a[2]
    if t.op == "call" and short(t) in SIMPLE and len(t.a) == 2:
        return mk("fn", t.a[0]), t.a[1]
    return None


def nom_part(t):
    """(parsers applied before, the parser whose result t is, text they are applied to)"""
    t = conv(t)
    if t.op == "field" and t.a[0].op == "field" and t.a[0].a[1] == "1":
        i, t = t.a[1], t.a[0]
    else:
        i = None
    if not (t.op == "field" and t.a[1] == "1" and t.a[0].op == "vf" and t.a[0].a[1] == "Ok" and applied(t.a[0].a[0])):
        return None
    c = applied(t.a[0].a[0])
    ps = flat_parsers(c[0])
    k = int(i) if i is not None else 0
    if (i is None) != (len(ps) == 1) or k >= len(ps):
        return None
    before, base = [], c[1]
    while True:
        b = conv(base)
        if b.op == "field" and b.a[1] == "0" and b.a[0].op == "vf" and b.a[0].a[1] == "Ok" and applied(b.a[0].a[0]):
            d = applied(b.a[0].a[0])
            before = flat_parsers(d[0]) + before
            base = d[1]
        else:
            break
    return before + ps[:k], ps[k], base


def flat_parsers(p):
    if p.op == "call" and short(p) == "tuple" and len(p.a) == 2:
        return list(p.a[1].a)
    if p.op == "tuple":
        return list(p.a)
    return [p]


def parser_name(p):
    return (p.a[0] if p.op in ("call", "fn") else "").split("::")[-1]


def chars_word(q, p):
    """a parser of one or more characters, none of them blank or a control character"""
    if parser_name(p) != "take_while1" or len(p.a) != 2:
        return False
    cs = q.P.predset(p.a[1], True)
    return cs is not None and not any(ord(c) in cs if not isinstance(c, int) else c in cs for c in " \t\r\n")


def first_line(q, t, raw, facts):
    """t is the first CR LF separated line of the head, perhaps trimmed"""
    t = conv(t)
    while t.op == "call" and short(t) == "trim" and len(t.a) == 2:
        t = conv(t.a[1])
    if not (t.op == "vf" and t.a[1] == "Some" and t.a[0].op in ("call", "icall") and t.a[0].a[0] == "Iterator::next"):
        st = list(states(q, t, facts))
        return bool(st) and all((h := split_line(x, 0, q.full(g))) is not None and all(head_of(q, y, raw, k) for y, k in states(q, h, g)) for x, g in st)
    return lines_of(q, t.a[0].a[-1], raw, facts)


WORDS = {"request": (("word",), ("space1",), ("word",), ("space1",), ("rest",)), "response": (("tag",), ("space1",), ("u16",), ("space1",), ("rest",))}


def start_part(q, t, i, kind, raw, facts):
    """t is the i-th of the three parts of the start line"""
    t = conv(t)
    while t.op == "call" and short(t) == "trim" and len(t.a) == 2 and i == 2:
        t = conv(t.a[1])
    n = nom_part(t)
    if n is not None:
        before, p, base = n
        ps = before + [p]
        want = WORDS[kind][:2 * i + 1]
        if len(ps) != len(want):
            return False
        for x, w in zip(ps, want):
            nm = parser_name(x)
            ok = {"word": lambda: chars_word(q, x), "space1": lambda: nm in ("space1", "multispace1"), "rest": lambda: nm == "rest",
                  "u16": lambda: nm == "u16", "tag": lambda: nm == "tag_no_case" and x.a[1].op == "str" and x.a[1].a[0].upper() == "SIP/2.0"}[w[0]]()
            if not ok:
                return False
        return first_line(q, base, raw, facts)
    if kind == "response" and i == 1:
        t = number_of(t)
        if t is None:
            return False
    k, s = words_of(t)
    if s is None or k != i:
        return False
    return first_line(q, s, raw, facts)


def words_of(t):
    """(i, text) when t is the i-th blank-separated word of the text"""
    if t.op == "vf" and t.a[1] == "Some" and t.a[0].op in ("call", "icall") and t.a[0].a[0] == "Iterator::next":
        n, t = 0, t.a[0].a[-1]
        while t.op == "post" and t.a[0] == "Iterator::next":
            n, t = n + 1, t.a[2]
        if t.op == "call" and short(t) in ("split_whitespace", "split_ascii_whitespace"):
            return n, t.a[1]
        if t.op == "call" and short(t) == "splitn" and t.a[2] is Int(3) and (t.a[3].op in ("char", "str") and t.a[3].a[0] in (32, " ")):
            return n, t.a[1]
    return None, None


def version_said(q, kind, raw, facts):
    def one(k):
        for f, b in k:
            if b and f.op == "call" and short(f) == "eq_ignore_ascii_case":
                for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                    if y.op == "str" and y.a[0].upper() == "SIP/2.0" and start_part(q, x, 2 if kind == "request" else 0, kind, raw, facts):
                        return True
        return False
    return holds(q, facts, one)


def p04(ctx):
    q = Q(ctx, only={CR})
    ctx.rule("every way one of the six message parsers returns a message: the facts prove that the datagram is no longer than the limit given (65536 bytes without one); a request's method is the Ok of Method::from_token on the first and its URI the Ok of Uri::parse on the second of the three blank-separated parts of the first line, neither with a blank in it, and the third equals SIP/2.0, case aside; a response's status line is the Ok of StatusLine::new on the decimal u16 that is the second and the text that is the rest of the line, whose first part is SIP/2.0.")
    for m in messages(ctx, q):
        kind = "request" if m.request else "response"
        lim = mk("arg", 2) if "with_limit" in m.name else Int(65536)
        ctx.check(holds(q, m.g, lambda k: q.P.le(simp_call("len", (m.raw,)), lim, k, 0)), f"{m.name}:size", m.w, "a datagram longer than the limit can be parsed")
        parts = []
        L = m.line
        if m.request:
            if not ctx.check(L.op == "call" and L.a[0] == "RequestLine::new" and len(L.a) == 3, f"{m.name}:line", m.w, "the request line is not put together by RequestLine::new"):
                continue
            for v, f, i, what in ((L.a[1], "Method::from_token", 0, "method"), (L.a[2], "Uri::parse", 1, "URI")):
                ok = v.op == "vf" and v.a[1] == "Ok" and v.a[0].op == "call" and v.a[0].a[0] == f and start_part(q, v.a[0].a[1], i, kind, m.raw, m.g)
                ctx.check(ok, f"{m.name}:{what}", m.w, f"the {what} of a request is not what {f} makes of the {('first', 'second')[i]} word of the first line")
            ctx.check(version_said(q, kind, m.raw, m.g), f"{m.name}:version", m.w, "a request can be returned although its version is not SIP/2.0")
        else:
            ok = L.op == "vf" and L.a[1] == "Ok" and L.a[0].op == "call" and L.a[0].a[0] == "StatusLine::new" and len(L.a[0].a) == 3
            if not ctx.check(ok, f"{m.name}:line", m.w, "the status line is not put together by StatusLine::new"):
                continue
            c, r = L.a[0].a[1:]
            ctx.check(start_part(q, c, 1, kind, m.raw, m.g), f"{m.name}:code", m.w, "the status code of a response is not the decimal number in the second word of the first line")
            ctx.check(start_part(q, r, 2, kind, m.raw, m.g), f"{m.name}:reason", m.w, "the reason of a response is not the rest of the first line")
            ctx.check(nom_part(c) is not None or version_said(q, kind, m.raw, m.g), f"{m.name}:version", m.w, "a response can be returned although its version is not SIP/2.0")
    ctx.count("start lines analysed", 1)


# ------------------------------------------------------------------ P05: serialisation
def header_field(t, which):
    """the header whose name (value) t is"""
    t = conv(t)
    return t.a[1] if t.op == "call" and t.a[0].split("::")[0] == "Header" and short(t) in (which, which + "_smol") and len(t.a) == 2 else None


def named(f, item, text):
    """the fact compares the item's name with the text, case aside"""
    if f.op == "call" and short(f) == "eq_ignore_ascii_case":
        for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
            if y.op == "str" and y.a[0].lower() == text and header_field(x, "name") is item:
                return True
    if f.op == "bin" and f.a[0] == "Eq":
        for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
            x = conv(x)
            if y.op == "str" and y.a[0] == text and x.op == "call" and x.a[0] in CASE and "lower" in x.a[0] and header_field(x.a[1], "name") is item:
                return True
    return False


def name_is(q, item, texts, facts):
    """the facts say that the item's name is one of the texts"""
    return holds(q, facts, lambda k: any(b and named(f, item, x) for f, b in k for x in texts))


def name_isnt(q, item, text, facts):
    """the facts say that the item's name is not the text"""
    def one(k):
        if any(not b and named(f, item, text) for f, b in k):
            return True
        return any(b and named(f, item, f2) for f, b in k for f2 in others(f, text))
    for it, fs in leaves(q, item, facts):
        g = q.close(fs)
        if g is None:
            continue
        if not holds(q, g, lambda k: any(not b and (named(f, it, text) or named(f, item, text)) for f, b in k) or one(k)):
            return False
    return True


def others(f, text):
    return [x.a[0].lower() for x in subterms(f) if x.op == "str" and x.a[0].lower() != text]


def entered(q, ph, via):
    """the loop state ph can be entered without a transition that via(item, facts) accepts"""
    seen, work = {ph}, [ph]
    while work:
        p = work.pop()
        for x, fs in q.e.phi_inputs(p).items():
            if x.op == "phi":
                if q.is_head(q.site(x)) and q.site(x) == q.site(ph):
                    if x not in seen:
                        seen.add(x)
                        work.append(x)
            elif not (x.op in ("post", "ipost") and x.a[0] == "Iterator::next"):
                return True
        for src, item, facts, _ in transitions(q, p):
            if src is None:
                return True
            if src in seen or via(item, facts):
                continue
            if src.op != "phi":
                return True
            seen.add(src)
            work.append(src)
    return False


def every_state(q, ph, ok):
    """ok(item, facts) holds of every transition on the way to the loop state ph"""
    seen, work = {ph}, [ph]
    while work:
        p = work.pop()
        for src, item, facts, _ in transitions(q, p):
            if src is None or not ok(item, facts):
                return False
            if src.op == "phi" and src not in seen:
                seen.add(src)
                work.append(src)
    return True


def left_at(q, facts, H):
    """loop states at whose end the loop over the headers H was left"""
    for f, b in facts:
        if b and f.op == "is" and f.a[1] == "None" and f.a[0].op in ("call", "icall") and f.a[0].a[0] == "Iterator::next":
            ph = f.a[0].a[-1]
            if ph.op == "phi" and q.is_head(q.site(ph)) and all(iter_base(s.a[2] if s.op == "post" else s) is H or H in subterms(s) for s in started(q, ph)):
                yield ph


def max_forwards(q, H, facts, ways):
    """True / False when the facts say that there is a / no Max-Forwards header; None when they do not say"""
    mf = "max-forwards"

    def there(k):
        for f, b in k:
            if b and f.op == "is" and f.a[1] == "Some" and is_get(f.a[0], H, mf) or b and f.op == "call" and short(f) in ("contains", "contains_key", "has") and f.a[1] is H and lit_is(f.a[2], mf):
                return True
            if f.op == "bin":
                for c in f.a[1:]:
                    if c.op == "call" and short(c) == "count" and c.a[1] is H and lit_is(c.a[2], mf) and (q.P.le(Int(1), c, k, 0) or nonzero(c, k)):
                        return True
        return exists(q, k, lambda c: over(c, H), lambda it, j: any(b and named(f, it, mf) for f, b in j))

    def absent(k):
        for f, b in k:
            if b and f.op == "is" and f.a[1] == "None" and is_get(f.a[0], H, mf) or not b and f.op == "call" and short(f) in ("contains", "contains_key", "has") and f.a[1] is H and lit_is(f.a[2], mf):
                return True
            if f.op == "bin":
                for c in f.a[1:]:
                    if c.op == "call" and short(c) == "count" and c.a[1] is H and lit_is(c.a[2], mf) and q.P.le(c, Int(0), k, 0):
                        return True
        return any(over(coll, H) and cases and all(any(not b and named(f, it, mf) for f, b in d) for d in cases) for coll, cases, it in each(q, k))
    if holds(q, facts, there):
        return True
    if holds(q, facts, absent):
        return False
    for ph in left_at(q, facts, H):
        if not entered(q, ph, lambda it, fs: name_is(q, it, (mf,), fs)):
            return True
        if every_state(q, ph, lambda it, fs: name_isnt(q, it, mf, fs)):
            return False
    return None


def over(c, H):
    c = iter_base(c)
    while c.op == "call" and len(c.a) == 2 and short(c) in ("iter", "into_iter", "as_slice", "as_ref"):
        c = iter_base(c.a[1])
    return c is H


def is_get(t, H, name):
    return t.op == "call" and short(t) in ("get", "get_smol", "get_all") and t.a[1] is H and lit_is(t.a[2], name)


def lit_is(t, name):
    return t.op == "str" and t.a[0].lower() == name


def p05(ctx):
    import skel
    q = Q(ctx, only={CR})
    ctx.rule("the text serialize_request and serialize_response build, as a skeleton over their argument: start line (method SP URI SP version; version SP code SP reason), CR LF, one loop over the headers in their order, 'Content-Length: ' the number of body bytes, a blank line, the body; each round of the loop writes one line 'name: value' with the header's own name (or one equal to it, case aside) and its own value (perhaps trimmed) and the facts say that the name is neither Content-Length nor l, or writes nothing and the name is one of these; before Content-Length 'Max-Forwards: 70' stands exactly when the request is one and its headers have no Max-Forwards (loop states: reached without, or only through, a header of that name).")
    for name, adt in (("serialize_request", "Request"), ("serialize_response", "Response")):
        fn = q.one("sip_parse::" + name, CR)
        if fn is None:
            ctx.violation(f"{name}:missing", CR, f"{name} was not found")
            continue
        m, w = mk("arg", 1), where(fn)
        parts = ("method", "uri", "version") if adt == "Request" else ("version", "code", "reason")
        get = lambda t, f: t.op == "call" and t.a[0] == f"{adt}::{f}" and t.a[1] is m
        n = 0
        for o in q.e.summary(fn).outcomes:
            g0 = q.close(o.facts)
            if g0 is None:
                continue
            try:
                ways = skel.Raw(q, stream).ways(o.ret, g0)
            except skel.Unknown as e:
                ctx.violation(f"{name}:text", w, f"the text that {name} builds could not be taken apart: {e}")
                continue
            for facts, ps in ways:
                n += 1
                ps = list(ps)
                ok = len(ps) == 11 and [p[0] for p in ps] == ["T", "L", "T", "L", "T", "L", "LOOP", "L", "T", "L", "T"]
                if not ctx.check(ok, f"{name}:shape", w, "a message can be written that is not a start line, one line per header, Content-Length, a blank line and the body"):
                    continue
                ok = all(get(conv(ps[2 * i][1]), f) for i, f in enumerate(parts)) and ps[1][1] == " " == ps[3][1] and ps[5][1] == "\r\n"
                ctx.check(ok, f"{name}:start", w, f"the first line written is not {parts[0]}, {parts[1]} and {parts[2]} with a space between them")
                src, rounds = unfiltered(q, ps[6][1], ps[6][-1])
                H = iter_base(src)
                while H.op == "call" and short(H) in ("iter", "into_iter") and len(H.a) == 2:
                    H = iter_base(H.a[1])
                ctx.check(get(H, "headers"), f"{name}:headers", w, "the header lines written are not those of the message, each in turn")
                tail = ps[7][1]
                mf = tail.startswith("Max-Forwards: 70\r\n")
                if mf:
                    tail = tail[len("Max-Forwards: 70\r\n"):]
                ok = tail == "Content-Length: " and conv(ps[8][1]).op == "call" and conv(ps[8][1]).a[0] == "len" and get(conv(conv(ps[8][1]).a[1]), "body")
                ctx.check(ok, f"{name}:length", w, "the Content-Length written is not the number of bytes of the body")
                ctx.check(ps[9][1] == "\r\n\r\n" and get(conv(ps[10][1]), "body"), f"{name}:body", w, "what is written after the headers is not a blank line and the body")
                if adt == "Request":
                    has = max_forwards(q, H, q.close(facts) or facts, rounds)
                    if mf:
                        ctx.check(has is False, f"{name}:two", w, "Max-Forwards: 70 can be written although the request has a Max-Forwards header")
                    else:
                        ctx.check(has is True, f"{name}:none", w, "a request without a Max-Forwards header can be written without one")
                else:
                    ctx.check(not mf, f"{name}:two", w, "Max-Forwards is written into a response")
                ctx.count("header line forms analysed", len(rounds))
                for fs, line in rounds:
                    header_line(ctx, q, name, w, fs, list(line))
        ctx.check(n > 0, f"{name}:missing", w, f"no text of {name} was found")
        ctx.count("texts analysed", n)
    ctx.floor("texts analysed", 2)
    ctx.floor("header line forms analysed", 4)


def unfiltered(q, src, rounds):
    """the loop with the filters on what it runs over taken into its rounds"""
    src = iter_base(src)
    while src.op in ("call", "icall") and src.a[0] == "Iterator::filter":
        new = []
        for fs, ps in rounds:
            its = {i for p in ps if p[0] == "T" for i in [header_field(p[1], "name"), value_of(p[1])] if i is not None} | {i for f, b in fs for x in deep_subterms(q, f) for i in [header_field(x, "name")] if i is not None}
            for i in its:
                for c in closure_cases(q, src.a[-1], [i], True) or [()]:
                    g = join_facts(q, fs, c)
                    if g is not None:
                        new.append((g, ps))
        b = mk("bound", 0)
        for c in closure_cases(q, src.a[-1], [b], False) or [()]:
            new.append((frozenset(c), ()))
        src, rounds = iter_base(src.a[-2]), new
    return src, rounds


def header_line(ctx, q, name, w, facts, ps):
    g = q.close(facts)
    if g is None:
        return
    cl = ("content-length", "l")
    if not ps:
        its = {i for f, b in unroll(q, g) for x in deep_subterms(q, f) for i in [header_field(x, "name")] if i is not None}
        ctx.check(any(name_is(q, i, cl, g) for i in its), f"{name}:left-out", w, "a header other than Content-Length can be left out of the text")
        return
    item, ok = None, False
    if len(ps) == 4 and [p[0] for p in ps] == ["T", "L", "T", "L"]:
        item = header_field(ps[0][1], "name")
        v = value_of(ps[2][1])
        if item is None and v is not None and holds(q, g, lambda k: any(b and f.op == "call" and short(f) == "eq_ignore_ascii_case" and conv(ps[0][1]) in f.a[1:] and any(header_field(x, "name") is v for x in f.a[1:]) for f, b in k)):
            item = v
        ok = item is not None and ps[1][1] == ": "
    elif len(ps) == 3 and [p[0] for p in ps] == ["L", "T", "L"]:
        v = value_of(ps[1][1])
        if v is not None and ps[0][1].endswith(": ") and name_is(q, v, (ps[0][1][:-2].lower(),), g):
            item, ok = v, True
    ok = ok and ps[-1][1] == "\r\n" and value_of(ps[-2][1]) is item
    if not ctx.check(ok, f"{name}:line", w, "a header is written as something else than its name, a colon, its value and CR LF"):
        return
    for c in cl:
        ctx.check(name_isnt(q, item, c, g), f"{name}:kept", w, f"a header named {c} of the message can be written beside the Content-Length that is computed")


def value_of(t):
    t = conv(t)
    while t.op == "call" and short(t) == "trim" and len(t.a) == 2:
        t = conv(t.a[1])
    return header_field(t, "value")


RULES = {"P01": p01, "P02": p02, "P03": p03, "P04": p04, "P05": p05}
