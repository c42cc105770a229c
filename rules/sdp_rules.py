"""SDP offer/answer (sip-sdp)."""
import gram
import skel
from rules._util import *
from rules.identity_rules import conv, ok_outcomes
from rules.limit_rules import cargs, short, states, swap

CR = "sip_sdp"
DIRS = ("SendRecv", "SendOnly", "RecvOnly", "Inactive")


def kept_whole(q, t):
    """facts of the iterations after which the joined value t is what it was before"""
    ph, steps = t, []
    while ph.op in ("field", "vf"):
        steps.append(("f", ph.a[1]) if ph.op == "field" else ("v", ph.a[1], ph.a[2]))
        ph = ph.a[0]
    if ph.op != "phi":
        return
    for fs in q.e.phi_kept(ph):
        if q.close(fs) is not None:
            yield fs
    st, seen = [(x, fs) for x, fs in q.e.phi_inputs(ph).items()], set()
    while st:
        y, fs = st.pop()
        if q.close(fs) is None:
            continue
        z = y
        for e in steps[::-1]:
            if z.op == "adt" and e[0] == "v" and z.a[1] != e[1]:
                z = None
                break
            z = proj(z, e)
        if z is t:
            yield fs
            continue
        if z is None or y in seen:
            continue
        seen.add(y)
        w = y
        while w.op in ("field", "vf"):
            w = w.a[0]
        if w.op == "phi" and w is not ph:
            for x, gs in q.e.phi_inputs(w).items():
                st.append((swap(y, w, x), fs | frozenset(gs)))


class Answer:
    """what negotiate_answer puts in an answer: for every way an iteration over the offer's media can go, the m-line added"""

    def __init__(self, ctx, q):
        self.ctx, self.q = ctx, q
        self.fn = fn = q.one("negotiate::negotiate_answer", CR)
        self.lines, self.ok = [], False
        if fn is None:
            return
        self.w = where(fn)
        self.offer, self.local = mk("arg", 1), mk("arg", 3)
        self.elems = set()
        self.ok = True
        for o, v, g in ok_outcomes(q, fn):
            self.lists(F(v.a[3] if v.op == "adt" else proj(v, ("v", "Ok", "0")), "media"), g)
        ctx.floor("m-lines analysed", 2)

    def lists(self, m, g):
        q, ctx = self.q, self.ctx
        for y, fs in assigned(q, m, g):
            f = q.close(fs)
            if f is None:
                continue
            if y.op in ("post", "ipost") and y.a[0] == "Vec::push":
                prev, item = cargs_post(y)
                ctx.count("m-lines analysed")
                self.lines.append((prev, item, frozenset(f), m))
            elif y.op == "call" and y.a[0] in ("Vec::new", "Vec::with_capacity", "Default::default") or y.op in ("array", "list") and not y.a[0]:
                continue
            else:
                self.lines.append((None, y, frozenset(f), m))

    def elem(self, t):
        """t is the offered m-line an iteration over the whole of offer.media is at"""
        s = loop_elem(self.q, t, frozenset())
        return s is not None and s[0] is F(self.offer, "media") and s[1] == ()


def cargs_post(t):
    a = t.a[2:] if t.op == "post" else t.a[3:]
    return a[0], a[1]


def fields(q, item, name, fs):
    """the values a field of an m-line can have"""
    seen = set()
    for z, gs in assigned(q, F(item, name), fs):
        h = q.close(gs)
        if h is not None and (z, h) not in seen:
            seen.add((z, h))
            yield z, h


def s02(ctx):
    q = Q(ctx, only={CR})
    ctx.rule("negotiate_answer, every run that returns an answer: its media list starts empty and is extended by exactly one m-line in every iteration of a loop over the whole of offer.media, which is left only when the offer has no further m-line; that m-line's media_type and protocol are those of the offered m-line of the same iteration.")
    a = Answer(ctx, q)
    if not a.ok:
        return
    for prev, item, fs, m in a.lines:
        if not ctx.check(prev is not None, "list", a.w, "the answer's media list is not built by adding one m-line after the other to an empty list"):
            continue
        ctx.check(prev is m, "one", a.w, "an iteration over the offer's m-lines adds more than one m-line to the answer, or adds to another list")
        for n in ("media_type", "protocol"):
            vs = {conv(z) for z, h in fields(q, item, n, fs)}
            ctx.check(bool(vs) and all(z.op == "field" and z.a[1] == n and a.elem(z.a[0]) for z in vs), n, a.w, f"an m-line of the answer need not have the {n} of the offered m-line in its place")
    for m in {m for _, _, _, m in a.lines}:
        for fs in kept_whole(q, m):
            ctx.violation("skipped", a.w, "an iteration over the offer's m-lines can leave the answer without a line for it")
        # the loop is left only at its end
        for o, v, g in ok_outcomes(q, a.fn):
            ctx.check(holds(q, g, lambda k: any(f.op == "is" and f.a[1] == "None" and b and f.a[0].op in ("call", "icall") and f.a[0].a[0] in ("Iterator::next", "next") and next_over(q, f.a[0], F(a.offer, "media")) for f, b in k)
                            or m.op != "field"), "left", a.w, "the answer can be returned before every offered m-line was answered")


def next_over(q, nx, coll):
    s = next_source(q, proj(nx, ("v", "Some", "0")), frozenset())
    return s is not None and iter_base(s) is coll


def sdp_local(q, a, t):
    """t is the local m-line matched to the offered one: the first of its media type"""
    t = conv(t)
    if t.op == "vf" and t.a[1] == "Some":
        t = t.a[0]
    if short(t) not in ("Iterator::find",) or iter_base(cargs(t)[0]) is not F(a.local, "media"):
        return False
    it = mk("bound", 0)
    cs = closure_cases(q, cargs(t)[1], [it], True)
    return cs is not None and bool(cs) and all(any(b and f.op == "bin" and f.a[0] == "Eq" and any(x is F(it, "media_type") and y.op == "field" and y.a[1] == "media_type" and a.elem(y.a[0]) for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1]))) for f, b in c) for c in cs)


def has_type(a, f, b):
    """the fact says a collection holds the offered media type; returns (collection, truth)"""
    if f.op in ("call", "icall") and short(f).split("::")[-1] == "contains":
        x = conv(cargs(f)[1])
        if x.op == "field" and x.a[1] == "media_type" and a.elem(x.a[0]):
            return cargs(f)[0], b
    return None


def s03(ctx):
    q = Q(ctx, only={CR})
    ctx.rule("Every m-line negotiate_answer adds either has port 0, or was matched: its port is that of the first local m-line of the same media type, which has the same protocol as the offered one, and the list of media types accepted so far did not hold the type. That list starts empty and grows by nothing but the type of an accepted m-line; every iteration that adds a matched m-line adds its type.")
    a = Answer(ctx, q)
    if not a.ok:
        return
    lists, pushes = set(), set()
    for prev, item, fs, m in a.lines:
        ports = list(fields(q, item, "port", fs))
        ctx.check(bool(ports), "port", a.w, "cannot tell the port of an m-line of the answer")
        for z, h in ports:
            if z is mk("int", 0):
                ctx.count("rejected lines")
                continue
            ctx.count("accepted lines")
            ctx.check(z.op == "field" and z.a[1] == "port" and sdp_local(q, a, z.a[0]), "match", a.w, "an m-line is accepted with a port that is not that of the local m-line of the same media type")
            if z.op != "field":
                continue
            lp = F(z.a[0], "protocol")
            ctx.check(holds(q, h, lambda k: any(b and f.op == "bin" and f.a[0] == "Eq" and any(x is lp and y.op == "field" and y.a[1] == "protocol" and a.elem(y.a[0]) for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1]))) for f, b in k)), "protocol", a.w, "an m-line is accepted although its protocol need not be the local one's")

            def fresh(k):
                for col, cs, it in each(q, k):
                    if cs and all(any(not b and f.op == "bin" and f.a[0] == "Eq" and any(x is it and y.op == "field" and y.a[1] == "media_type" and a.elem(y.a[0]) for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1]))) for f, b in c) for c in cs):
                        lists.add(col)
                        return True
                for f, b in k:
                    r = has_type(a, f, b)
                    if r is not None and not r[1]:
                        lists.add(r[0])
                        return True
                return False
            ctx.check(holds(q, h, fresh), "fresh", a.w, "an m-line is accepted although one of its media type may have been accepted before")
    ctx.floor("accepted lines", 1)
    ctx.floor("rejected lines", 1)
    for ls in lists:
        for y, fs in assigned(q, ls, frozenset()):
            if y.op == "call" and y.a[0].split("::")[-1] in ("new", "with_capacity", "default") or y is ls:
                continue
            if not ctx.check(y.op in ("post", "ipost") and y.a[0].split("::")[-1] in ("push", "insert") and cargs_post(y)[0] is ls, "types", a.w, "the list of accepted media types is changed other than by adding to it"):
                continue
            x = conv(cargs_post(y)[1])
            ctx.check(x.op == "field" and x.a[1] == "media_type" and a.elem(x.a[0]), "type", a.w, "something other than the offered media type is noted as accepted")
            pushes.add(y.a[0])
    ctx.check(bool(pushes), "noted", a.w, "accepted media types are not noted")
    # without the runs that note a type, no line is accepted
    lens = {p for p in pushes}
    q2, n, outs = avoiding(q, a.fn, lambda ev: ev.kind == "call" and ev.name in lens and len(ev.args) == 2 and (lambda x: x.op == "field" and x.a[1] == "media_type")(conv(ev.args[1])))
    b = Answer.__new__(Answer)
    b.ctx, b.q, b.fn, b.w, b.offer, b.local, b.lines = Quiet(), q2, q2.p.fn(a.fn.id), a.w, a.offer, a.local, []
    for o in outs:
        v = o.ret
        if v.op == "adt" and v.a[1] == "Ok":
            b.lists(F(v.a[3], "media"), o.facts)
    for prev, item, fs, m in b.lines:
        for z, h in fields(q2, item, "port", fs):
            ctx.check(z is mk("int", 0), "unnoted", a.w, "an m-line can be accepted without its media type being noted, so that another one of the type is accepted too")


def dead(q, fs):
    """the facts contradict each other (joined values only one value can reach replaced by it)"""
    for _ in range(4):
        ph = next((s for f, b in sorted(fs, key=lambda x: x[0].id) for s in subterms(f) if s.op == "phi" and len(q.e.phi_inputs(s)) == 1 and not any(q.carried(x, s) for x in q.e.phi_inputs(s))), None)
        if ph is None:
            break
        (x, gs), = q.e.phi_inputs(ph).items()
        h = frozenset()
        for f, b in list(fs) + list(gs):
            h = q.e.add_fact(h, swap(f, ph, x), b)
            if h is None:
                return True
        fs = h
    return q.close(fs) is None or holds(q, fs, lambda k: False)


class Quiet:
    def count(self, *a):
        pass
    floor = count


def dir_terms(q, fs, base):
    """the terms (Option<Direction>) that hold the direction found among base.attributes"""
    out = set()
    for f, b in fs:
        for s in subterms(f):
            if s.op in ("call", "icall") and short(s) in ("Iterator::find_map",) and base(iter_base(cargs(s)[0])) and reads_direction(q, cargs(s)[1]):
                out.add(s)
            if s.op in ("call", "icall") and len(cargs(s)) == 1 and any(g.split("::")[-1] == short(s).split("::")[-1] for g in q.e.opaque) and base(cargs(s)[0]):
                out.add(s)
    return out


def leaf_facts(q, ev):
    return frozenset(f for v, fs in leaves(q, ev.args[1], ev.facts) for f in q.full(q.close(fs) or frozenset()))


def first_direction(q, g):
    """g returns the direction of the first element of its argument that names one, found by a loop"""
    s = q.e.summary(g)
    iters = set()
    for o in s.outcomes:
        for v, fs in leaves(q, o.ret, o.facts):
            h = q.close(fs)
            if h is None or v.op == "adt" and v.a[1] == "None":
                continue
            if not (v.op == "adt" and v.a[1] == "Some"):
                return False
            for d, gs in leaves(q, v.a[3], h):
                k = q.close(gs)
                if k is None:
                    continue
                els = {x for f, b in k for x in subterms(f) if x.op == "vf" and x.a[1] == "Some" and next_source(q, x, frozenset()) is mk("arg", 1)}
                if d.op != "adt" or d.a[1] not in DIRS or not any(holds(q, k, lambda j: str_exact(j, proj(e, ("v", "Property", "0")), d.a[1].lower())) for e in els):
                    return False
                iters |= {(e, e.a[0].a[-1]) for e in els}
    for e, ph in iters:
        if ph.op != "phi":
            return False
        back = [fs for x, fs in q.e.phi_inputs(ph).items() if q.carried(x, ph)] + list(q.e.phi_kept(ph))
        if not back:
            return False
        for fs in back:
            for d in DIRS:
                h = join_facts(q, fs, [(is_(e, "Property"), True), (binop("Eq", proj(e, ("v", "Property", "0")), mk("str", d.lower())), True)])
                if h is not None and not dead(q, h):
                    return False
    return bool(iters)


def s04(ctx):
    q = Q(ctx, only={CR})
    ctx.rule("The direction negotiate_answer gives an accepted m-line, for each of the 25 combinations of the offered m-line's direction attribute (first of sendrecv, sendonly, recvonly, inactive, or none: sendrecv) and the local m-line's: the answer may send only if the offer may receive and we may send, and may receive only if the offer may send and we may receive. No combination makes the negotiation fail.")
    a = Answer(ctx, q)
    if not a.ok:
        return
    tab = {"SendRecv": (1, 1), "SendOnly": (1, 0), "RecvOnly": (0, 1), "Inactive": (0, 0), None: (1, 1)}
    word = {(1, 1): "sendrecv", (1, 0): "sendonly", (0, 1): "recvonly", (0, 0): "inactive"}
    n = 0
    if not any(dir_terms(q, leaf_facts(q, te.ev), lambda c: True) for te in tree(q, a.fn, lambda ev: ev.kind == "call" and ev.name.endswith("MediaDescription::with_direction"))):
        # the first direction attribute is looked for by a loop of its own
        loops = {g.id for g in q.p.fns.values() if g.crate == CR and g.argc == 1 and str(g.lty(0)).endswith("Option<sip_sdp::negotiate::Direction>") and first_direction(q, g)}
        q = Q(ctx, only={CR}, opaque=loops)
        a = Answer(ctx, q)
    for te in tree(q, a.fn, lambda ev: ev.kind == "call" and ev.name.endswith("MediaDescription::with_direction")):
        n += 1
        # decide in the function that sets the direction, under each assumption about the two attributes
        f0, sub = te.ev.fn, te.sub or (lambda t: t)
        every = leaf_facts(q, te.ev)
        found = dir_terms(q, every, lambda c: c.op == "field" and c.a[1] == "attributes")
        od = {t for t in found if a.elem(iter_base(cargs(sub(t))[0]).a[0])}
        ld = {t for t in found if sdp_local(q, a, iter_base(cargs(sub(t))[0]).a[0])}
        if not ctx.check(len(od) == 1 and len(ld) == 1, "found", te.where(), "the answer's direction is not decided by the first attribute called sendrecv, sendonly, recvonly or inactive of the offered and of the local m-line"):
            continue
        od, ld = od.pop(), ld.pop()
        for x in (None,) + DIRS:
            for y in (None,) + DIRS:
                ctx.count("direction pairs")
                want = word[(tab[x][1] & tab[y][0], tab[x][0] & tab[y][1])]
                h = frozenset()
                for t, d in ((od, x), (ld, y)):
                    h = q.e.add_fact(h, is_(t, "Some" if d else "None"), True)
                    if d:
                        h = q.e.add_fact(h, is_(proj(t, ("v", "Some", "0")), d), True)
                s = q.under(f0, h)
                got = set()
                for ev in s.events:
                    if ev.kind == "call" and ev.name.endswith("MediaDescription::with_direction"):
                        got |= {v for v, fs in leaves(q, ev.args[1], ev.facts) if not dead(q, fs)}
                ctx.check(got == {mk("str", want)}, f"dir:{x}:{y}", te.where(), f"an offer with direction {x or 'none'} against local {y or 'none'} is answered {' or '.join(sorted(v.a[0] if v.op == 'str' else show(v) for v in got)) or 'with no direction'} instead of {want}")
                for o in s.outcomes:
                    for v, fs in leaves(q, o.ret, o.facts):
                        if v.op == "adt" and v.a[1] == "Err":
                            for z, gs in leaves(q, v.a[3], fs):
                                ctx.check(not (z.op == "adt" and z.a[1] == "IncompatibleDirection" and not dead(q, gs)), f"fails:{x}:{y}", te.where(), f"an offer with direction {x or 'none'} against local {y or 'none'} makes the whole negotiation fail")
    ctx.check(n > 0, "set", a.w, "the answer's direction is not set with MediaDescription::with_direction")
    ctx.floor("direction pairs", 25)


def reads_direction(q, f):
    """f maps a=sendrecv etc. to the direction of that name and everything else to None"""
    g = q.p.fn(f.a[0]) if f.op in ("fn", "closure") else None
    if g is None:
        return False
    s = q.e.summary(g)
    arg = mk("arg", 1 if f.op == "fn" else 2)
    found = set()
    for o in s.outcomes:
        for v, fs in leaves(q, o.ret, o.facts):
            if q.close(fs) is None or v.op == "adt" and v.a[1] == "None":
                continue
            if not (v.op == "adt" and v.a[1] == "Some"):
                return False
            for d, gs in leaves(q, v.a[3], fs):
                h = q.close(gs)
                if h is None:
                    continue
                if d.op != "adt" or not d.a[1]:
                    return False
                name = proj(arg, ("v", "Property", "0"))
                if not holds(q, h, lambda k: str_exact(k, name, d.a[1].lower())):
                    return False
                found.add(d.a[1])
    return found == set(DIRS)


def str_exact(k, t, lit_):
    for f, b in k:
        if b and f.op == "bin" and f.a[0] == "Eq":
            for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                if y is mk("str", lit_) and conv(x) is t:
                    return True
    return False


RTP = ("RtpAvp", "RtpSavp", "RtpSavpf", "UdpTlsRtpSavpf", "TcpTlsRtpSavpf")


def number(t):
    """the text whose number t is"""
    while t.op == "call" and t.a[0].startswith("cast:"):
        t = t.a[1]
    if t.op == "vf" and t.a[1] == "Ok" and short(t.a[0]).startswith("parse:"):
        return conv(cargs(t.a[0])[0])
    return None


def equal(k, p):
    """some fact of k is an equality whose sides satisfy p, in either order"""
    return any(b and f.op == "bin" and f.a[0] == "Eq" and (p(f.a[1], f.a[2]) or p(f.a[2], f.a[1])) for f, b in k)


def s05(ctx):
    q = Q(ctx, only={CR})
    ctx.rule("Every format of an accepted m-line is a format of the offered m-line, taken in the order of the offer, and the facts on the way show that the matched local m-line supports it: for an RTP protocol a number below 96 that is the number of a local format, or a number whose offered rtpmap has, in the local rtpmaps of a listed payload type, one with the same encoding name (ASCII case ignored), clock rate and parameters; for another protocol a local format with the same text. An accepted m-line has at least one format. A rejected m-line's formats are the offered ones (or the placeholder 0).")
    a = Answer(ctx, q)
    if not a.ok:
        return
    seen = set()
    for prev, item, fs, m in a.lines:
        for pair, h0 in states(q, mk("tuple", F(item, "port"), F(item, "formats")), fs):
            formats(ctx, q, a, item, *pair.a, h0, seen)
    ctx.floor("supported formats", 2)


def fresh_list(t):
    return t.op == "call" and t.a[0].split("::")[-1] in ("new", "with_capacity", "default")


def formats(ctx, q, a, item, port, fmts, h0, seen):
    """the formats of an answered m-line"""
    if True:
        for z, h in assigned(q, fmts, h0):
            h = q.close(h)
            if h is None:
                continue
            if port is mk("int", 0):
                x = z
                if x.op in ("post", "ipost") and x.a[0] == "Vec::push":
                    x, y = cargs_post(x)
                    ctx.check(conv(y) is mk("str", "0"), "placeholder", a.w, "a format that was not offered is added to a rejected m-line")
                none = fresh_list(x) and any(holds(q, h, lambda k: no_items(k, f)) for f in offered_lists(a, h))
                ctx.check(none or x.op == "field" and x.a[1] == "formats" and a.elem(x.a[0]), "echo", a.w, "a rejected m-line need not carry the offered formats")
                ctx.count("rejected format lists")
                continue
            if fresh_list(z):
                continue
            if not ctx.check(z.op in ("post", "ipost") and z.a[0] == "Vec::push", "list", a.w, "the formats of an accepted m-line are not built by adding one after the other to an empty list"):
                continue
            pv, y = cargs_post(z)
            s = loop_elem(q, conv(y), h)
            if (pv, y) in seen:
                continue
            seen.add((pv, y))
            if s is not None and s[0] is not F(a.offer, "formats") and len(s[1]) == 1:
                # through a list of what was found to be common
                col, name = s[0], s[1][0]
                ctx.check(pv.op in ("phi", "field"), "one", a.w, "more than one format is added for a common one")
                got = 0
                for c, cs in assigned(q, col, frozenset()):
                    g = q.close(cs)
                    if g is None or fresh_list(c):
                        continue
                    added = None
                    if short(c) == "Iterator::collect":
                        added = cargs(c)[0]
                    elif c.op in ("post", "ipost") and c.a[0] == "Extend::extend" and all(fresh_list(v) for v, j in assigned(q, cargs_post(c)[0], g)):
                        added = cargs_post(c)[1]
                    if added is not None:
                        it = mk("bound", 3)
                        base, items = stream(q, added, it)
                        for gs, e in items or ():
                            got += 1
                            e = conv(F(e, name))
                            if ctx.check(e is it and base.op == "field" and base.a[1] == "formats" and a.elem(base.a[0]), "offered", a.w, "a format of the answer need not be one of those offered, in the order of the offer"):
                                supported(ctx, q, a, base.a[0], e, join_facts(q, g, gs))
                        continue
                    if not ctx.check(c.op in ("post", "ipost") and c.a[0] == "Vec::push", "common", a.w, "the list of common formats is not built by adding one after the other to an empty list"):
                        continue
                    got += 1
                    pc, e = cargs_post(c)
                    ctx.check(pc.op in ("phi", "field"), "order", a.w, "more than one common format is added for an offered one")
                    common(ctx, q, a, conv(F(e, name)), g)
                ctx.check(got > 0, "common", a.w, "the list of common formats is not built by adding to it")
                ctx.check(holds(q, h, lambda k: nonempty(k, col)), "empty", a.w, "an m-line can be accepted without any format")
            else:
                common(ctx, q, a, conv(y), h)


def offered_lists(a, facts):
    """the format lists of an offered m-line that the facts speak about"""
    return {t for f, b in facts for t in subterms(f) if t.op == "field" and t.a[1] == "formats" and a.elem(t.a[0])}


def no_items(k, col):
    n = simp_call("len", (col,))
    for f, b in k:
        if f.op == "bin" and n in f.a[1:] and (f.a[0] == "Eq" and mk("int", 0) in f.a[1:] and b or f.a[0] == "Lt" and f.a[2] is mk("int", 1) and b):
            return True
        if f.op in ("call", "icall") and short(f).endswith("is_empty") and cargs(f)[0] is col and b:
            return True
    return False


def nonempty(k, col):
    n = simp_call("len", (col,))
    for f, b in k:
        if f.op == "bin" and n in f.a[1:] and (f.a[0] == "Eq" and mk("int", 0) in f.a[1:] and not b or f.a[0] == "Lt" and f.a[1] is mk("int", 0) and b or f.a[0] == "Le" and f.a[1].op == "int" and f.a[1].a[0] >= 1 and b):
            return True
        if f.op in ("call", "icall") and short(f).endswith("is_empty") and cargs(f)[0] is col and not b:
            return True
    return False


def common(ctx, q, a, x, g):
    """x, added under the facts g, is a format of the offered m-line that the local m-line supports"""
    s = loop_elem(q, x, g)
    if not ctx.check(s is not None and s[1] == () and s[0].op == "field" and s[0].a[1] == "formats" and a.elem(s[0].a[0]), "offered", a.w, "a format of the answer need not be one of those offered, in the order of the offer"):
        return
    supported(ctx, q, a, s[0].a[0], x, g)


def supported(ctx, q, a, off, x, g):
    ctx.count("supported formats")

    def local(t):
        return t.op == "field" and t.a[1] in ("formats", "rtpmaps") and sdp_local(q, a, t.a[0])

    def protocol(k):
        for f, b in k:
            if f.op == "is" and f.a[0].op == "field" and f.a[0].a[1] == "protocol" and (a.elem(f.a[0].a[0]) or sdp_local(q, a, f.a[0].a[0])):
                yield f.a[1], b

    def same_number(k, depth):
        return any(f.op == "bin" for f, b in k) and exists(q, k, lambda c: local(c) and c.a[1] == "formats", lambda e, j: equal(j, lambda y, z: number(y) is conv(e) and number(z) is x), depth)

    def static(k):
        p = mk_bound(k, x)
        return p and same_number(k, 0)

    def dynamic(k):
        def match(e, j):
            for m in (e, F(e, "1")):
                def o(y, n):
                    # the offered rtpmap of this payload type
                    if y.op != "field" or y.a[1] != n:
                        return False
                    y = conv(y.a[0])
                    if y.op == "vf" and y.a[1] == "Some":
                        y = y.a[0]
                    return short(y).split("::")[-1] == "get" and cargs(y)[0] is F(off, "rtpmaps") and number(conv(cargs(y)[1])) is x
                name = any(b and f.op in ("call", "icall") and "ignore_ascii_case" in short(f) and any(o(conv(u), "encoding_name") and conv(v) is F(m, "encoding_name") for u, v in (cargs(f)[:2], cargs(f)[1::-1])) for f, b in j) or \
                    equal(j, lambda u, v: o(conv(strip_case(u)), "encoding_name") and conv(strip_case(v)) is F(m, "encoding_name"))
                if not name or not all(equal(j, lambda u, v: o(u, n) and v is F(m, n)) for n in ("clock_rate", "encoding_params")):
                    continue
                pts = [F(m, "payload_type")] + ([F(e, "0")] if m is not e else [])
                if exists(q, j, lambda c: local(c) and c.a[1] == "formats", lambda e2, i: equal(i, lambda u, v: number(u) is conv(e2) and v in pts), 1):
                    return True
            return False
        return exists(q, k, lambda c: local(c) and c.a[1] == "rtpmaps", match, 0)

    def text(k):
        ps = set(protocol(k))
        if any((v, True) in ps for v in RTP) or not (all((v, False) in ps for v in RTP) or any(b and v not in RTP for v, b in ps)):
            return False
        return exists(q, k, lambda c: local(c) and c.a[1] == "formats", lambda e, j: equal(j, lambda u, v: conv(u) is conv(e) and conv(v) is x), 0)
    ctx.check(holds(q, g, lambda k: static(k) or dynamic(k) or text(k)), "supported", a.w, "an offered format can be accepted although the local m-line does not support it")


def mk_bound(k, x):
    """k bounds the payload type x stands for below 96"""
    for f, b in k:
        if f.op == "bin" and len(f.a) == 3:
            l, r = f.a[1], f.a[2]
            if number(l) is x and r.op == "int" and b and (f.a[0] == "Lt" and r.a[0] <= 96 or f.a[0] == "Le" and r.a[0] <= 95):
                return True
            if number(r) is x and l.op == "int" and not b and (f.a[0] == "Le" and l.a[0] <= 96 or f.a[0] == "Lt" and l.a[0] <= 95):
                return True
    return False


RULES = {"S02": s02, "S03": s03, "S04": s04, "S05": s05}


TEXT = (
    "v={S.version}\n"
    "o={S.origin.username} {S.origin.session_id} {S.origin.session_version} {S.origin.net_type} {S.origin.addr_type} {S.origin.unicast_address}\n"
    "s={S.session_name}\n"
    "(S.session_info? i={S.session_info}\n)"
    "(S.uri? u={S.uri}\n)"
    "(S.email? e={S.email}\n)"
    "(S.phone? p={S.phone}\n)"
    "(S.connection? c={S.connection.net_type} {S.connection.addr_type} {S.connection.connection_address}\n)"
    "*[S.bandwidth: b={S.bandwidth[].bw_type}:{S.bandwidth[].bandwidth}\n]"
    "(is_empty(S.times)? t=0 0\n)"
    "*[S.times: t={S.times[].start_time} {S.times[].stop_time}\n"
    "*[S.times[].repeats: r={S.times[].repeats[].repeat_interval} {S.times[].repeats[].active_duration}*[S.times[].repeats[].offsets:  {S.times[].repeats[].offsets[]}]\n]]"
    "(is_empty(S.time_zones)?  | z=*[S.time_zones: {S.time_zones[].adjustment_time} {S.time_zones[].offset} by ' ']\n)"
    "(S.encryption_key? k={S.encryption_key}\n)"
    "*[S.attributes: a=(S.attributes[] is Property? {S.attributes[].Property} | S.attributes[] is Value? {S.attributes[].Value.name}:{S.attributes[].Value.value})\n]"
    "*[S.media: m={S.media[].media_type} {S.media[].port}(S.media[].num_ports? /{S.media[].num_ports}) {S.media[].protocol}(is_empty(S.media[].formats)?  0 | *[S.media[].formats:  {S.media[].formats[]}])\n"
    "(S.media[].title? i={S.media[].title}\n)"
    "(S.media[].connection? c={S.media[].connection.net_type} {S.media[].connection.addr_type} {S.media[].connection.connection_address}\n)"
    "*[S.media[].bandwidth: b={S.media[].bandwidth[].bw_type}:{S.media[].bandwidth[].bandwidth}\n]"
    "(S.media[].encryption_key? k={S.media[].encryption_key}\n)"
    "*[S.media[].attributes: a=(S.media[].attributes[] is Property? {S.media[].attributes[].Property} | S.media[].attributes[] is Value? {S.media[].attributes[].Value.name}:{S.media[].attributes[].Value.value})\n]]"
).replace("\n", "\r\n")


def text_of(q, fn, arg=None):
    """what fn writes, in normal form: its result, or what it adds to its argument number arg"""
    sk = skel.Skel(q, stream)
    alts = []
    for o in q.e.summary(fn).outcomes:
        v = o.mem.get(("A", arg)) if arg else o.ret
        if v is None:
            return None
        alts.append((o.facts, sk.seq(v, frozenset(), None, 0)))
    names = {i: "a%d" % i for i in range(9)}
    names[1] = "S"
    return skel.Canon(q, names, conv).text(skel.norm(skel.factor(sk, alts)))


def differs(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return i


def s06(ctx):
    q = Q(ctx, only={CR})
    ctx.rule("the text built by serialize_sdp, SessionDescription::serialize and its Display impl, reduced to one normal form over the fields of the description, is the RFC 8866 layout: every field once, "
             "in order, absent optional fields without a line, and each line ended by CR LF")
    n = 0
    for suf, arg in (("serialize::serialize_sdp", None), ("SessionDescription::serialize", None), ("SessionDescription as core::fmt::Display>::fmt", 2)):
        fns = [f for f in q.fns(suf, CR)]
        ctx.check(len(fns) == 1, "writer-" + suf.split("::")[-1].split(">")[0] + str(arg or ""), CR, f"{suf} is there")
        for fn in fns[:1]:
            try:
                t = text_of(q, fn, arg)
            except skel.Unknown as e:
                ctx.violation("text-" + fn.id.split("::")[-1], where(fn), f"the text it writes has no closed form: {str(e)[:160]}")
                continue
            if arg and t is not None and t.startswith("{a2}"):
                t = t[4:]
            n += 1
            if t == TEXT:
                ctx.ok()
                continue
            i = differs(t or "", TEXT)
            ctx.violation("text-" + fn.id.split("::")[-1], where(fn), f"writes {(t or '')[max(0, i - 20):i + 80]!r} where {TEXT[max(0, i - 20):i + 80]!r} belongs")
    ctx.count("writers", n)
    ctx.count("template segments", TEXT.count("{"))
    ctx.floor("writers", 3)


RULES["S06"] = s06



# ------------------------------------------------------------------ what a parsed text becomes
def parsed(ctx, q):
    """the Ok outcomes of parse_sdp_with_limits: [(description, facts)]"""
    fn = q.one("parse::parse_sdp_with_limits", CR)
    return fn, [(proj(o.ret, ("v", "Ok", "0")), o.facts) for o in q.e.summary(fn).outcomes if not (o.ret.op == "adt" and o.ret.a[1] == "Err")]


def way_leaves(q, t, facts=frozenset(), depth=24, top=None):
    """the values t can have, loop variables left as they are, each with all that is known on the way"""
    if t.op == "phi" and depth and not q.is_head(q.site(t)):
        for x, fs in q.e.phi_ways(t):
            yield from way_leaves(q, x, frozenset(facts) | frozenset(fs), depth - 1, top)
    elif t.op == "phi" and depth and top is not None and q.site(t) != top and all(same_var(x, t) for x, _ in q.e.phi_edges(t)):
        # an inner loop leaves it alone
        for x, fs in q.e.phi_inputs(t).items():
            if not same_var(x, t):
                yield from way_leaves(q, x, frozenset(facts) | frozenset(fs), depth - 1, top)
    else:
        yield t, frozenset(facts)


def same_var(x, ph):
    """loop variables of the same loop that are one variable in the code"""
    return x.op == "phi" and x.a[1] == ph.a[1] and x.a[0][-1][:2] == ph.a[0][-1][:2] and x.a[0][:-1] == ph.a[0][:-1]


def settled(q, t, top, depth=6):
    """t with the variables that inner loops carry and leave alone put as what they were before those loops"""
    env = {}
    for x in list(subterms(t)):
        if x.op == "phi" and q.is_head(q.site(x)) and q.site(x) != top:
            outside = {y for y in q.e.phi_inputs(x) if not same_var(y, x)}
            if len(outside) == 1 and all(same_var(y, x) for y, _ in q.e.phi_edges(x)):
                env[x] = next(iter(outside))
    return settled(q, gram.put(t, env), top, depth - 1) if env and depth else t


def pushed(v):
    """(list, item) when v is the list with an item added to its end"""
    return v.a[-2:] if v.op in ("post", "ipost") and v.a[0] == "Vec::push" else None


def added(v):
    """(list, what its items are appended from)"""
    return v.a[-2:] if v.op in ("post", "ipost") and short_name(v).split("::")[-1] in ("extend", "append", "extend_from_slice") else None


def one_by_one(q, v):
    """(list, where the items come from) when v is the list with every item of another one pushed in turn"""
    if v.op != "phi" or not q.is_head(q.site(v)):
        return None
    start = [x for x in q.e.phi_inputs(v) if not q.carried(x, v)]
    base = set()
    for x, fs in q.e.phi_edges(v):
        for y, f in way_leaves(q, x, fs, top=q.site(v)):
            p = pushed(y)
            if p is None or not same_var(p[0], v) or not (p[1].op == "vf" and p[1].a[1] == "Some" and p[1].a[0].op == "call" and p[1].a[0].a[0] == "Iterator::next"):
                return None
            it = p[1].a[0].a[-1]
            for z in q.e.phi_inputs(it) if it.op == "phi" and q.site(it) == q.site(v) else (None,):
                if z is None:
                    return None
                if z.op == "post" and z.a[0] == "Iterator::next":
                    continue
                while z.op == "call" and short(z).split("::")[-1] in ("iter", "into_iter") and len(z.a) == 2:
                    z = z.a[1]
                base.add(z)
    return (start[0], next(iter(base))) if len(start) == 1 and len(base) == 1 else None


def fresh(v):
    return v.op == "adt" and v.a[1] == "None" or v.op == "array" and not v.a or v.op == "call" and short(v).split("::")[-1] in ("new", "with_capacity", "default") and len(v.a) <= 2


class Walk:
    """a loop over a list"""

    def __init__(self, q, base):
        self.q, self.base, self.memo = q, base, {}

    def over(self, ph):
        """ph is the iterator of a walk over the whole list"""
        if ph not in self.memo:
            seen, work, ok = set(), [ph], False
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "phi":
                    work += list(self.q.e.phi_inputs(x))
                elif x.op == "post" and x.a[0] == "Iterator::next":
                    work.append(x.a[2])
                else:
                    while x.op == "call" and short(x).split("::")[-1] in ("iter", "into_iter") and len(x.a) == 2:
                        x = x.a[1]
                    if x is not self.base:
                        ok = False
                        break
                    ok = True
            self.memo[ph] = ok
        return self.memo[ph]

    def item(self, x):
        """the iterator when x is the element of the current round"""
        if x.op == "vf" and x.a[1] == "Some" and x.a[0].op == "call" and x.a[0].a[0] == "Iterator::next" and self.over(x.a[0].a[-1]):
            return x.a[0].a[-1]
        return None

    def before(self, a, b):
        """the iterator a is one that b can have been, and not the other way round"""
        def past(x):
            seen, work = set(), [x]
            while work:
                y = work.pop()
                if y not in seen:
                    seen.add(y)
                    work += list(self.q.e.phi_inputs(y)) if y.op == "phi" else [y.a[2]] if y.op == "post" else []
            return seen
        return a in past(b) and b not in past(a)

    def now(self, c):
        """the elements whose round the facts c are of"""
        out = set()
        for t, b in c:
            if b and t.op == "is" and t.a[1] == "Some":
                x = mk("vf", t.a[0], "Some", "0")
                if self.item(x) is not None:
                    out.add(x)
        return out

    def rounds(self, ph):
        """(element, state, value, facts) of everything a round can leave in the loop variable ph"""
        for x, fs in self.q.e.phi_edges(ph):
            for v, f in way_leaves(self.q, x, fs, top=self.q.site(ph)):
                c = self.q.close(f)
                if c is None:
                    continue
                its = self.now(c)
                # the last of them: the walk has not gone past it
                its = [x for x in its if not any(y is not x and self.before(x.a[0].a[-1], y.a[0].a[-1]) for y in its)]
                it = its[0] if len(its) == 1 else None
                yield it, it.a[0].a[-1].a[0] if it is not None and it.a[0].a[-1].op == "phi" else None, v, c

    def var(self, ph, state):
        """the variable ph in another state of the loop; None when it still is what it was before the loop"""
        if state is None:
            return None
        if ph.a[0] == state:
            return ph
        y = mk("phi", state, ph.a[1])
        return y if y in self.q.e.phi_in or y in self.q.e.phi_sub else None


def collected(q, t):
    """(base list, [(facts, value of an item)], item) of a list made of another one, one item for each"""
    if t.op == "vf" and t.a[1] == "Ok":
        t = t.a[0]
    if t.op == "call" and short(t).split("::")[-1] == "collect" and len(t.a) == 2:
        x = t.a[1]
        if x.op in ("call", "icall") and short(x).split("::")[-1] == "map":
            b, clo = cargs(x)
            while b.op == "call" and short(b).split("::")[-1] in ("iter", "into_iter") and len(b.a) == 2:
                b = b.a[1]
            it = mk("sym", "item")
            rs = apply_fn(q, clo, [it])
            if rs is None:
                return None
            return b, [(f, proj(v, ("v", "Ok", "0")) if v.op == "adt" and v.a[1] == "Ok" else v) for f, v in rs if not (v.op == "adt" and v.a[1] == "Err")], it
    if t.op == "phi" and q.is_head(q.site(t)):
        out, base, item = [], None, None
        if not any(fresh(x) for x in q.e.phi_inputs(t)):
            return None
        for x, fs in q.e.phi_edges(t):
            for v, f in way_leaves(q, x, fs, top=q.site(t)):
                c = q.close(f)
                if c is None:
                    continue
                p = pushed(v)
                p = p and tuple(settled(q, y, q.site(t)) for y in p)
                its = {y for y in subterms(p[1]) if y.op == "call" and y.a[0] == "Iterator::next" and q.site(y.a[-1]) == q.site(t)} if p else ()
                if p is None or not (same_var(p[0], t) or fresh(p[0])) or len(its) != 1:
                    return None
                nx = next(iter(its))
                it = nx.a[-1]
                z = [y for y in (settled(q, y, q.site(t)) for y in q.e.phi_inputs(it)) if not (y.op == "post" and y.a[0] == "Iterator::next")] if it.op == "phi" else []
                for y in z:
                    while y.op == "call" and short(y).split("::")[-1] in ("iter", "into_iter") and len(y.a) == 2:
                        y = y.a[1]
                    if base is not None and y is not base:
                        return None
                    base = y
                out.append((c, p[1], mk("vf", nx, "Some", "0")))
        if base is None:
            return None
        if len({i for c, v, i in out}) == 1:
            return base, [(c, v) for c, v, i in out], out[0][2]
        sym = mk("sym", "item")
        return base, [(frozenset((swap(x, i, sym), b) for x, b in c), swap(v, i, sym)) for c, v, i in out], sym
    return t, [(frozenset(), mk("sym", "item"))], mk("sym", "item")


ONCE = {"v": "version", "o": "origin", "s": "session_name", "u": "uri", "e": "email", "p": "phone"}
BOTH = {"i": ("session_info", "title"), "c": ("connection", "connection"), "k": ("encryption_key", "encryption_key"), "b": ("bandwidth", "bandwidth"), "a": ("attributes", "attributes")}


class Lines:
    """how a text becomes lines and lines become a description"""

    def __init__(self, q, desc, facts):
        import gram
        self.q, self.desc, self.kinds, self.ways, self.text = q, desc, {}, {}, None
        self.why = "no parser is applied to the text"
        for t, b in sorted(facts, key=lambda z: z[0].id):
            if b and t.op == "is" and t.a[1] == "Ok":
                g = gram.Gram(q)
                ap = g.applied(t.a[0])
                if ap is None or ap[1] is not mk("arg", 1):
                    continue
                try:
                    self.alts = g.parser(ap[0])
                except gram.Unknown as e:
                    self.why = str(e)
                    continue
                self.text = t.a[0]
                r = proj(t.a[0], ("v", "Ok", "0"))
                self.rest, self.lines = proj(r, ("f", "0")), proj(r, ("f", "1"))
        if self.text is None:
            return
        for seg in self.alts[0][0] if len(self.alts) == 1 and len(self.alts[0][0]) == 1 else ():
            if seg[0] in ("many0", "many1"):
                for s, v, f in seg[2]:
                    k, c = None, v
                    if v.op == "made":
                        k, c = v.a[0].split("::")[-1], v.a[1]
                    elif v.op == "adt" and v.a[1] is not None and len(v.a) == 4:
                        k, c = v.a[1], v.a[3]
                    tag = s[0][1][0] if s and s[0][0] == "lit" and len(s[0][1]) > 1 and s[0][1][1] == "=" else None
                    self.kinds.setdefault(tag, set()).add(k)
                    self.ways.setdefault(tag, []).append((s, c, f))
        self.walk = Walk(q, self.lines)

    def kind(self, tag):
        ks = self.kinds.get(tag, ())
        return next(iter(ks)) if len(ks) == 1 else None

    def content(self, x, tag):
        """x is the content of the current line, which is one of tag's"""
        x = conv(x)
        return x.op == "vf" and x.a[2] == "0" and x.a[1] == self.kind(tag) and self.walk.item(x.a[0]) is not None


def s07(ctx):
    q = Q(ctx, only={CR})
    ctx.rule("for each loop variable behind a field of the description parse_sdp_with_limits returns, every way through a round of its loop over the parsed lines either files the line as its tag says "
             "(session field, open media description or current time description) under exactly that condition, or leaves the variable as it was; the media and time lists get the open one when the "
             "next begins and at the end")
    fn, outs = parsed(ctx, q)
    w = where(fn)
    ctx.check(bool(outs), "ok", w, "parse_sdp_with_limits can accept a text")
    for desc, facts in outs:
        L = Lines(q, desc, facts)
        if not ctx.check(L.text is not None, "lines", w, "the lines of the text are not parsed as one list: " + L.why):
            continue
        tags = list(ONCE) + list(BOTH) + ["t", "r", "z", "m"]
        for t in tags:
            ctx.check(L.kind(t) is not None, "kind-" + t, w, f"no one kind of line is made of {t}= lines")
        ctx.check(len({L.kind(t) for t in tags}) == len(tags), "kinds", w, "two tags make lines of the same kind")
        F = lambda n: proj(desc, ("f", n))
        # the open media description and the current time description: what the lists get after the last line
        over = {}
        for n in ("media", "times"):
            t, conversion = F(n), None
            if n == "media":
                conversion = collected(q, t)
                if not ctx.check(conversion is not None, "media-made", w, "the media descriptions are not made one for each media block"):
                    continue
                t = conversion[0]
            cells = set()
            lists = set()
            for v, f in way_leaves(q, t, facts):
                p = pushed(v) or added(v)
                if p is not None and (p[1].op == "vf" and p[1].a[1] == "Some" or p[1].op == "phi"):
                    cells.add(p[1].a[0] if p[1].op == "vf" else p[1])
                    lists.add(p[0])
                elif v.op == "phi":
                    lists.add(v)
            if not ctx.check(cells and lists and all(x.op == "phi" and same_var(x, y) for z in (cells, lists) for x in z for y in z), n + "-end", w, f"the last of the {n} is not added after the last line"):
                continue
            cell, lst = min(cells, key=lambda z: z.id), min(lists, key=lambda z: z.id)
            over[n] = (lst, cell, conversion)
            for v, f in way_leaves(q, t, facts):
                c = q.close(f)
                if c is not None and pushed(v) is None and added(v) is None:
                    last = L.walk.var(cell, v.a[0]) if v.op == "phi" else None
                    ctx.check(last is None or holds(q, c, lambda h: (mk("is", last, "None"), True) in h), n + "-last", w, f"the last of the {n} can be left out")
        if len(over) < 2:
            continue
        media, cm, conversion = over["media"]
        times, ct, _ = over["times"]
        fields = {}
        for f, v in conversion[1]:
            if ctx.check(v.op == "adt", "media-built", w, "what a media description is made of is known"):
                for n in v.a[2]:
                    x = proj(v, ("f", n))
                    fields.setdefault(n, set()).add(x.a[1] if x.op == "field" and x.a[0] is conversion[2] else None)
        W = L.walk

        def state(cell, st, h):
            """True when the cell is filled, False when empty, None when not known"""
            x = W.var(cell, st)
            if x is None:
                return False
            return True if (mk("is", x, "Some"), True) in h else False if (mk("is", x, "None"), True) in h else None

        def expect(ph, plan, name):
            """plan: [(tag, condition (cell, filled) or None, test of the new value)]"""
            n = 0
            for it, st, v, c in W.rounds(ph):
                n += 1
                if not ctx.check(it is not None, "round-" + name, w, f"{name} can change outside of the walk over the lines"):
                    continue
                was = W.var(ph, st)
                hit = [(t, cond) for t, cond, is_ in plan if is_(v, was)]
                if hit:
                    t, cond = hit[0]
                    ctx.check(holds(q, c, lambda h: (mk("is", it, L.kind(t)), True) in h and (cond is None or state(cond[0], st, h) is cond[1])), "set-" + name, w,
                              f"{name} takes a line that belongs elsewhere")
                    continue
                kept = was is not None and v is was or was is None and fresh(v) or v.op == "adt" and v.a[1] == "None" and was is not None and holds(q, c, lambda h: (mk("is", was, "None"), True) in h)
                if not ctx.check(kept, "value-" + name, w, f"{name} becomes {show(v, 0, 4)[:140]}, which no line says"):
                    continue
                for t, cond, is_ in plan:
                    h = q.e.add_fact(c, mk("is", it, L.kind(t)), True)
                    h = h is not None and q.close(h)
                    if h:
                        ctx.check(cond is not None and holds(q, h, lambda j: state(cond[0], st, j) is (not cond[1])), f"lost-{name}-{t}", w, f"a {t}= line can be dropped that {name} should get")
            ctx.check(n > 0, "never-" + name, w, f"{name} is never set")
            ctx.count("ways through a round", n)

        def is_set(t):
            return lambda v, was: v.op == "adt" and v.a[1] == "Some" and L.content(v.a[3], t)

        def is_push(t):
            def f(v, was):
                p = pushed(v)
                return p is not None and (p[0] is was or was is None and fresh(p[0])) and L.content(p[1], t)
            return f

        def is_part(n, t, lst):
            """the block in the cell with field n set"""
            def f(v, was):
                if was is None or v.op != "upd" or v.a[0] is not was or v.a[1] != ("v", "Some", "0"):
                    return False
                b, u = proj(was, ("v", "Some", "0")), v.a[2]
                if u.op != "upd" or u.a[0] is not b or u.a[1] != ("f", n):
                    return False
                if not lst:
                    return is_set(t)(u.a[2], None)
                p = pushed(u.a[2])
                return p is not None and p[0] is proj(b, ("f", n)) and L.content(p[1], t)
            return f

        def is_next(cell):
            def f(v, was):
                p, x = pushed(v), added(v)
                if x is not None:
                    return (x[0] is was or was is None and fresh(x[0])) and same_var(x[1], cell)
                return p is not None and (p[0] is was or was is None and fresh(p[0])) and p[1].op == "vf" and p[1].a[1] == "Some" and same_var(p[1].a[0], cell)
            return f

        def is_added(t):
            def f(v, was):
                p = added(v) or one_by_one(q, v)
                return p is not None and (p[0] is was or was is None and fresh(p[0])) and L.content(p[1], t)
            return f
        head = {}
        for t, n in list(ONCE.items()) + [(t, ns[0]) for t, ns in BOTH.items()] + [("z", "time_zones")]:
            x = F(n)
            x = held_in(q, x, facts)
            if ctx.check(x.op == "phi" and q.is_head(q.site(x)), "held-" + n, w, f"{n} is not what the walk over the lines left"):
                expect(x, [(t, (cm, False) if t in BOTH else None, (is_push if t in "ba" else is_added if t == "z" else is_set)(t))], n)
                head[n] = x
        ctx.check(len(set(head.values())) == len(head), "apart", w, "two fields are the same variable")
        plan = [("m", None, is_set("m"))]
        for t, (_, n) in BOTH.items():
            own = fields.get(n, set())
            if ctx.check(len(own) == 1 and None not in own, "own-" + n, w, f"the {n} of a media description is not its own"):
                plan.append((t, (cm, True), is_part(next(iter(own)), t, t in "ba")))
        expect(cm, plan, "open media")
        expect(ct, [("t", None, is_set("t")), ("r", (ct, True), is_part("repeats", "r", True))], "current time")
        expect(media, [("m", (cm, True), is_next(cm))], "media")
        expect(times, [("t", (ct, True), is_next(ct))], "times")
        # an r= line without a t= line before it is refused
        for it, st, v, c in W.rounds(ct):
            if it is not None and (W.var(ct, st) is v or fresh(v)):
                h = q.e.add_fact(c, mk("is", it, L.kind("r")), True)
                ctx.check(h is None or q.close(h) is None, "r-first", w, "an r= line without a time description before it is dropped silently")
        for n in ("media_type", "port", "num_ports", "protocol", "formats"):
            own = fields.get(n, set())
            ctx.check(len(own) == 1 and None not in own, "own-" + n, w, f"the {n} of a media description is not its own")
        names = [next(iter(v)) for k, v in fields.items() if v != {None}]
        ctx.check(len(set(names)) == len(names), "own-apart", w, "two fields of a media description are made of the same one")
    ctx.count("descriptions", len(outs))
    ctx.floor("ways through a round", 300)


RULES["S07"] = s07


def heads(q, fn):
    """the counters (from zero) of the loops of fn and of what it calls, as seen from fn"""
    own = {}
    for n in list(q.e.phi_in):
        if n.op == "phi" and len(n.a[0]) == 1 and q.is_head(q.site(n)) and Int(0) in q.e.phi_inputs(n):
            own.setdefault(n.a[0][0][0], []).append(n)
    out, seen = set(own.get(fn.id, ())), {(fn.id, ())}
    for te in tree(q, fn, lambda ev: ev.fn.id in own):
        k = (te.ev.fn.id, te.path[-1][1] if te.path else ())
        if k not in seen:
            seen.add(k)
            out |= {te.sub(n) if te.sub else n for n in own[te.ev.fn.id]}
    return sorted(out, key=lambda n: n.id)


def origin(q, it):
    """the list an iterator goes over"""
    seen, work, out = set(), [it], set()
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            work += list(q.e.phi_inputs(x))
        elif x.op == "post" and x.a[0] == "Iterator::next":
            work.append(x.a[2])
        else:
            out.add(iter_base(x))
    return next(iter(out)) if len(out) == 1 else None


def count_bound(q, lines, limit, fn):
    """what is wrong with the loop that counts the non-empty ones of the lines against the limit; None when right"""
    why = "no loop over the lines counts them"
    for n in heads(q, fn):
        start = [x for x in q.e.phi_inputs(n) if not q.carried(x, n)]
        if start != [Int(0)]:
            continue
        good, seen = True, False
        for x, fs in q.e.phi_edges(n):
            for v, f in way_leaves(q, x, fs, top=q.site(n)):
                c = q.close(f)
                if c is None:
                    continue
                its = [u.a[0] for u, b in c if b and u.op == "is" and u.a[1] == "Some" and u.a[0].op == "call" and u.a[0].a[0] == "Iterator::next" and all_nonempty(q, origin(q, u.a[0].a[-1]), lines)]
                if len(its) != 1:
                    good = False
                    break
                seen = True
                el = mk("vf", its[0], "Some", "0")
                if v is n or same_var(v, n):
                    good = good and holds(q, c, lambda h: (empty(el), True) in h)
                else:
                    good = good and v.op == "bin" and set(v.a[1:]) >= {n, Int(1)} and v.a[0] == "Add" and holds(q, c, lambda h: q.P.le(v, limit, h, 0))
            if not good:
                break
        if seen:
            if good:
                return None
            why = "the loop that counts the lines can miss one, or go beyond the limit"
    return why


def numbered(q, facts, lines, limit):
    """every non-empty line has a number, from 0 up, below the limit"""
    for c, cases, it in each(q, facts):
        if c.op in ("call", "icall") and short(c).split("::")[-1] == "enumerate" and all_nonempty(q, iter_base(c.a[-1]), lines):
            if all(holds(q, q.close(k) or k, lambda h: q.P.le(F(it, "0"), limit, h, -1)) for k in cases):
                return True
    return False


def all_nonempty(q, x, lines):
    """x is the lines, or the non-empty ones of them"""
    while x is not None and x is not lines:
        if x.op in ("call", "icall") and short(x).split("::")[-1] == "filter" and nonempty_closure(q, x.a[-1]):
            x = iter_base(x.a[-2])
        elif x.op in ("call", "icall") and short(x).split("::")[-1] in ("iter", "into_iter", "collect") and len(x.a) == 2:
            x = x.a[1]
        else:
            return False
    return x is lines


def held_in(q, x, facts):
    """the variable a field of the description has its value from"""
    if x.op == "int":
        for t, b in sorted(facts, key=lambda z: z[0].id):
            if b and t.op == "bin" and t.a[0] == "Eq" and x in t.a[1:]:
                for y in t.a[1:]:
                    if y.op == "vf" and y.a[1] == "Some":
                        return y.a[0]
    return x.a[0] if x.op == "vf" and x.a[1] == "Some" else x


def nonempty_closure(q, clo):
    it = mk("sym", "line")
    z = binop("Eq", simp_call("len", (it,)), Int(0))
    yes, no = closure_cases(q, clo, [it], True), closure_cases(q, clo, [it], False)
    return yes is not None and no is not None and all((z, False) in q.close(c) for c in yes) and all((z, True) in q.close(c) for c in no)


def within(q, facts, base, pred):
    """every element x of the list satisfies pred(x, facts on it)"""
    for c, cases, it in each(q, facts):
        cases = list(cases)
        while c is not base and c.op in ("call", "icall"):
            if len(c.a) == 2 and short(c).split("::")[-1] in ("iter", "into_iter"):
                c = c.a[1]
            elif short(c).split("::")[-1] == "filter":
                out = closure_cases(q, c.a[-1], [it], False)
                if out is None:
                    break
                cases += out
                c = iter_base(c.a[-2])
            elif short(c).split("::")[-1] == "enumerate":
                it = F(it, "1")
                c = iter_base(c.a[-1])
            elif short(c).split("::")[-1] == "map":
                x = mk("sym", "mapped")
                out = apply_fn(q, c.a[-1], [x])
                if out is None and c.a[-1].op == "fn" and c.a[-1].a[0].split("::")[-1] in ("as_str", "as_ref", "deref", "borrow", "clone"):
                    out = [(frozenset(), x)]
                if out is None:
                    break
                cases = [j for k in cases for f, v in out for j in [join_facts(q, f, frozenset((swap(u, it, v), b) for u, b in k))] if j is not None]
                it, c = x, iter_base(c.a[-2])
            else:
                break
        if c is base and all(holds(q, q.close(k) or k, lambda h: pred(it, h)) for k in cases):
            return True
    return False


def empty(x):
    return binop("Eq", simp_call("len", (x,)), Int(0))


RTP = ("RtpAvp", "RtpSavp", "RtpSavpf", "UdpTlsRtpSavpf", "TcpTlsRtpSavpf")


def s08(ctx):
    q = Q(ctx, only={CR})
    ctx.rule("every way parse_sdp_with_limits and parse_sdp accept a text implies each limit and each required part: facts on the returned description, on every round of the loops that count lines and "
             "collect attributes, and on the conversion of every media block")
    n_ok = 0
    for name in ("parse_sdp_with_limits", "parse_sdp"):
        fn = q.one("parse::" + name, CR)
        if fn is None:
            continue
        w = where(fn)
        text = mk("arg", 1)
        lim = (lambda n: F(mk("arg", 2), n)) if fn.argc == 2 else (lambda n: Int({"max_bytes": 131072, "max_lines": 2048, "max_line_length": 4096, "max_attributes_per_section": 500}[n]))
        key = lambda k: k + ("" if fn.argc == 2 else "-default")
        outs = [(proj(o.ret, ("v", "Ok", "0")), o.facts) for o in q.e.summary(fn).outcomes if not (o.ret.op == "adt" and o.ret.a[1] == "Err")]
        ctx.check(bool(outs), key("ok"), w, "no text is accepted")
        for desc, facts in outs:
            n_ok += 1
            L = Lines(q, desc, facts)
            if not ctx.check(L.text is not None, key("lines"), w, "the lines of the text are not parsed as one list: " + L.why):
                continue
            fd = lambda n: proj(desc, ("f", n))
            ctx.check(holds(q, facts, lambda h: q.P.le(simp_call("len", (text,)), lim("max_bytes"), h, 0)), key("bytes"), w, "a text of more than max_bytes bytes can be accepted")
            lines = mk("call", "str::lines", text)
            ctx.check(within(q, facts, lines, lambda x, h: (empty(x), True) in h or q.P.le(simp_call("len", (x,)), lim("max_line_length"), h, 0)), key("line-length"), w,
                      "a text with a line of more than max_line_length bytes can be accepted")
            why = None
            if not holds(q, facts, lambda h: any(b and t.op == "bin" and t.a[0] in ("Le", "Lt") and counted(q, t.a[1], lines) and q.P.le(t.a[2], lim("max_lines"), h, 0) for t, b in h)) and not numbered(q, facts, lines, lim("max_lines")):
                why = count_bound(q, lines, lim("max_lines"), fn)
            ctx.check(why is None, key("line-count"), w, f"a text of more than max_lines lines can be accepted: {why}")
            ctx.check(holds(q, facts, lambda h: (empty(mk("call", "str::trim", L.rest)), True) in h or (empty(L.rest), True) in h), key("rest"), w, "a text can be accepted although a part of it is no line")
            ctx.check(holds(q, facts, lambda h: q.P.le(fd("version"), Int(0), h, 0)), key("version"), w, "a version other than 0 can be accepted")
            for n in ("version", "origin", "session_name"):
                x = fd(n)
                y = held_in(q, x, facts)
                ctx.check(y is not x and holds(q, facts, lambda h: (mk("is", y, "Some"), True) in h), key("has-" + n), w, f"a text without {n} can be accepted")
            ctx.check(holds(q, facts, lambda h: (empty(fd("times")), False) in h or q.P.le(Int(1), simp_call("len", (fd("times"),)), h, 0)), key("has-times"), w, "a text without time description can be accepted")
            # media descriptions
            cv = collected(q, fd("media"))
            if ctx.check(cv is not None, key("media-made"), w, "the media descriptions are not made one for each media block"):
                for f, v in cv[1]:
                    c = q.close(f)
                    if c is None:
                        continue
                    fm, mt, pr = (proj(v, ("f", n)) for n in ("formats", "media_type", "protocol"))
                    ctx.check(holds(q, c, lambda h: (empty(fm), False) in h), key("formats"), w, "a media description without format can be accepted")
                    ctx.check(within(q, c, fm, lambda x, h: (empty(x), False) in h), key("format-empty"), w, "an empty format can be accepted")
                    ctx.check(holds(q, c, lambda h: (mk("is", mt, "Other"), False) in h or (mk("is", mt, "Other"), True) in h and (empty(proj(mt, ("v", "Other", "0"))), False) in h), key("media-type"), w,
                              "an empty media type can be accepted")
                    ctx.check(rtp_ok(q, c, pr, fm), key("rtp-format"), w, "an RTP media description can have a format that is no number from 0 to 127")
                    ctx.count("media descriptions", 1)
            # attributes, repeat times and time zones as they are added
            seen = {"a": 0, "r": 0, "z": 0}
            for te in tree(q, fn, lambda ev: ev.kind == "call" and ev.name in ("Vec::push", "Vec::extend", "Vec::append", "Extend::extend", "Vec::extend_from_slice")):
                if len(te.args) < 2:
                    continue
                x, c = te.args[-1], q.close(te.facts)
                if c is None:
                    continue
                for t in ("a", "r", "z"):
                    y = x
                    if t == "z":
                        y = y.a[1] if y.op == "call" and short(y).split("::")[-1] in ("into_iter", "iter") and len(y.a) == 2 else y
                        if te.ev.name == "Vec::push" and y.op == "vf" and y.a[0].op == "call" and y.a[0].a[0] == "Iterator::next":
                            z = [z for z in ([i for i in q.e.phi_inputs(y.a[0].a[-1])] if y.a[0].a[-1].op == "phi" else [y.a[0].a[-1]]) if not (z.op == "post" and z.a[0] == "Iterator::next")]
                            y = iter_base(z[0]) if len(z) == 1 else y
                    if not L.content(y, t):
                        continue
                    seen[t] += 1
                    at = te.where()
                    if t == "a":
                        ctx.check(holds(q, c, lambda h: q.P.le(simp_call("len", (te.args[0],)), lim("max_attributes_per_section"), h, -1)), key("attributes"), at,
                                  "a section can get more than max_attributes_per_section attributes")
                    elif t == "r":
                        for n in ("repeat_interval", "active_duration"):
                            ctx.check(holds(q, c, lambda h: (empty(F(conv(y), n)), False) in h), key("r-" + n), at, f"an r= line without {n} can be accepted")
                    else:
                        ctx.check(holds(q, c, lambda h: (empty(y), False) in h), key("z-none"), at, "a z= line without time zone can be accepted")
                        ctx.check(within(q, c, y, lambda x, h: all((empty(F(x, n)), False) in h for n in ("adjustment_time", "offset"))), key("z-part"), at, "a z= line with half a pair can be accepted")
            for t, n in seen.items():
                ctx.check(n > 0, key("adds-" + t), w, f"{t}= lines are not added to a list")
                ctx.count("additions", n)
    d = [f for f in q.fns("as core::default::Default>::default", CR) if "ParseLimits" in f.id]
    for f in d:
        for o in q.e.summary(f).outcomes:
            for n, v in (("max_bytes", 131072), ("max_lines", 2048), ("max_line_length", 4096), ("max_attributes_per_section", 500)):
                ctx.check(proj(o.ret, ("f", n)) is Int(v), "default-" + n, where(f), f"ParseLimits::default() has another {n}")
    ctx.count("ways to accept", n_ok)
    ctx.floor("ways to accept", 2)
    ctx.floor("media descriptions", 2)
    ctx.floor("additions", 6)


def counted(q, t, lines):
    """t is the number of non-empty lines (or of all of them)"""
    if t.op in ("call", "icall") and short(t).split("::")[-1] in ("count", "len") and len(t.a) == 2:
        return all_nonempty(q, t.a[1], lines)
    return False


def rtp_ok(q, c, pr, fm):
    num = lambda x, h: any(b and t.op == "is" and t.a[1] == "Ok" and t.a[0].op == "call" and t.a[0].a[0].startswith("parse:u") and t.a[0].a[-1] is x
                           and q.P.le(proj(t.a[0], ("v", "Ok", "0")), Int(127), h, 0) for t, b in h)
    return holds(q, c, lambda h: all(q.e.add_fact(h, mk("is", pr, p), True) is None for p in RTP) or within(q, h, fm, num))


RULES["S08"] = s08


# ------------------------------------------------------------------ S09: what stands in a line
END, WORD, NAME = ((10, 11), (13, 14)), ((10, 11), (13, 14), (32, 33)), ((10, 11), (13, 14), (58, 59))
MEDIA = {"Audio": "audio", "Video": "video", "Text": "text", "Application": "application", "Message": "message"}
PROTO = {"RtpAvp": "RTP/AVP", "RtpSavp": "RTP/SAVP", "RtpSavpf": "RTP/SAVPF", "UdpTlsRtpSavpf": "UDP/TLS/RTP/SAVPF", "TcpTlsRtpSavpf": "TCP/TLS/RTP/SAVPF", "Udp": "UDP", "Tcp": "TCP"}
ADDR = {"IPv4": "IP4", "IPv6": "IP6"}
LAYOUT = {
    "v": [["v=", "digits"]],
    "o": [["o=", WORD, " ", WORD, " ", WORD, " ", "IN", " ", a, " ", END] for a in ("IP4", "IP6")],
    "c": [["c=", "IN", " ", a, " ", END] for a in ("IP4", "IP6")],
    "b": [["b=", NAME, ":", "digits"]],
    "t": [["t=", "digits", " ", "digits"]],
    "a": [["a=", NAME, ":", END], ["a=", END]],
    "m": [["m=", WORD, " ", "digits", "/", "digits", " ", WORD, " ", "words"], ["m=", WORD, " ", "digits", " ", WORD, " ", "words"]],
    **{t: [[t + "=", END]] for t in "siuepkrz"},
}


def layout(segs):
    """(shape, captures) of a line"""
    shape, caps = [], []
    for s in segs:
        if s[0] == "lit":
            if shape and caps[-1] is None and isinstance(shape[-1], str) and shape[-1] not in ("digits", " ", "words", "end"):
                shape[-1] += s[1]
                continue
            shape.append(s[1])
            caps.append(None)
        elif s[0] == "take_till":
            shape.append(tuple(s[1]))
            caps.append(s[2])
        elif s[0] == "digits":
            shape.append("digits")
            caps.append(s[1])
        elif s[0] == "space":
            shape.append(" ")
            caps.append(None)
        elif s[0] == "eol":
            shape.append("end")
            caps.append(None)
        elif s[0] == "separated_list0" and len(s[1]) == 1 and s[1][0][0] == (("space", 1),) and len(s[2]) == 1 and len(s[2][0][0]) == 1 and s[2][0][0][0][0] == "take_till" \
                and tuple(s[2][0][0][0][1]) == WORD and conv(s[2][0][1]) is s[2][0][0][0][2]:
            shape.append("words")
            caps.append(s[3])
        else:
            shape.append(("?", s[0]))
            caps.append(None)
    if shape and shape[-1] == "end":
        shape.pop()
    return shape, [c for c in caps if c is not None]


def lits(shape):
    """the tag and the first literal after it split"""
    out = []
    for x in shape:
        if isinstance(x, str) and len(x) > 2 and x[1] == "=" and x not in ("digits", "words"):
            out += [x[:2], x[2:]]
        else:
            out.append(x)
    return out


def blank_split(t):
    t = iter_base(t)
    if t.op == "call" and short(t).split("::")[-1] == "collect" and len(t.a) == 2:
        t = iter_base(t.a[1])
    return t.a[1] if t.op == "call" and short(t).split("::")[-1] in ("split_whitespace", "split_ascii_whitespace") else None


def word_no(t):
    """(i, text) when t is the i-th blank-separated word of the text"""
    t = conv(t)
    if t.op == "vf" and t.a[1] == "Some" and t.a[0].op in ("call", "icall"):
        c, s = t.a[0], short(t.a[0]).split("::")[-1]
        if s == "next":
            n, it = 0, c.a[-1]
            while it.op == "post" and it.a[0] == "Iterator::next":
                n, it = n + 1, it.a[2]
            x = blank_split(it)
            return (n, x) if x is not None else (None, None)
        if s in ("first", "get", "nth"):
            k = Int(0) if s == "first" else c.a[2]
            x = blank_split(c.a[1])
            return (k.a[0], x) if x is not None and k.op == "int" else (None, None)
    if t.op == "idx" and t.a[1].op == "int":
        x = blank_split(t.a[0])
        return (t.a[1].a[0], x) if x is not None else (None, None)
    return None, None


def same_items(q, t):
    """the stream under one that gives its items unchanged"""
    t = iter_base(t)
    while t.op in ("call", "icall"):
        s = short(t).split("::")[-1]
        if s == "collect" and len(t.a) == 2:
            t = iter_base(t.a[1])
        elif s == "map":
            it = mk("sym", "word")
            f = t.a[-1]
            rs = [(None, it)] if f.op == "fn" and gram.keeps(f.a[0]) else apply_fn(q, f, [it])
            if rs is None or any(conv(v) is not it for _, v in rs):
                return t
            t = iter_base(t.a[-2])
        elif s in ("copied", "cloned", "by_ref") and len(t.a) == 2:
            t = iter_base(t.a[1])
        else:
            return t
    return t


def words_from(q, t):
    """(i, text) when t is the list of the blank-separated words of the text from the i-th on"""
    t, n = same_items(q, t), 0
    while True:
        if t.op == "call" and short(t).split("::")[-1] == "skip" and t.a[2].op == "int":
            n, t = n + t.a[2].a[0], same_items(q, t.a[1])
        elif t.op == "post" and t.a[0] == "Iterator::next":
            n, t = n + 1, same_items(q, t.a[2])
        elif t.op == "call" and short(t).split("::")[-1] == "slice" and t.a[2].op == "int" and t.a[3] is simp_call("len", (t.a[1],)):
            n, t = n + t.a[2].a[0], same_items(q, t.a[1])
        else:
            break
    x = blank_split(t)
    return (n, x) if x is not None else (None, None)


def none_or(v, x):
    return v.op == "adt" and v.a[1] == "Some" and v.a[3] is x if x is not None else v.op == "adt" and v.a[1] == "None"


def word_table(q, v, cap, known, facts, h=None):
    """v is the variant the word cap names, or Other with the word when it names none"""
    if v.op != "adt" or v.a[1] is None:
        return False
    c = q.close(facts)
    if c is None:
        return True
    if v.a[1] in known:
        return holds(q, c, lambda k: (binop("Eq", cap, mk("str", known[v.a[1]])), True) in k)
    return v.a[1] == "Other" and conv(v.a[3]) is cap and holds(q, c, lambda k: all((binop("Eq", cap, mk("str", w)), False) in k for w in known.values()))


def num(t, bits, cap):
    if t.op == "vf" and t.a[1] == "Ok" and t.a[0].op == "made" and t.a[0].a[0].endswith("str>::parse"):
        return t.a[0].a[1] is cap      # the field's type says how many bits
    return t.op == "vf" and t.a[1] == "Ok" and t.a[0].op == "call" and t.a[0].a[0] == "parse:u" + bits and t.a[0].a[-1] is cap


def trimmed(t, cap, how="trim"):
    t = conv(t)
    return t.op == "call" and short(t).split("::")[-1] == how and t.a[1] is cap


def pairs(q, v, cap, facts):
    """v is the list of the pairs of words of the text (what is left over aside); None when it is one that cannot be accepted"""
    p = pushed(v)
    if p is not None and p[1].op == "adt" and any(empty_str(F(p[1], n)) for n in ("adjustment_time", "offset")):
        return None
    w = collected(q, v)
    if w is None:
        return False
    base, items, it = w
    while base.op in ("call", "icall") and short(base).split("::")[-1] in ("iter_mut", "by_ref", "into_iter", "iter") and len(base.a) == 2:
        base = base.a[1]
    if not (base.op == "call" and short(base).split("::")[-1] in ("chunks_exact", "chunks") and base.a[2] is Int(2) and blank_split(base.a[1]) is cap):
        return False

    def part(x, i):
        ok = False
        for y, _ in way_leaves(q, conv(x)):
            y = conv(y)
            if empty_str(y):
                continue
            if y.op == "idx" and y.a[0] is it and y.a[1] is Int(i) or y.op == "vf" and y.a[1] == "Some" and y.a[0].op == "call" and short(y.a[0]).split("::")[-1] == "get" and y.a[0].a[1] is it and y.a[0].a[2] is Int(i):
                ok = True
            else:
                return False
        return ok
    return all(part(F(x, "adjustment_time"), 0) and part(F(x, "offset"), 1) for _, x in items)


def empty_str(x):
    x = conv(x)
    return x.op == "str" and x.a[0] == ""


def s09(ctx):
    q = Q(ctx, only={CR})
    ctx.rule("every alternative of the grammar the text is parsed with - parser combinators and mapping functions read from the program - is one of the layouts of its tag, and what it makes of the captures "
             "is field for field what the tag's line says; a word is filed as a known media type or protocol exactly when it is that word")
    fn, outs = parsed(ctx, q)
    w = where(fn)
    for desc, facts in outs:
        L = Lines(q, desc, facts)
        if not ctx.check(L.text is not None, "lines", w, "the lines of the text are not parsed as one list: " + L.why):
            continue
        for t in sorted(L.ways, key=str):
            if not ctx.check(t in LAYOUT, f"tag-{t}", w, f"the text can have {t}= lines"):
                continue
            made, order = set(), []
            for segs, v, fs in L.ways[t]:
                shape, caps = layout(segs)
                shape = lits(shape)
                order.append(shape)
                ctx.count("line alternatives", 1)
                if not ctx.check(shape in LAYOUT[t], f"layout-{t}", w, f"a {t}= line can be read as {shape}"):
                    continue
                c = [x for x in caps]
                if t == "v":
                    ok = num(v, "8", c[0])
                elif t in "siuepk":
                    ok = trimmed(v, c[0])
                elif t in "oc":
                    a = shape[-3]
                    ok = v.op == "adt" and F(v, "net_type").op == "adt" and F(v, "addr_type").op == "adt" and ADDR.get(F(v, "addr_type").a[1]) == a
                    ok = ok and trimmed(F(v, "unicast_address" if t == "o" else "connection_address"), c[-1])
                    ok = ok and (t == "c" or all(conv(F(v, n)) is x for n, x in zip(("username", "session_id", "session_version"), c)))
                    made.add(a)
                elif t == "b":
                    ok = conv(F(v, "bw_type")) is c[0] and num(F(v, "bandwidth"), "32", c[1])
                elif t == "t":
                    ok = num(F(v, "start_time"), "64", c[0]) and num(F(v, "stop_time"), "64", c[1]) and fresh(F(v, "repeats"))
                elif t == "r":
                    ok = words_from(q, F(v, "offsets")) == (2, c[0])
                    for i, n in enumerate(("repeat_interval", "active_duration")):
                        ls = [x for x, _ in way_leaves(q, conv(F(v, n)), fs) if not empty_str(x)]
                        ok = ok and bool(ls) and all(word_no(x) == (i, c[0]) for x in ls)
                elif t == "z":
                    ok = pairs(q, v, c[0], fs)
                    if ok is None:
                        continue
                    made.add("pairs")
                elif t == "a":
                    if len(c) == 2:
                        ok = v.op == "adt" and v.a[1] == "Value" and conv(F(v, "name")) is c[0] and trimmed(F(v, "value"), c[1], "trim_end")
                    else:
                        ok = v.op == "adt" and v.a[1] == "Property" and trimmed(v.a[3], c[0])
                        ctx.check(any(s == LAYOUT["a"][0] for s in order), "a-order", w, "an attribute with a value can be read as one without")
                else:
                    mt, pr = F(v, "media_type"), F(v, "protocol")
                    word, proto = c[0], c[-2]
                    ok = num(F(v, "port"), "16", c[1])
                    n = F(v, "num_ports")
                    ok = ok and (n.op == "adt" and (n.a[1] == "Some" and num(n.a[3], "16", c[2]) if len(c) == 5 else n.a[1] == "None"))
                    ok = ok and conv(F(v, "formats")) is c[-1]
                    ctx.check(word_table(q, mt, word, MEDIA, fs), "media-type", w, "a media type is taken for another one")
                    ctx.check(word_table(q, pr, proto, PROTO, fs), "protocol", w, "a protocol is taken for another one")
                    made |= {x.a[1] for x in (mt, pr) if x.op == "adt"}
                    for x in ("title", "connection", "encryption_key", "bandwidth", "attributes"):
                        ctx.check(fresh(F(v, x)), "m-" + x, w, f"a media description has {x} before its first line")
                ctx.check(ok, f"value-{t}", w, f"what is made of a {t}= line is not what it says: {show(v, 0, 5)[:160]}")
            for s in LAYOUT[t]:
                ctx.check(s in order, f"reads-{t}", w, f"a {t}= line of the form {s} is not read")
            for x in ({"o": ("IP4", "IP6"), "c": ("IP4", "IP6"), "z": ("pairs",), "m": tuple(MEDIA) + tuple(PROTO) + ("Other",)}.get(t, ())):
                ctx.check(x in made, f"makes-{t}-{x}", w, f"no {t}= line is read as {x}")
    ctx.floor("line alternatives", 80)


RULES["S09"] = s09


# ------------------------------------------------------------------ S10: rtpmaps
def cut(t):
    """(text, separator, "once" or "all") when t is the list or iterator of the parts of the text"""
    t = iter_base(t)
    if t.op == "call" and short(t).split("::")[-1] == "collect" and len(t.a) == 2:
        t = iter_base(t.a[1])
    if t.op != "call":
        return None
    n = short(t).split("::")[-1]
    sep = t.a[-1]
    sep = chr(sep.a[0]) if sep.op == "char" and isinstance(sep.a[0], int) else sep.a[0] if sep.op in ("char", "str") else None
    if n == "splitn" and t.a[2] is Int(2):
        return t.a[1], sep, "once"
    if n == "split" and len(t.a) == 3:
        return t.a[1], sep, "all"
    return None


def piece(t):
    """(i, text, separator, how) when t is the i-th part of the text"""
    t = conv(t)
    if t.op == "field" and t.a[1] in ("0", "1") and t.a[0].op == "vf" and t.a[0].a[1] == "Some" and t.a[0].a[0].op == "call" and short(t.a[0].a[0]).split("::")[-1] == "split_once":
        c = t.a[0].a[0]
        sep = c.a[2]
        return int(t.a[1]), c.a[1], chr(sep.a[0]) if sep.op == "char" and isinstance(sep.a[0], int) else sep.a[0], "once"
    k = part_of(t.a[0]) if t.op == "vf" and t.a[1] == "Some" else (t.a[1].a[0], t.a[0]) if t.op == "idx" and t.a[1].op == "int" else None
    c = cut(k[1]) if k is not None else None
    return (k[0],) + c if c is not None else None


def part_of(c):
    """(i, list) when c is the Option of the i-th item of the list"""
    if c.op not in ("call", "icall"):
        return None
    s = short(c).split("::")[-1]
    if s == "next":
        n, it = 0, c.a[-1]
        while it.op == "post" and it.a[0] == "Iterator::next":
            n, it = n + 1, it.a[2]
        return n, it
    if s in ("first", "get", "nth"):
        k = Int(0) if s == "first" else c.a[2]
        return (k.a[0], c.a[1]) if k.op == "int" else None
    return None


def is_piece(t, i, sep, how, text):
    p = piece(t)
    return p is not None and p[0] == i and p[2] == sep and p[3] == how and (text(p[1]) if callable(text) else conv(p[1]) is text)


def lacks(f, b, i, sep, how, text):
    """the fact says that the text has no i-th part"""
    is_text = text if callable(text) else lambda x: conv(x) is text
    if f.op == "is":
        none = f.a[1] == "None" and b or f.a[1] == "Some" and not b
        x = f.a[0]
        if x.op in ("call", "icall") and short(x).split("::")[-1] == "split_once":
            s = x.a[2]
            return none and how == "once" and i == 1 and (chr(s.a[0]) if s.op == "char" and isinstance(s.a[0], int) else s.a[0]) == sep and is_text(x.a[1])
        k = part_of(x)
        c = cut(k[1]) if k is not None else None
        return none and c is not None and k[0] <= i and c[1:] == (sep, how) and is_text(c[0])
    if f.op == "bin":
        for side, x in enumerate(f.a[1:3]):
            if x.op == "call" and x.a[0] == "len":
                c = cut(x.a[1])
                n = f.a[2 - side]
                if c is None or n.op != "int" or c[1:] != (sep, how) or not is_text(c[0]):
                    continue
                n = n.a[0]
                if f.a[0] == "Eq":
                    return not b and how == "once" and n == 2 and i == 1 or b and n <= i
                if side == 0:      # len <= n or len < n
                    return b and (n <= i if f.a[0] == "Le" else n <= i + 1)
                return not b and (n <= i + 1 if f.a[0] == "Le" else n <= i)
    return False


def entries(q, m, attrs):
    """[(element, facts, (key, value) or None)]: what each element of the list adds to the map; or (None, why)"""
    out = []
    if m.op == "phi" and q.is_head(q.site(m)):
        if not all(fresh(x) or q.carried(x, m) for x in q.e.phi_inputs(m)):
            return None, "the rtpmaps do not start empty"
        for x, fs in q.e.phi_edges(m):
            for y, g in way_leaves(q, x, fs, top=q.site(m)):
                c = q.close(g)
                if c is None:
                    continue
                its = [u.a[0] for u, b in c if b and u.op == "is" and u.a[1] == "Some" and u.a[0].op == "call" and u.a[0].a[0] == "Iterator::next"]
                its = [z for z in its if origin(q, z.a[-1]) is attrs]
                if len(its) != 1:
                    return None, "the rtpmaps can change outside of the walk over the media description's attributes"
                a = mk("vf", its[0], "Some", "0")
                if y.op == "post" and y.a[0].endswith("Map::insert") and same_var(y.a[2], m):
                    out.append((a, c, (y.a[3], y.a[4])))
                elif same_var(y, m):
                    out.append((a, c, None))
                else:
                    return None, f"an earlier rtpmap can be lost: the rtpmaps become {show(y, 0, 3)[:100]}"
        return out, ""
    if m.op in ("call", "icall") and short(m).split("::")[-1] == "collect" and len(m.a) == 2:
        stages, t = [], m.a[1]
        while t.op in ("call", "icall") and short(t).split("::")[-1] in ("map", "filter", "filter_map"):
            stages.append((short(t).split("::")[-1], t.a[-1]))
            t = iter_base(t.a[-2])
        if iter_base(t) is not attrs:
            return None, "the rtpmaps are not collected from the media description's attributes"
        it = mk("sym", "attribute")
        ways = [(frozenset(), it)]
        for kind, f in stages[::-1]:
            nxt = []
            for g, x in ways:
                if kind == "filter":
                    yes, no = closure_cases(q, f, [x], True), closure_cases(q, f, [x], False)
                    if yes is None or no is None:
                        return None, "what is collected is not known"
                    nxt += [(join_facts(q, g, y), x) for y in yes]
                    out += [(it, join_facts(q, g, y), None) for y in no]
                    continue
                rs = apply_fn(q, f, [x])
                if rs is None:
                    return None, "what is collected is not known"
                for h, y in rs:
                    h = join_facts(q, g, h)
                    if kind == "map":
                        nxt.append((h, y))
                    elif y.op == "adt" and y.a[1] in ("Some", "None"):
                        if y.a[1] == "Some":
                            nxt.append((h, y.a[3]))
                        else:
                            out.append((it, h, None))
                    else:
                        nxt.append((h and q.e.add_fact(h, is_(y, "Some"), True), proj(y, ("v", "Some", "0"))))
                        out.append((it, h and q.e.add_fact(h, is_(y, "None"), True), None))
            ways = [z for z in nxt if z[0] is not None]
        out += [(it, g, (F(x, "0"), F(x, "1"))) for g, x in ways]
        return [(a, c, y) for a, g, y in out if g is not None for c in [q.close(g)] if c is not None], ""
    return None, "the rtpmaps are not collected in a loop over the attributes"


def s10(ctx):
    q = Q(ctx, only={CR})
    ctx.rule("the rtpmaps of a media description start empty and get an entry in a round of a loop over its attributes exactly when the attribute is named rtpmap and has the parts of an rtpmap, made of these "
             "parts under its payload type")
    fn, outs = parsed(ctx, q)
    w = where(fn)
    n = 0
    for desc, facts in outs:
        cv = collected(q, F(desc, "media"))
        if not ctx.check(cv is not None, "media-made", w, "the media descriptions are not made one for each media block"):
            continue
        for f0, v in cv[1]:
            m, attrs = F(v, "rtpmaps"), F(v, "attributes")
            ways, why = entries(q, m, attrs)
            if not ctx.check(ways is not None, "entries", w, why):
                continue
            for a, c, y in ways:
                n += 1
                if True:
                    name, value = conv(proj(a, ("v", "Value", "name"))), conv(proj(a, ("v", "Value", "value")))
                    second = lambda t: is_piece(t, 1, " ", "once", value)
                    is_rtpmap = (mk("is", a, "Value"), True), (binop("Eq", name, mk("str", "rtpmap")), True)
                    if y is not None:
                        k, r = y
                        ctx.check(holds(q, c, lambda h: all(z in h for z in is_rtpmap)), "attribute", w, "an rtpmap can be made of another attribute")
                        p = lambda t, bits, ok: t.op == "vf" and t.a[1] == "Ok" and t.a[0].op == "call" and t.a[0].a[0] == "parse:u" + bits and ok(t.a[0].a[-1])
                        first = lambda t: is_piece(t, 0, " ", "once", value)
                        ctx.check(p(F(r, "payload_type"), "8", first), "payload", w, "an rtpmap's payload type is not the number before the first blank")
                        ctx.check(k is F(r, "payload_type"), "key", w, "an rtpmap is not found under its payload type")
                        ctx.check(is_piece(F(r, "encoding_name"), 0, "/", "all", second), "encoding", w, "an rtpmap's encoding name is not what stands between the first blank and the first slash")
                        ctx.check(p(F(r, "clock_rate"), "32", lambda t: is_piece(t, 1, "/", "all", second)), "clock", w, "an rtpmap's clock rate is not the number after the first slash")
                        some_ = False
                        for z, zf in way_leaves(q, F(r, "encoding_params"), c):
                            z = conv(z)
                            zc = q.close(zf)
                            if zc is None:
                                continue
                            k2 = None
                            if z.op == "adt" and z.a[1] == "Some":
                                some_ = some_ or is_piece(z.a[3], 2, "/", "all", second)
                                ctx.check(is_piece(z.a[3], 2, "/", "all", second), "params", w, "an rtpmap's encoding parameters are not what follows the second slash")
                            elif z.op == "adt" and z.a[1] == "None":
                                ctx.check(holds(q, zc, lambda h: any(lacks(t, b, 2, "/", "all", second) for t, b in h)), "params-lost", w, "an rtpmap's encoding parameters can be lost")
                            else:
                                k2 = option_of(q, z)
                                ctx.check(k2 is not None and is_piece(mk("vf", k2, "Some", "0"), 2, "/", "all", second), "params", w, "an rtpmap's encoding parameters are not what follows the second slash")
                                some_ = True
                        ctx.check(some_, "params-none", w, "an rtpmap never has encoding parameters")
                    else:
                        def excused(h):
                            for t, b in h:
                                if (t, b) == (mk("is", a, "Value"), False) or (t, b) == (mk("is", a, "Property"), True) or (t, b) == (is_rtpmap[1][0], False):
                                    return True
                                if lacks(t, b, 1, " ", "once", value) or lacks(t, b, 1, "/", "all", second):
                                    return True
                                if t.op == "is" and (t.a[1] == "Ok") != b and t.a[1] in ("Ok", "Err") and t.a[0].op == "call" and t.a[0].a[0] in ("parse:u8", "parse:u32"):
                                    x = t.a[0].a[-1]
                                    if t.a[0].a[0] == "parse:u8" and is_piece(x, 0, " ", "once", value) or t.a[0].a[0] == "parse:u32" and is_piece(x, 1, "/", "all", second):
                                        return True
                            for x in {x for t, _ in h if t.op == "bin" for x in t.a[1:3] if x.op == "call" and x.a[0] == "len"}:
                                z = cut(x.a[1])
                                if z is not None and z[1:] == ("/", "all") and second(z[0]) and q.P.le(x, Int(2), h, 0) and (binop("Eq", x, Int(2)), False) in h:
                                    return True
                            return False
                        ctx.check(holds(q, c, excused), "dropped", w, "an rtpmap attribute can be left out of the rtpmaps")
    ctx.count("ways through a round", n)
    ctx.floor("ways through a round", 2)


def option_of(q, z):
    """the Option under one mapped with a function that keeps the text"""
    if z.op in ("call", "icall") and short(z).split("::")[-1] in ("map", "copied", "cloned"):
        return z.a[1] if z.a[1].op in ("call", "icall") else None
    return z if z.op in ("call", "icall") else None


RULES["S10"] = s10
