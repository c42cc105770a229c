"""sip-core: the hop counter."""
from rules._util import *
from absint import replace
from rules.identity_rules import conv
from rules.parse_rules import digits_only, short

CR = "sip_core"
CHANGE = ("push", "push_header", "set_or_push", "replace_first", "remove", "remove_at", "clear", "retain", "insert", "extend", "append", "truncate", "pop", "swap", "drain", "sort", "iter_mut", "as_mut_slice", "reverse", "dedup")


def headers_api(ctx):
    return {strip_generics(f.id) for f in ctx.prog.fns.values() if "::headers::Headers::" in strip_generics(f.id)}


def plain(t):
    """the text behind conversions and trimming of white space"""
    t = conv(t)
    while t.op == "call" and short(t) in ("trim", "trim_ascii", "trim_start", "trim_end", "as_bytes", "to_string", "as_str") and len(t.a) == 2:
        t = conv(t.a[1])
    return t


def first_value(t, H, name):
    h = hdr_get(t.a[0]) if t.op == "vf" and t.a[1] == "Some" else None
    return h is not None and h[0] is H and h[1].op == "str" and h[1].a[0].lower() == name


def named(t, name):
    t = conv(t)
    return t.op == "str" and t.a[0].lower() == name


def number(t, H, name):
    """the text of which t is the parsed number, if that is the (trimmed) first value of the header"""
    while t.op in ("cast", "conv") or t.op == "call" and short(t) in ("from", "into"):
        t = t.a[-1]
    if t.op == "vf" and t.a[1] == "Ok" and t.a[0].op == "call" and t.a[0].a[0].startswith("parse:u") and first_value(plain(t.a[0].a[1]), H, name):
        return t.a[0].a[1]
    return None


def same(q, a, b, k, d=0):
    """a == b + d"""
    return q.P.le(a, b, k, d) and q.P.le(b, a, k, -d)


def m02(ctx):
    q = Q(ctx, only={CR}, opaque=headers_api(ctx))
    ctx.rule("decrement_max_forwards: every way it returns Ok(n) either has no Max-Forwards header, n is 69 and a push of Max-Forwards with the text 69 has succeeded, or the first Max-Forwards value, trimmed, is proven to consist of ASCII digits and to be a number from 1 to 255 that is n + 1, and a set_or_push of Max-Forwards with the text of n has "
             "succeeded. It returns Exhausted only for the number 0, and Invalid never when the header is absent or such a number and the write succeeds. No other operation changes the headers, and each of those two happens only under its case's conditions.")
    fn = q.one("max_forwards::decrement_max_forwards", CR)
    if fn is None:
        return
    w, H = where(fn), mk("arg", 1)
    NAME = "max-forwards"
    I = lambda n: mk("int", n)

    def gets(k):
        return {f.a[0] for f, b in k for f in subterms(f) if f.op == "is" and hdr_get(f.a[0]) and hdr_get(f.a[0])[0] is H and named(hdr_get(f.a[0])[1], NAME)}

    def absent(k):
        return any(b == (f.a[1] == "None") and f.op == "is" and f.a[0] in gets(k) for f, b in k if f.op == "is")

    def numbers(k, *vs):
        out = set()
        for t in [f for f, _ in k] + list(vs):
            for x in subterms(t):
                if x.op == "vf" and x.a[1] == "Ok" and number(x, H, NAME) is not None:
                    out.add(x)
        return out

    def hops(k, *vs):
        """a number from the header that the facts prove well-formed, in 0..=255"""
        for N in sorted(numbers(k, *vs), key=repr):
            t = number(N, H, NAME)
            if q.P.le(N, I(255), k, 0) and digits_only(q, conv(t), k):
                return N
        return None

    def text_of(t, v, k):
        t = conv(t)
        if t.op == "str":
            return v.op == "int" and t.a[0] == str(v.a[0])
        while t.op == "call" and short(t) in ("to_string", "as_str", "from", "into", "new") and len(t.a) == 2:
            t = t.a[1]
        if t.op == "call" and short(t) in ("format", "disp"):
            p = flat(t)
            t = p[0][1] if len(p) == 1 and p[0][0] == "T" else t
        return isinstance(t, T) and (t is v or same(q, t, v, k))

    def ways(v, k):
        for g in split_ors(q, k, 96):
            g = q.close(g)
            if g is None:
                continue
            x = q.resolve(v, g)
            for y, h in leaves(q, x, g):
                for z in split_ors(q, h, 96):
                    z = q.close(z)
                    if z is not None:
                        yield q.resolve(y, z), z

    def write_ok(k, v, op):
        for f, b in k:
            if f.op == "is" and b == (f.a[1] == "Ok") and f.a[0].op in ("call", "icall"):
                c = f.a[0]
                if c.a[0] in op and c.a[-3] is H and named(c.a[-2], NAME) and text_of(c.a[-1], v, k):
                    return True
        return False
    nok = nerr = 0
    seen = set()
    for o in q.e.summary(fn).outcomes:
        for v, k in ways(o.ret, o.facts):
            if v.op == "adt" and v.a[1] == "Ok":
                nok += 1
                n = v.a[3]
                if absent(k):
                    seen.add("absent")
                    ctx.check(same(q, n, I(69), k), "absent:result", w, "without a Max-Forwards header something else than 69 is returned")
                    ctx.check(write_ok(k, I(69), ("Headers::push", "Headers::set_or_push")), "absent:write", w, "69 is returned without a Max-Forwards header of 69 having been added")
                    continue
                N = hops(k, n)
                if not ctx.check(N is not None and q.P.le(I(1), N, k, 0), "malformed", w, "a count is returned although the header's value is not proven to be 1*DIGIT from 1 to 255"):
                    continue
                seen.add("present")
                ctx.check(same(q, n, N, k, -1), "result", w, "the returned count is not the header's number less one: " + show(n)[:120])
                ctx.check(write_ok(k, n, ("Headers::set_or_push",)), "write", w, "the count is returned without having been written to the header")
            elif v.op == "adt" and v.a[1] == "Err":
                nerr += 1
                e = v.a[3]
                kind = e.a[1] if e.op == "adt" else "?"
                if kind == "Exhausted":
                    seen.add("zero")
                    N = hops(k)
                    ctx.check(N is not None and (q.P.le(N, I(0), k, 0) or any(b and f.op == "ovf" and f.a[0] == "Sub" and f.a[1] is N and f.a[2] is I(1) for f, b in k)), "exhausted", w, "Exhausted is returned for something else than the number 0")
                else:
                    # what is refused: a failed write, a text that is no number, a number above 255
                    failed = any(f.op == "is" and b == (f.a[1] == "Err") and f.a[0].op in ("call", "icall") and f.a[0].a[0] in ("Headers::push", "Headers::set_or_push") for f, b in k)
                    bad = not failed and (absent(k) or not refused(q, k, H, NAME))
                    ctx.check(not bad, "refused", w, "a request without the header, or with a number from 1 to 255 in it, can be refused: " + ", ".join(f"{'' if b else 'not '}{show(f)}" for f, b in k)[:300])
            else:
                ctx.violation("result-shape", w, "a result that is not understood: " + show(v)[:200])
    for x in ("absent", "present", "zero"):
        ctx.check(x in seen, "case:" + x, w, f"no way of the function handles the case {x}")
    # the headers change in these two ways only
    nch = 0
    for ev in tree(q, fn, lambda ev: ev.kind in ("call", "wr", "write")):
        if any(strip_generics(f) in q.e.opaque for f, _ in chain(ev)):
            continue
        nm = ev.ev.name if ev.ev.kind == "call" else ""
        if ev.ev.kind == "call" and not (ev.args and ev.args[0] is H and (nm or "").split("::")[-1] in CHANGE):
            continue
        if ev.ev.kind != "call" and not any(x is H for a in ev.args[:1] for x in subterms(a)):
            continue
        nch += 1
        ok = False
        if ev.ev.kind == "call" and strip_generics(nm).endswith(("Headers::push", "Headers::set_or_push")) and named(ev.args[1], NAME):
            ok = True
            for k in [q.close(g) for g in split_ors(q, ev.facts, 96)]:
                if k is None:
                    continue
                if absent(k):
                    ok &= text_of(ev.args[2], I(69), k)
                else:
                    N = hops(k, ev.args[2])
                    ok &= nm.endswith("set_or_push") and N is not None and q.P.le(I(1), N, k, 0) and text_of(ev.args[2], simp_num(q, N), k)
        ctx.check(ok, "change", ev.where(), f"{nm or ev.ev.kind} changes the headers in another way than by the decremented count")
    for name, n, least in (("ways-ok", nok, 2), ("ways-refused", nerr, 3), ("changes", nch, 2)):
        ctx.count(name, n)
        ctx.floor(name, least)


def simp_num(q, N):
    return binop("Sub", N, mk("int", 1))


def passes(q, p, c, want):
    r = apply_fn(q, p, (c,))
    yes = lambda y: y.op == "bool" and y.a[0] == want or want and y.op == "call" and short(y) in ("is_ascii_digit", "is_digit", "is_numeric", "is_ascii_alphanumeric") and y.a[1] is c \
        or not want and y.op == "not" and y.a[0].op == "call" and short(y.a[0]) == "is_ascii_digit"
    return bool(r) and all(yes(y) for _, y in r)


def refused(q, k, H, name):
    """the facts of a refusal: the first value is not digits, does not parse, or is above 255"""
    for f, b in k:
        if f.op == "is" and f.a[0].op == "call" and f.a[0].a[0].startswith("parse:u") and b == (f.a[1] == "Err") and first_value(plain(f.a[0].a[1]), H, name):
            return True
        if f.op == "bin" and f.a[0] == "Eq" and b and f.a[2] is mk("int", 0) and f.a[1].op == "call" and short(f.a[1]) == "len" and first_value(plain(f.a[1].a[1]), H, name):
            return True
        if f.op == "call" and short(f) in ("all", "any") and (b == (short(f) == "any")) and len(f.a) == 3:
            c = f.a[1]
            while c.op == "call" and short(c) in ("bytes", "chars", "iter") and len(c.a) == 2:
                c = c.a[1]
            if first_value(plain(c), H, name):
                # the predicate lets every digit pass
                want = short(f) == "all"
                kind = "char" if f.a[1].op == "call" and short(f.a[1]) == "chars" else "int"
                if all(passes(q, f.a[2], mk(kind, c), want) for c in range(48, 58)):
                    return True
        for x in subterms(f):
            if x.op == "vf" and x.a[1] == "Ok" and number(x, H, name) is not None and q.P.le(mk("int", 256), x, k, 0):
                return True
    return False


RULES = {"M02": m02}


# ------------------------------------------------------------------ M03 privacy
REMOVED = ("subject", "call-info", "organization", "user-agent", "reply-to", "in-reply-to", "server")
ASSERTED = ("p-asserted-identity", "p-preferred-identity")
SAYS = ("from", "contact")
ANON = "sip:anonymous@anonymous.invalid"


def name_text(t):
    t = conv(t)
    return t.a[0].lower() if t.op == "str" else None


def m03(ctx):
    from absint import iter_source
    q = Q(ctx, only={CR}, opaque=headers_api(ctx))
    ctx.rule("enforce_privacy: the ways from the caller's headers to the headers left behind when it returns Ok are followed backwards through every joined state and loop. A way whose facts do not exclude "
             "that the Privacy value asks for id or user ends with every P-Asserted-Identity and P-Preferred-Identity removed and not added again, and for From and Contact either with the header absent or with "
             "all of them removed and one pushed that consists of constants around the anonymous address and at most the part of the old value from a semicolon on; a way whose facts do not exclude header or "
             "user ends with the seven descriptive headers removed. Headers::remove keeps only headers whose name differs from the given one ignoring case. Only 'none' standing alone excludes both; that it stands alone is in the facts of the way or guaranteed by every construction of a PrivacyHeader")
    fn = q.one("privacy::enforce_privacy", CR)
    if fn is None:
        return
    w, H, PV = where(fn), mk("arg", 1), mk("arg", 2)
    KIND = {}
    for x in [s for o in q.e.summary(fn).outcomes for f, _ in o.facts for s in subterms(f)]:
        if x.op == "adt" and strip_generics(x.a[0]).endswith("PrivacyValue"):
            KIND.setdefault("ty", x)

    def variant(name):
        t = KIND.get("ty")
        return t and mk("adt", t.a[0], name, *t.a[2:])

    def holds_for(f, name):
        """does the closure hold of this privacy value (True, False, None when unknown)"""
        r = apply_fn(q, f, [variant(name)]) if variant(name) is not None else None
        vs = {v.a[0] if v.op == "bool" else None for _, v in r} if r else {None}
        return vs.pop() if len(vs) == 1 else None

    def lone_none():
        """no Privacy value can be made, or changed, to list none beside another value"""
        one = mk("int", 1)
        made = 0
        for g in q.p.fns.values():
            if g.crate != CR or "privacy::" not in strip_generics(g.id):
                continue
            sm = q.e.summary(g)
            for ev in sm.events if sm is not None else ():
                if ev.kind in ("wr", "write") and "PrivacyHeader" in str(ev.name):
                    return False
                if ev.kind != "new" or not str(ev.name).endswith("PrivacyHeader"):
                    continue
                made += 1
                v = conv(ev.args[0]) if ev.args else None
                if v is None:
                    return False
                if v is mk("field", mk("arg", 1), "values") and "PrivacyHeader as " in strip_generics(g.id):
                    continue    # a copy of one that was made before
                if v.op == "array" and len([x for x in v.a if isinstance(x, T)]) == 1:
                    continue
                for h in split_ors(q, ev.facts, 64):
                    h = q.close(h)
                    if h is None or q.P.le(call("len", v), one, h, 0):
                        continue
                    if not any(not b and f.op == "call" and f.a[0] == "slice::contains" and f.a[1] is v and f.a[2].op == "adt" and f.a[2].a[1] == "None" for f, b in h):
                        return False
        return made > 0
    lone = lone_none()
    ctx.count("none-stands-alone", int(lone))

    def excluded(k):
        """privacy values the facts exclude"""
        out = set()
        alone = any(f.op == "bin" and f.a[0] == "Eq" and b and f.a[2] == mk("int", 1) and f.a[1].op == "call" and f.a[1].a[0] == "len" and PV in subterms(f.a[1]) for f, b in k)
        for f, b in k:
            if PV not in list(subterms(f)):
                continue
            if b and f.op == "bin" and f.a[0] == "Eq" and any(y.op == "array" and y.a and all(isinstance(z, T) and z.op == "adt" for z in y.a) for y in f.a[1:]):
                # all the values are known
                here = {z.a[1] for y in f.a[1:] if y.op == "array" for z in y.a}
                out |= {"Id", "User", "Header", "Session", "Critical"} - here
            if b and f.op == "forall" and PV in list(subterms(f.a[0])):
                # a loop over the values that has run to its end
                for n in ("Id", "User", "Header"):
                    h = frozenset()
                    for x, xb in f.a[1]:
                        y = is_(variant(n), x.a[1]) if x.op == "is" and x.a[0] is mk("bound", 0) and variant(n) is not None else x
                        h = q.e.add_fact(h, y, xb) if h is not None and variant(n) is not None else h
                    if h is None:
                        out.add(n)
            if f.op != "call":
                continue
            if f.a[0] == "slice::contains" and f.a[2].op == "adt":
                if not b:
                    out.add(f.a[2].a[1])
                elif alone or lone and f.a[2].a[1] == "None":
                    out |= {"Id", "User", "Header", "Session", "Critical"} - {f.a[2].a[1]}
            elif f.a[0] in ("Iterator::any", "Iterator::all") and b == (f.a[0] == "Iterator::all"):
                for n in ("Id", "User", "Header"):
                    if holds_for(f.a[2], n) is (not b):
                        out.add(n)
        return out

    def const_items(t):
        while t.op == "call" and (t.a[0] == "iter" or short(t) in ("copied", "cloned", "into_iter")):
            t = t.a[1]
        if t.op in ("array", "list"):
            ns = [name_text(x) for x in t.a if isinstance(x, T)]
            if ns and all(ns):
                return tuple(ns)
        return None

    def join(k, more):
        for f, b in more:
            k = q.e.add_fact(k, f, b) if k is not None else None
        return k

    def back(t, k, d=0):
        """(changes from the end, facts) for every way back from state t to the caller's headers"""
        if t is H:
            yield (), k
            return
        if d > 60:
            yield (("?", show(t)),), k
            return
        if t.op == "phi":
            ins = q.e.phi_inputs(t)
            carried = [x for x in ins if q.carried(x, t) or x is t]
            ops = ()
            if carried:
                ops = None
                for x in carried:
                    got = set()
                    y = x
                    while y.op == "post" and y.a[0] == "Headers::remove" and y.a[1] == 0:
                        nm = conv(y.a[3])
                        if nm.op == "str":
                            got.add(name_text(nm))
                        elif nm.op == "vf" and nm.a[1] == "Some" and nm.a[0].op == "call" and nm.a[0].a[0] == "Iterator::next":
                            src = iter_source(q.e, nm.a[0].a[1]) if nm.a[0].a[1].op == "phi" else None
                            got |= set(const_items(src) or ()) if src is not None else set()
                        y = y.a[2]
                    if y is not t:
                        ops = (("?", show(x)),)
                        break
                    ops = (got if ops is None else ops & got)
                if not isinstance(ops, tuple):
                    # a round may not happen at all unless the source is a constant list run to its end
                    ops = tuple(("remove", n, None) for n in sorted(ops))
            for x, fs in ins.items():
                if x in carried:
                    continue
                h = join(k, fs)
                if h is not None:
                    for o, g in back(x, h, d + 1):
                        yield ops + o, g
            return
        if t.op == "post" and t.a[1] == 0 and t.a[0].startswith("Headers::") and len(t.a) >= 3:
            m = t.a[0].split("::")[-1]
            n = name_text(t.a[3]) if len(t.a) > 3 else None
            op = (m, n, t.a[4] if len(t.a) > 4 else None) if n else ("?", show(t)) if m not in ("get", "get_smol", "get_all", "count", "len", "iter", "contains", "is_empty") else None
            for o, g in back(t.a[2], k, d + 1):
                yield ((op,) if op else ()) + o, g
            return
        yield (("?", show(t)),), k

    def neutral(v, k):
        """nothing of the old value but what stands from a semicolon on"""
        bad = []
        for y, h in leaves(q, v, k):
            const = ""
            for p in flat(conv(y)):
                if p[0] == "L":
                    const += p[1]
                    continue
                for z, g in leaves(q, p[1], h):
                    z = conv(z)
                    if z.op == "str":
                        const += z.a[0]
                        continue
                    ok = False
                    if z.op == "call" and z.a[0] == "slice" and z.a[3].op != "int" and show(z.a[3]).startswith("none"):
                        at = z.a[2]
                        # the place of a semicolon: found as one, or looked at and seen to be one
                        if at.op == "vf" and at.a[0].op == "call" and short(at.a[0]) in ("find", "rfind", "position"):
                            ok = show(at.a[0].a[2]) in ("c';'", "';'")
                        elif at.op == "field":
                            ok = any(b and f.op == "bin" and f.a[0] == "Eq" and f.a[1].op == "field" and f.a[1].a[0] is at.a[0] and show(f.a[2]) in ("c';'", "59") for f, b in g)
                    if not ok:
                        bad.append(show(z)[:160])
            if ANON not in const:
                bad.append("no anonymous address in " + show(y)[:120])
        return bad

    # removing a header by name takes every one of that name away
    q0 = Q(ctx, only={CR})
    rm = q0.one("headers::Headers::remove", CR)
    h, name = mk("sym", "h"), mk("arg", 2)
    nrm = 0
    for o in q0.e.summary(rm).outcomes if rm is not None else ():
        nrm += 1
        left = conv(proj(o.mem[("A", 1)], ("f", "inner"))) if ("A", 1) in o.mem else None
        while left is not None and left.op == "call" and short(left) in ("collect", "iter", "into_iter", "drain", "cloned"):
            left = left.a[1]
        pred = None
        if left is not None and left.op == "post" and left.a[0] == "Vec::retain" or left is not None and left.op == "call" and left.a[0] == "Iterator::filter":
            pred = apply_fn(q0, left.a[-1], [h])
        def drops(v):
            v = q0.e.add_fact(frozenset(), v, True) if v.op != "bool" else frozenset() if v.a[0] else None
            return v is None or any(not b and f.op == "call" and short(f) == "eq_ignore_ascii_case" and {name, proj(h, ("f", "name"))} == {conv(x) for x in f.a[1:]} for f, b in v)
        ctx.check(bool(pred) and all(drops(v) or any(not b and f.op == "call" and short(f) == "eq_ignore_ascii_case" for f, b in g) for g, v in pred), "remove", where(rm),
                  "Headers::remove can leave a header of the given name, in whatever case, in place")
    q = Q(ctx, only={CR}, opaque=headers_api(ctx))
    ctx.count("remove-ways", nrm)
    ctx.floor("remove-ways", 1)
    nways = nid = nhd = 0
    for o in q.e.summary(fn).outcomes:
        for v, k0 in leaves(q, o.ret, o.facts):
            if not (v.op == "adt" and v.a[1] == "Ok"):
                continue
            end = o.mem.get(("A", 1), H)
            for ops, k in back(end, frozenset(k0)):
                for g in split_ors(q, k, 64):
                    g = q.close(g)
                    if g is None:
                        continue
                    nways += 1
                    ex = excluded(g)
                    unknown = [x[1] for x in ops if x[0] == "?"]
                    ctx.check(not unknown, "change", w, "the headers change in a way that is not understood: " + "; ".join(unknown)[:200])
                    last = {}
                    for x in ops:
                        if x[0] != "?" and x[1] not in last:
                            last[x[1]] = x
                    gone = lambda n: n in last and last[n][0] == "remove"
                    if not {"Id", "User"} <= ex:
                        nid += 1
                        for n in ASSERTED:
                            ctx.check(gone(n), "asserted:" + n, w, f"{n} can be left in the headers although id or user privacy may be asked for")
                        for n in SAYS:
                            absent = any(f.op == "is" and b == (f.a[1] == "None") and hdr_get(f.a[0]) and named(hdr_get(f.a[0])[1], n) for f, b in g)
                            if n not in last:
                                ctx.check(absent, "kept:" + n, w, f"{n} can be left as it was although id or user privacy may be asked for")
                                continue
                            if gone(n):
                                continue
                            seq = [x for x in ops if x[0] != "?" and x[1] == n]
                            ctx.check(len(seq) >= 2 and seq[0][0] == "push" and seq[1][0] == "remove" or seq[0][0] == "set_or_push", "replaced:" + n, w, f"a {n} header of the caller can be left beside the anonymous one")
                            bad = neutral(seq[0][2], g) if seq[0][2] is not None else ["?"]
                            ctx.check(not bad, "says:" + n, w, f"the {n} header that is left can carry more than the anonymous address and header parameters: " + "; ".join(bad)[:220])
                    if not {"Header", "User"} <= ex:
                        nhd += 1
                        for n in REMOVED:
                            ctx.check(gone(n), "removed:" + n, w, f"{n} can be left in the headers although header or user privacy may be asked for")
    for name, n, least in (("ways", nways, 3), ("ways-identity", nid, 1), ("ways-header", nhd, 1)):
        ctx.count(name, n)
        ctx.floor(name, least)


RULES["M03"] = m03
