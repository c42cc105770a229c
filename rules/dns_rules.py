"""Server location (sip-dns)."""
import skel
from prove import chars
from rules._util import *
from rules.identity_rules import conv
from rules.limit_rules import cargs, short, swap
from rules.sdp_rules import added, collected, fresh, one_by_one, origin, pushed, way_leaves

CR = "sip_dns"
FILE = "crates/sip-dns/src/lib.rs"
NAMES = {"udp": "Udp", "tcp": "Tcp", "tls": "Tls", "ws": "Ws", "wss": "Wss", "sctp": "Sctp", "tls-sctp": "TlsSctp"}
SUBSET = ("sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key", "retain", "dedup", "reverse", "truncate", "remove",
          "swap_remove", "pop", "shuffle", "swap", "next", "take", "clear", "reserve", "shrink_to_fit")


def last(t):
    return short_name(t).split("::")[-1]


def inner_array(t):
    """the array of a vec![..] whose box is not yet turned into a list"""
    while t.op == "upd":
        t = t.a[-1]
    return t if t.op == "array" else None


def items(q, coll, facts=frozenset(), loops=None):
    """[(facts, item)]: what the elements of a list are (item: a term; ("of", list) for the elements of a list from outside)"""
    seen, out = set(), []

    def go(c, fs):
        c = iter_base(c)
        if c.op in ("call", "icall") and last(c) in ("collect", "into_iter", "iter", "into_vec", "into_boxed_slice", "to_vec", "clone", "from", "into", "chain", "copied", "cloned", "map", "filter", "filter_map", "rev", "take", "skip"):
            a = args_of(c)
            if last(c) == "chain":
                go(a[0], fs)
                go(a[1], fs)
                return
            if last(c) in ("map", "filter", "filter_map"):
                it = mk("sym", "item", c)
                base, its = stream(q, c, it)
                if its is None:
                    out.append((fs, ("of", c)))
                    return
                for f0, x0 in items(q, base, fs):
                    for f, x in its:
                        out.append((f0 | f, x) if isinstance(x0, tuple) else (join(q, f0, [(swap(t, it, x0), b) for t, b in f]), swap(x, it, x0)))
                return
            go(a[0], fs)
            return
        if c.op == "phi":
            if c in seen:
                return
            seen.add(c)
            head = q.is_head(q.site(c))
            if head and loops is not None:
                loops.add(q.site(c))
            for x, gs in (q.e.phi_edges(c) if head and q.e.phi_edges(c) else ()):
                go(x, frozenset(gs))
            for x, gs in q.e.phi_inputs(c).items():
                if not head or not q.carried(x, c):
                    go(x, fs | frozenset(gs))
            return
        if fresh(c):
            return
        arr = c if c.op == "array" else inner_array(c)
        if arr is not None:
            for x in arr.a:
                out.append((fs, x))
            return
        if c in seen:
            return
        if c.op in ("call", "icall") and last(c) == "next":
            out.append((fs, proj(c, ("v", "Some", "0"))))
            return
        p = pushed(c)
        if p:
            out.append((fs, p[1]))
            go(p[0], fs)
            return
        p = added(c)
        if p:
            go(p[0], fs)
            go(p[1], fs)
            return
        if c.op in ("post", "ipost"):
            if last(c) in SUBSET:
                go(c.a[2] if c.op == "post" else c.a[3], fs)
                return
            if last(c) == "insert" and len(c.a) == 5 and c.op == "post":
                out.append((fs, c.a[4]))
                go(c.a[2], fs)
                return
        out.append((fs, ("of", c)))
    go(coll, frozenset(facts))
    return out


def join(q, *fss):
    return join_facts(q, *fss)


def merge(q, fs, f, loops, sub=None):
    """the facts f of the way an item got into a list, with those of fs (rewritten by sub) that do not speak of the rounds of the loops it was put there in"""
    def stays(t):
        return not any(x.op == "phi" and any(q.site(x) == h or q.encloses(h, q.site(x)) for h in loops) for x in subterms(t))
    return join(q, f, [(sub(t) if sub else t, b) for t, b in fs if stays(t)])


def walked(q, t):
    """the element variables (Iterator::next(..)@Some.0) a value is made of"""
    return {x for x in subterms(t) if x.op == "vf" and x.a[1] == "Some" and x.a[0].op in ("call", "icall") and short(x.a[0]).split("::")[-1] == "next"}


def values(q, t, facts, depth=6):
    """[(facts, value)]: what t can be, elements of lists built here replaced by what was put there and joined values by their inputs"""
    out = []

    def go(t, fs, d):
        if fs is None:
            return
        for nx in sorted(walked(q, t), key=lambda z: z.id) if d else ():
            base, loops = origin(q, nx.a[0].a[-1]), set()
            its = items(q, base, loops=loops) if base is not None else None
            if its is None or any(isinstance(x, tuple) for _, x in its):
                continue
            for f, x in its:
                go(swap(t, nx, x), merge(q, fs, f, loops, lambda a: swap(a, nx, x)), d - 1)
            return
        phs = t if t.op == "phi" else None
        if phs is not None and d:
            for x, gs in q.e.phi_inputs(t).items():
                if not q.carried(x, t):
                    go(x, join(q, fs, gs), d - 1)
            return
        out.append((fs, t))
    go(t, frozenset(facts), depth)
    return out


def resolvers(ctx, q):
    """[(name, fn, self, uri)] for the location procedures"""
    out = []
    for n in ("SipResolver", "DhcpResolver<D, R>", "HybridResolver<D, R>"):
        f = q.p.fn(f"<sip_dns::{n} as sip_dns::Resolver>::resolve::{{closure#0}}")
        ctx.check(f is not None, "anchor:" + n, FILE, f"{n}::resolve not found")
        if f is not None:
            out.append((n.split("<")[0], f, F(mk("arg", 1), "0"), F(mk("arg", 1), "1")))
    return out


def targets(ctx, q, fn):
    """[(facts, target)] of the lists that fn can return"""
    out = []
    for o in q.e.summary(fn).outcomes:
        fs = frozenset(o.facts)
        for v, gs in [(o.ret, fs)]:
            if v.op == "adt" and v.a[1] == "Ok":
                out += items(q, v.a[3], gs)
    return out


SECURE = ("Tls", "Wss", "TlsSctp")


def folded(x, text):
    """x is brought to the case that text is written in"""
    while True:
        u = conv(x)
        if u.op == "call" and last(u) in ("to_ascii_lowercase", "to_lowercase"):
            return text == text.lower()
        if u.op == "call" and last(u) in ("to_ascii_uppercase", "to_uppercase"):
            return text == text.upper()
        if u is x:
            return False
        x = u


def not_str(facts, t, lit_):
    """facts say the string t is not lit, ASCII case aside"""
    for f, b in facts:
        if b:
            continue
        xy = f.a[1:3] if f.op == "bin" and f.a[0] == "Eq" or f.op == "call" and f.a[0] == "eq_ignore_ascii_case" else ()
        for x, y in (xy, xy[::-1]) if xy else ():
            if y.op == "str" and y.a[0].lower() == lit_ and strip_case(x) is t and (f.op == "call" or folded(x, y.a[0])):
                return True
    return False


def transport_param(uri):
    """(the map entry of the transport parameter, its value, its text)"""
    g = simp_call("BTreeMap::get", (F(uri, "params"), mk("str", "transport")))
    v = proj(g, ("v", "Some", "0"))
    return g, v, proj(v, ("v", "Some", "0"))


def fits(k, uri, v):
    """under the facts k the transport v is one a request to uri may use"""
    s = F(uri, "sips")
    secure = v in SECURE
    if (s, True) in k:
        return secure
    if (s, False) not in k and not secure:
        return False
    g, p, x = transport_param(uri)
    if any(f.op == "is" and f.a[0] in (g, p) and (f.a[1] == "None") == b for f, b in k):
        return True
    if any(f.op == "is" and f.a[0] is x0 and f.a[1] == "Some" and not b for f, b in k for x0 in (g, p)):
        return True
    if any(str_is(k, x, n) for n, w in NAMES.items() if w == v):
        return True
    return v == "Udp" and all(not_str(k, x, n) for n, w in NAMES.items() if w != "Udp")


def same_uri(t, uri):
    """t is uri with nothing changed but its host, port and text"""
    while t.op == "upd":
        if t.a[1] not in (("f", "host"), ("f", "port"), ("f", "raw")):
            return False
        t = t.a[0]
    if t is uri:
        return True
    return t.op == "adt" and t.a[0].endswith("SipUri") and all(proj(t, ("f", n)) is F(uri, n) for n in ("sips", "params"))


def asked(c):
    """(the resolver asked, the URI it was asked for) when c is the answer of another resolver"""
    t = c
    while t.op in ("vf", "call", "phi") and not (t.op == "call" and t.a[0].endswith("Resolver::resolve")):
        if t.op == "vf":
            t = t.a[0]
        elif t.op == "call" and len(t.a) == 2:
            t = t.a[1]
        else:
            break
    if t.op in ("call", "icall") and t.a[0].endswith("Resolver::resolve"):
        a = args_of(t)
        return a[-2], a[-1]
    return None


def t01(ctx):
    ctx.rule("[1] for every way an element gets into a list that SipResolver::resolve, DhcpResolver::resolve or HybridResolver::resolve returns as Ok (pushed, collected, or taken over from a "
             "list built in a loop, whose elements are followed to what was put there): under the facts of that way, split into cases, the transport is TLS, WSS or TLS over SCTP unless the "
             "URI is known not to be sips; and it is the one the transport parameter names (ASCII case aside), unless the URI is known to have none, or it is UDP and the name is known to be "
             "none of the others. [2] an element taken over from another resolver's answer comes from a request for this URI with nothing but host, port and text replaced")
    q = Q(ctx, only={CR, "sip_core"})
    for name, fn, me, uri in resolvers(ctx, q):
        n = 0
        for fs, x in targets(ctx, q, fn):
            key = f"{name}:{n}"
            n += 1
            if isinstance(x, tuple):
                a = asked(x[1])
                ctx.check(a is not None and a[0].op == "field" and a[0].a[0] is me and same_uri(conv(a[1]), uri), f"asked:{name}", where(fn), f"{name} returns targets of another origin than its resolver asked for the same URI")
                ctx.count("answers taken over", 1)
                continue
            for gs, v in values(q, proj(x, ("f", "transport")), fs):
                if v.op != "adt" or v.a[1] is None:
                    ctx.violation(f"transport:{name}", where(fn), f"the transport of a target of {name} is not understood: {show(v, 0, 4)[:120]}")
                    continue
                ctx.count("transports of targets", 1)
                ctx.check(always(q, gs, lambda k: fits(k, uri, v.a[1])), f"{v.a[1]}:{name}", where(fn), f"{name} can return a {v.a[1]} target for a URI that does not ask for it")
        ctx.floor("transports of targets", 10)
    ctx.floor("answers taken over", 3)


def subjects(q, t):
    """the joined values a fact is about, and whether it is about anything but an answer from outside"""
    phs, plain, seen = set(), False, set()
    work = [t]
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            work += x
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            if not q.is_head(q.site(x)):
                phs.add(x)
        elif x.op == "field" and x.a[1] in ("sips", "params", "port", "host"):
            plain = True
        elif x.op not in ("icall", "post", "ipost", "forall") and not (x.op == "call" and last(x) in ("await", "format", "timeout", "len")):
            work += x.a
    return phs, plain


def cases(q, facts, lim=64):
    """the facts about what is known of the URI, with the joined values they speak of replaced by each of their inputs"""
    sub = {}

    def about(t):
        if t not in sub:
            sub[t] = subjects(q, t)
        return sub[t]
    out, work, seen = [], [frozenset(facts)], set()
    while work:
        fs = frozenset((t, b) for t, b in work.pop() if any(about(t)))
        if fs in seen:
            continue
        seen.add(fs)
        phs = sorted({x for t, _ in fs for x in about(t)[0]}, key=lambda x: x.id)
        if not phs or len(seen) > lim:
            out.append(fs)
            continue
        for x, gs in q.e.phi_ways(phs[0]):
            f = join(q, [(swap(a, phs[0], x), b) for a, b in fs], [(t, b) for t, b in gs if any(about(t))])
            if f is not None:
                work.append(f)
    return out


def always(q, facts, pred):
    """pred holds in every case of the facts"""
    return any(pred(k) for k in (facts,)) or all(holds(q, f, pred) for f in cases(q, facts))


def container(q, x):
    """the list x is an element of"""
    if x.op == "vf" and x.a[1] == "Some" and x.a[0].op in ("call", "icall"):
        n, a = last(x.a[0]), args_of(x.a[0])
        if n == "next":
            return origin(q, a[-1])
        if n in ("pop", "first", "last", "pop_front", "pop_back", "get") and a:
            return a[0]
    if x.op in ("call", "icall") and last(x) in ("remove", "swap_remove") and "Vec" in short(x):
        return args_of(x)[0]
    if x.op == "idx":
        return x.a[0]
    return None


def spots(q, t):
    """the joined values and list elements a term is made of, outermost first"""
    out, seen = [], set()

    def go(t):
        if isinstance(t, tuple):
            for x in t:
                go(x)
        if not isinstance(t, T) or t in seen:
            return
        seen.add(t)
        if t.op == "phi" or container(q, t) is not None:
            out.append(t)
            return
        for x in t.a:
            go(x)
    go(t)
    return out


def entries(q, fn):
    """[(map, key, item, facts)]: what is appended to the lists of a map made here: map.entry(key).or_default().push(item)"""
    memo = q.__dict__.setdefault("_dns_entries", {})
    if fn not in memo:
        memo[fn] = out = []
        for te in tree(q, fn, lambda ev: ev.kind == "call" and ev.name.split("::")[-1] in ("push", "push_back")):
            for x in [te.args[0]] + (list(q.e.phi_inputs(te.args[0])) if te.args[0].op == "phi" else []):
                if x.op in ("call", "icall") and last(x) in ("or_default", "or_insert", "or_insert_with", "or_insert_with_key"):
                    e = args_of(x)[0]
                    if e.op in ("call", "icall") and last(e) == "entry":
                        out.append((args_of(e)[0], args_of(e)[1], te.args[1], frozenset(te.facts)))
    return memo[fn]


def stored_key(c, k):
    """c (an element list ("of", ..)) is a map that holds the key k"""
    return c.op in ("post", "ipost") and last(c) == "entry" and (c.a[3] if c.op == "post" else c.a[4]) is k


def expand(q, fn, t, facts, depth=10):
    """[(facts, t')]: t with the elements of lists made here replaced by what was put there, and joined values by their inputs"""
    out = []

    def go(t, fs, d):
        if fs is None or any(x.op == "vf" and x.a[0].op == "adt" and x.a[0].a[1] != x.a[1] for x in subterms(t)):
            return
        for s in sorted(spots(q, t), key=lambda s: s.op != "phi") if d else ():
            if s.op == "phi":
                if q.is_head(q.site(s)):
                    ins = [(x, g) for x, g in q.e.phi_inputs(s).items() if x is not s]
                    if any(q.carried(x, s) for x, _ in ins):
                        continue
                else:
                    ins = q.e.phi_ways(s)
                for x, gs in ins:
                    fs2 = join(q, [(swap(a, s, x), b) for a, b in fs], gs)
                    go(swap(t, s, x), fs2, d - 1)
                return
            c, loops = container(q, s), set()
            its = items(q, c, loops=loops)
            if any(isinstance(x, tuple) and x[1] is not c and not mapped(x[1]) for _, x in its):
                continue
            if its and all(isinstance(x, tuple) for _, x in its):
                m = [mapped(x[1]) for _, x in its]
                if not all(m) or len(set(m)) != 1:
                    continue
                e = m[0]
                ents = group(e)
                if not ents:
                    continue
                for key, item, f in ents:
                    def sub(z):
                        return swap(swap(z, s, item), F(e, "0"), key)
                    go(sub(t), merge(q, fs, f, loops | maps(e), sub), d - 1)
                return
            if any(isinstance(x, tuple) for _, x in its):
                continue
            for f, x in its:
                go(swap(t, s, x), merge(q, fs, f, loops, lambda a: swap(a, s, x)), d - 1)
            return
        out.append((fs, t))

    def maps(e):
        loops = set()
        items(q, container(q, e), loops=loops)
        return loops

    def mapped(c):
        """the element of a map whose list c is"""
        c = iter_base(c)
        return c.a[0] if c.op == "field" and c.a[1] == "1" and container(q, c.a[0]) is not None else None

    def group(e):
        m = [x[1] for _, x in items(q, container(q, e)) if isinstance(x, tuple)]
        return [(k, i, f) for _, k, i, f in entries(q, fn) if any(stored_key(c, k) for c in m)]
    go(t, frozenset(facts), depth)
    return out


ASKS = ("lookup_ip", "ipv4_lookup", "ipv6_lookup", "srv_lookup", "lookup", "naptr_lookup", "query_sip_servers")


def asked_of(t):
    """the query whose answer t was taken from"""
    while True:
        if t.op in ("vf", "field"):
            t = t.a[0]
        elif t.op in ("call", "icall") and last(t) in ASKS:
            return t
        elif t.op in ("call", "icall") and len(args_of(t)) >= 1:
            t = args_of(t)[-1] if last(t) in ("timeout", "await") else args_of(t)[0]
        elif t.op == "await":
            t = t.a[0]
        else:
            return None


def answer(q, x, kinds):
    """the query x is one element of the answers of"""
    c = container(q, x)
    a = asked_of(iter_base(c)) if c is not None else None
    return a if a is not None and last(a) in kinds else None


def cv(t):
    """t without conversions, those of generic parameters too"""
    while True:
        u = conv(t)
        if u.op == "icall" and short(u) in ("Into::into", "From::from", "AsRef::as_ref") and len(args_of(u)) == 1:
            u = args_of(u)[0]
        if u is t:
            return t
        t = u


TEXT = ("to_utf8", "to_string", "to_ascii", "trim_end_matches", "to_lowercase", "to_ascii_lowercase", "strip_suffix")


def untext(t):
    """what a text was made of, up to conversion, trailing dots and case"""
    while True:
        t = cv(t)
        if t.op == "call" and last(t) in TEXT and (len(t.a) == 2 or t.a[2] in (mk("str", "."), mk("char", 46), mk("char", "."))):
            t = t.a[1]
        else:
            return t


SRV = {"Udp": ("_sip", "_udp"), "Tcp": ("_sip", "_tcp"), "Tls": ("_sips", "_tcp"), "Sctp": ("_sip", "_sctp"), "TlsSctp": ("_sips", "_sctp")}
SERVICES = {"SIPS+D2T": "Tls", "SIP+D2T": "Tcp", "SIP+D2U": "Udp", "SIPS+D2W": "Wss", "SIP+D2W": "Ws", "SIPS+D2S": "TlsSctp", "SIP+D2S": "Sctp"}


def pieces(t):
    """the texts and values a text is written from"""
    t = cv(t)
    if t.op == "call" and t.a[0] in ("format", "fmt", "disp"):
        out = []
        for x in t.a[1:]:
            for y in pieces(x):
                if y.op == "str" and out and out[-1].op == "str":
                    out[-1] = mk("str", out[-1].a[0] + y.a[0])
                else:
                    out.append(y)
        return out
    if t.op == "post" or t.op == "call" and t.a[0].split("::")[-1] in ("add", "concat", "join"):
        fl = flat(t)
        if all(x[0] in ("L", "T") for x in fl) and not any(x[0] == "T" and x[1] is t for x in fl):
            return [mk("str", x[1]) if x[0] == "L" else cv(x[1]) for x in fl]
    return [t]


def numeric(k, host):
    """True / False / None: the facts say that the host is an address / is none"""
    no = set()
    for f, b in k:
        if f.op == "is" and f.a[1] in ("Ok", "Err") and f.a[0].op == "call" and f.a[0].a[0].startswith("parse:") and cv(f.a[0].a[1]) is host:
            ok = (f.a[1] == "Ok") == b
            ty = f.a[0].a[0].split("::")[-1]
            if ok and ty in ("IpAddr", "Ipv4Addr", "Ipv6Addr"):
                return True
            no.add(ty)
    return False if "IpAddr" in no or {"Ipv4Addr", "Ipv6Addr"} <= no else None


def has(k, t, w):
    """the facts say that the option t is w (Some, None)"""
    return any(f.op == "is" and f.a[0] is t and (f.a[1] == w and b or f.a[1] == ("None" if w == "Some" else "Some") and not b) for f, b in k)


def named(k, t):
    """the variant the facts say t is, when it is not written out"""
    if t.op == "adt":
        return t.a[1]
    for f, b in k:
        if b and f.op == "is" and f.a[0] is t:
            return f.a[1]
    return None


def default_port(k, uri, tr, port):
    """port is the default for the transport"""
    v = named(k, tr)
    if v is None or port.op != "int":
        return False
    if (F(uri, "sips"), True) in k or v in ("Tls", "TlsSctp"):
        return port.a[0] == 5061
    return (F(uri, "sips"), False) in k and port.a[0] == 5060


def given_port(q, gs, uri, tr, port):
    """port is the URI's, or there is none and it is the default"""
    p = F(uri, "port")

    def ok(k):
        if has(k, p, "Some"):
            return port is proj(p, ("v", "Some", "0"))
        return has(k, p, "None") and default_port(k, uri, tr, port)
    return always(q, gs, ok)


def service_of(k, elem, v):
    """the facts say that the service field of the NAPTR record elem names the transport v"""
    field = F(proj(proj(elem, ("f", "data")), ("v", "NAPTR", "0")), "services")
    for f, b in k:
        if not b:
            continue
        if f.op == "call" and last(f) in ("contains", "starts_with", "eq_ignore_ascii_case"):
            x, y = f.a[1], f.a[2]
        elif f.op == "bin" and f.a[0] == "Eq":
            x, y = f.a[1:3]
        else:
            continue
        for x, y in ((x, y), (y, x)):
            if y.op == "str" and SERVICES.get(y.a[0].upper()) == v and any(z is field for z in subterms(x)):
                return True
    return False


def srv_name(q, fn, uri, name, tr, facts):
    """what is wrong with the name asked for SRV records for a transport; None when right"""
    host = F(uri, "host")
    n = 0
    for gs, t in expand(q, fn, mk("tuple", tr, name), facts):
        n += 1
        tr1, nm = t.a
        nm0 = untext(nm)
        rec = nm0.a[0].a[0].a[0] if nm0.op == "field" and nm0.a[1] == "replacement" and nm0.a[0].op in ("vf", "field") and nm0.a[0].a[0].op in ("vf", "field") else None
        v = named(gs, tr1)
        if rec is not None and answer(q, rec, ("lookup", "naptr_lookup")) is not None:
            a = answer(q, rec, ("lookup", "naptr_lookup"))
            if pieces(args_of(a)[1])[:1] != [host] or [x.a[0] for x in pieces(args_of(a)[1])[1:]] not in ([], ["."]):
                return "the NAPTR records asked for are not those of the URI's host"
            if not always(q, gs, lambda k: service_of(k, rec, named(k, tr1))):
                return f"the replacement of a NAPTR record is queried for a transport ({v}) its service field does not name"
            continue
        ps = pieces(nm)
        if len(ps) != 2 or ps[0].op != "str" or ps[1] is not host and not (len(ps) == 3 and ps[1] is host and ps[2] is mk("str", ".")):
            return f"SRV records are asked for another name than _service._proto.host or the replacement of a NAPTR record: {show(nm, 0, 5)[:120]}"

        def table(k):
            w = named(k, tr1)
            lab = ps[0].a[0].rstrip(".").split(".")
            if w is None or len(lab) != 2:
                return False
            if w in ("Ws", "Wss"):
                sv = ("_sips" if w == "Wss" else "_sip", lab[1] if lab[1] in ("_tcp", "_ws", "_wss") else "")
            else:
                sv = SRV[w]
            if (F(uri, "sips"), True) in k:
                sv = ("_sips", sv[1])
            elif (F(uri, "sips"), False) not in k and sv[0] != "_sips":
                return False
            return tuple(lab) == sv
        if not always(q, gs, table):
            return f"SRV records for {v} are asked for at {ps[0].a[0]}host"
    return None if n else "the names SRV records are asked for are not found"


def t02(ctx):
    ctx.rule("[1] every target SipResolver, DhcpResolver or HybridResolver::resolve can return, followed from the list returned through the lists, groups and helpers it went through to the query "
             "answer it was made from, is one of: (a) the URI's host, known to parse as an address, with the URI's port or the default; (b) an address out of lookup_ip for the URI's host, "
             "known not to be an address, with the URI's port, or, only where the list of SRV targets is known to be empty, with the default, and with tls_name = that host; (c) under no port "
             "and a host known not to be an address, host, port and priority of one and the same SRV record, asked for at _sip(s)._proto.host as the transport says or at the replacement of a "
             "NAPTR record of the host whose service field names the transport; (d) for the DHCP procedures, an IPv4 server address with the default port. The default port is 5061 under sips, "
             "TLS or TLS-SCTP and 5060 otherwise. [2] a list returned as Ok has at least one and at most MAX elements")
    q = Q(ctx, only={CR, "sip_core"})
    for name, fn, me, uri in resolvers(ctx, q):
        host = F(uri, "host")
        w = where(fn)
        found = 0
        for fs, x in targets(ctx, q, fn):
            if isinstance(x, tuple):
                continue
            tr = proj(x, ("f", "transport"))
            ways = 0
            for gs, t in expand(q, fn, mk("tuple", *[proj(x, ("f", n)) for n in ("host", "port", "priority", "tls_name")]), fs):
                ways += 1
                h, port, pr, tls = t.a
                h0 = untext(h)
                while h0.op == "adt" and h0.a[0].endswith("IpAddr") and h0.a[3].op == "vf":
                    h0 = h0.a[3].a[0]
                if h0 is host:
                    ctx.count("targets: the URI's address", 1)
                    ctx.check(always(q, gs, lambda k: numeric(k, host) is True), f"numeric:{name}", w, f"{name} can return the URI's host as target although it is not known to be an address")
                    ctx.check(all(given_port(q, g2, uri, t2, port) for g2, t2 in expand(q, fn, tr, gs)), f"port-numeric:{name}", w, f"{name}: the port of a numeric target is not the URI's or the default: {show(port)}")
                    continue
                a = answer(q, h0, ("lookup_ip", "ipv4_lookup", "ipv6_lookup"))
                if a is not None:
                    ctx.count("targets: addresses of the host", 1)
                    asked_host = cv(args_of(a)[-1])
                    ctx.check(asked_host is host and always(q, gs, lambda k: numeric(k, host) is False), f"address-of:{name}", w, f"{name}: addresses are looked up for something else than the URI's host name")
                    ctx.check(all(given_port(q, g2, uri, t2, port) for g2, t2 in expand(q, fn, tr, gs)), f"port-address:{name}", w, f"{name}: the port of an address of the host is not the URI's or the default: {show(port)}")
                    ctx.check(tls.op == "adt" and tls.a[1] == "Some" and cv(tls.a[3]) is asked_host, f"tls-name:{name}", w, f"{name}: an address found for a name does not carry that name for certificate checks")
                    ctx.check(always(q, gs, lambda k: has(k, F(uri, "port"), "Some") or empty_srv(q, fn, k)), f"fallback:{name}", w, f"{name} can add the host's addresses although there are SRV targets")
                    continue
                if h0.op == "field" and h0.a[1] == "target" and h0.a[0].op == "vf" and h0.a[0].a[1] == "SRV":
                    rec = h0.a[0]
                    elem = rec.a[0].a[0]
                    a = answer(q, elem, ("srv_lookup", "lookup"))
                    ctx.count("targets: SRV records", 1)
                    if not ctx.check(a is not None, f"srv:{name}", w, f"{name}: a target does not come from the answer of an SRV query: {show(h, 0, 5)[:120]}"):
                        continue
                    ctx.check(port is F(rec, "port"), f"srv-port:{name}", w, f"{name}: the port of an SRV target is not that of the record")
                    ctx.check(pr is F(rec, "priority"), f"srv-priority:{name}", w, f"{name}: the priority of an SRV target is not that of the record")
                    ctx.check(tls.op == "adt" and (tls.a[1] == "None" or cv(tls.a[3]) is host or cv(tls.a[3]) is cv(h)), f"srv-tls:{name}", w, f"{name}: an SRV target carries a foreign name for certificate checks")
                    ctx.check(always(q, gs, lambda k: has(k, F(uri, "port"), "None") and numeric(k, host) is False), f"srv-when:{name}", w, f"{name} can return SRV targets although the URI has a port or an address")
                    why = srv_name(q, fn, uri, args_of(a)[1] if len(args_of(a)) > 1 else args_of(a)[0], tr, gs)
                    ctx.check(why is None, f"srv-name:{name}", w, f"{name}: {why}")
                    continue
                if h0.op == "vf" and h0.a[1] == "Ipv4":
                    a = answer(q, h0.a[0], ("query_sip_servers",))
                    if a is not None:
                        ctx.count("targets: DHCP servers", 1)
                        ctx.check(all(always(q, g2, lambda k: default_port(k, uri, t2, port)) for g2, t2 in expand(q, fn, tr, gs)), f"port-dhcp:{name}", w, f"{name}: the port of a DHCP server is not the default")
                        continue
                ctx.violation(f"origin:{name}", w, f"{name}: the host of a target is none of: the URI's address, an address of the host, the target of an SRV record, a DHCP server: {show(h, 0, 6)[:160]}")
            found += ways
        ctx.check(found > 0, f"none:{name}", w, f"no target of {name} is understood")
        for o in q.e.summary(fn).outcomes:
            if o.ret.op == "adt" and o.ret.a[1] == "Ok":
                ctx.count("lists returned", 1)
                taken = lambda c: asked(c) is not None
                ctx.check(sized(q, o.ret.a[3], frozenset(o.facts), lambda n, f: q.P.le(Int(1), n, f, 0), taken), f"empty:{name}", w, f"{name} can return Ok with no target")
                ctx.check(sized(q, o.ret.a[3], frozenset(o.facts), lambda n, f: q.P.le(n, Int(100), f, 0)), f"many:{name}", w, f"{name} can return more than 100 targets")
    ctx.floor("targets: the URI's address", 8)
    ctx.floor("targets: addresses of the host", 8)
    ctx.floor("targets: SRV records", 3)
    ctx.floor("targets: DHCP servers", 8)


def sized(q, lst, facts, ok, skip=None, depth=8):
    """the length of the list is ok on every way to it"""
    if skip is not None and skip(lst):
        return True
    if ok(simp_call("len", (lst,)), facts):
        return True
    base = lst
    while base.op in ("call", "icall") and last(base) in ("collect", "map", "iter", "into_iter", "rev", "copied", "cloned", "clone", "enumerate") and args_of(base):
        base = args_of(base)[0]
    if base is not lst and ok(simp_call("len", (base,)), facts):
        return True
    if lst.op == "phi" and q.is_head(q.site(lst)):
        r = collected(q, lst)
        return r is not None and r[0] is not lst and walked_out(q, lst, facts) and ok(simp_call("len", (bare(r[0]),)), facts)
    if lst.op == "phi" and depth and not q.is_head(q.site(lst)):
        ways = q.e.phi_ways(lst)
        return bool(ways) and all(sized(q, x, f, ok, skip, depth - 1) for x, gs in ways for f in [join(q, facts, gs)] if f is not None)
    return False


def empty_srv(q, fn, k):
    """the facts say that a list which SRV targets go into is empty"""
    for f, b in k:
        if f.op == "bin" and f.a[0] == "Eq" and b and Int(0) in f.a[1:3]:
            n = f.a[1] if f.a[2] is Int(0) else f.a[2]
            if n.op == "call" and n.a[0] == "len":
                for gs, x in items(q, n.a[1]):
                    if not isinstance(x, tuple) and any(untext(t.a[0]).op == "field" and untext(t.a[0]).a[1] == "target" for _, t in expand(q, fn, mk("tuple", proj(x, ("f", "host"))), gs)):
                        return True
    return False



def eq(q, a, b, facts):
    """a = b, as far as differences go"""
    return a is b or q.P.le(a, b, facts, 0) and q.P.le(b, a, facts, 0)


def is_len(t, x):
    return t.op == "call" and t.a[0] == "len" and t.a[1] is x


def fact_empty(k, x):
    """True / False / None: the facts say that x is empty / is not"""
    for f, b in k:
        if f.op == "bin" and f.a[0] == "Eq" and Int(0) in f.a[1:3] and any(is_len(y, x) for y in f.a[1:3]):
            return b
    return None


def words4(q, v, data, wrap=None):
    """what is wrong with a list meant to hold one IPv4 address for each four bytes of data, in order; None when right"""
    r = collected(q, v)
    if r is None:
        return f"the list is not made of one item for each word: {show(v, 0, 4)[:120]}"
    base, its, it = r
    while base.op == "call" and last(base) in ("iter", "into_iter", "array_chunks", "into_remainder"):
        base = base.a[1]
    if not (base.op == "call" and last(base) in ("chunks_exact", "chunks", "as_chunks") and base.a[1] is data and base.a[2] is Int(4)):
        return f"the addresses are not read from the words of four bytes: {show(base, 0, 4)[:120]}"
    for f, x in its:
        if wrap is not None:
            if x.op != "adt" or x.a[1] != wrap:
                return f"an address becomes a {show(x, 0, 3)[:80]}"
            x = x.a[3]
        x = cv(x)
        if x.op == "call" and last(x) == "new" and len(x.a) == 5:
            if any(cv(y).op != "idx" or cv(y).a[0] is not it or cv(y).a[1] is not Int(n) for n, y in enumerate(x.a[1:])):
                return f"an address is not made of the four bytes of its word in order: {show(x, 0, 5)[:120]}"
        elif x.op == "array" and len(x.a) == 4:
            if any(cv(y).op != "idx" or cv(y).a[0] is not it or cv(y).a[1] is not Int(n) for n, y in enumerate(x.a)):
                return f"an address is not made of the four bytes of its word in order: {show(x, 0, 5)[:120]}"
        else:
            return f"an address is made of something else than its word: {show(x, 0, 4)[:120]}"
    if len(its) != 1:
        return "a word can become different things"
    return None


def walked_out(q, lst, k):
    """the loop that fills the list runs to the end of what it walks over"""
    if lst.op != "phi":
        return True
    return any(b and f.op == "is" and f.a[1] == "None" and f.a[0].op == "call" and last(f.a[0]) == "next" and f.a[0].a[-1].op == "phi" and q.site(f.a[0].a[-1]) == q.site(lst) for f, b in k)


def words_ok(q, k, data):
    return any(b and f.op == "call" and last(f) == "is_multiple_of" and is_len(f.a[1], data) and f.a[2] is Int(4) for f, b in k) or \
        any(b and f.op == "bin" and f.a[0] == "Eq" and Int(0) in f.a[1:3] and any(x.op == "bin" and x.a[0] == "Rem" and is_len(x.a[1], data) and x.a[2] is Int(4) for x in f.a[1:3]) for f, b in k)


def words_bad(q, k, data):
    return any(not b and f.op == "call" and last(f) == "is_multiple_of" and is_len(f.a[1], data) and f.a[2] is Int(4) for f, b in k) or \
        any(not b and f.op == "bin" and f.a[0] == "Eq" and Int(0) in f.a[1:3] and any(x.op == "bin" and x.a[0] == "Rem" and is_len(x.a[1], data) and x.a[2] is Int(4) for x in f.a[1:3]) for f, b in k)


def byte_of(t, data):
    """the position p when t is data[p]"""
    t = cv(t)
    while t.op in ("cast", "conv") or t.op == "call" and last(t) in ("from", "into") and len(t.a) == 2:
        t = t.a[-1] if t.op == "call" else t.a[0]
    return t.a[1] if t.op == "idx" and t.a[0] is data else None


def names(q, lst, data, facts):
    """what is wrong with a list meant to hold the names encoded in data as labels with their length in front; None when right"""
    if lst.op != "phi" or not q.is_head(q.site(lst)):
        return f"the names are not gathered in a loop: {show(lst, 0, 4)[:120]}"
    if not all(fresh(x) or q.carried(x, lst) for x in q.e.phi_inputs(lst)):
        return "the list of names does not start empty"
    poss = set()
    for x, fs in q.e.phi_edges(lst):
        p = pushed(x)
        if p is None or not (p[0].op == "phi" and (p[0] is lst or q.carried(p[0], lst) or unchanged(q, p[0], lst))):
            return f"the list of names is not added to in each round: {show(x, 0, 4)[:120]}"
        it = p[1]
        if it.op != "adt" or it.a[1] != "Domain":
            return f"a name becomes {show(it, 0, 3)[:80]}"
        t = cv(it.a[3])
        if not (t.op == "call" and last(t) in ("join", "concat") and last(t) == "join" and t.a[2] in (mk("str", "."), mk("char", 46))):
            return f"a name is not its labels joined by dots: {show(t, 0, 4)[:120]}"
        labels = t.a[1]
        if labels.op != "phi" or not q.is_head(q.site(labels)) or not all(fresh(y) or q.carried(y, labels) for y in q.e.phi_inputs(labels)):
            return f"the labels are not gathered in a loop from an empty list: {show(labels, 0, 4)[:120]}"
        if fact_empty(fs, labels) is not False:
            return "a name without labels can be returned"
        pos = None
        for y, gs in q.e.phi_edges(labels):
            pp = pushed(y)
            if pp is None or pp[0] is not labels:
                return f"the list of labels is not added to in each round: {show(y, 0, 4)[:120]}"
            lab = pp[1]
            while lab.op == "vf" or lab.op == "call" and last(lab) in ("from_utf8_lossy", "from_utf8", "to_string", "into_owned", "new"):
                lab = lab.a[0] if lab.op == "vf" else lab.a[1]
            if not (lab.op == "call" and last(lab) == "slice" and lab.a[1] is data):
                return f"a label is not a piece of the data: {show(lab, 0, 4)[:120]}"
            lo, hi = lab.a[2:4]
            ps = {byte_of(z, data) for z in subterms(mk("tuple", hi)) if byte_of(z, data) is not None}
            if len(ps) != 1:
                return f"the end of a label does not come from one length byte: {show(hi, 0, 4)[:120]}"
            pos = ps.pop()
            n = next(z for z in subterms(mk("tuple", hi)) if z.op == "idx" and z.a[0] is data)
            if not (eq(q, lo, binop("Add", pos, Int(1)), gs) and linear(hi) == linear(binop("Add", binop("Add", pos, Int(1)), n))):
                return f"a label is not the bytes after its length byte: {show(lab, 0, 5)[:120]}"
            if not holds(q, gs, lambda k: any(f.op == "bin" and f.a[0] == "Eq" and not b and n in f.a[1:3] and Int(0) in f.a[1:3] for f, b in k) or q.P.le(Int(1), n, k, 0)):
                return "an empty label is not taken for the end of the name"
            if not holds(q, gs, lambda k: q.P.le(n, Int(63), k, 0)):
                return "a label can have more than 63 bytes"
            if pos.op != "phi" or q.site(pos) != q.site(labels):
                return f"the position of the length byte is not that of the walk: {show(pos)}"
            if any(linear(z) != linear(hi) for z, _ in q.e.phi_edges(pos)):
                return "the next label is not read where the one before ended"
            poss.add(pos)
        if pos is None or not holds(q, fs, lambda k: any(b and f.op == "bin" and f.a[0] == "Eq" and Int(0) in f.a[1:3] and any(byte_of(z, data) is pos for z in f.a[1:3]) for f, b in k)):
            return "a name does not end at a length byte of 0"
        outer = [z for z in q.e.phi_inputs(pos) if not q.carried(z, pos)]
        if len(outer) != 1 or outer[0].op != "phi" or q.site(outer[0]) != q.site(lst):
            return "a name does not start where the walk stands"
        top = outer[0]
        ins = [z for z in q.e.phi_inputs(top) if not q.carried(z, top)]
        if ins != [Int(0)]:
            return "the first name is not read from the start of the data"
        if any(linear(z) != linear(binop("Add", pos, Int(1))) for z, _ in q.e.phi_edges(top)):
            return "the next name is not read behind the one before"
        if not holds(q, facts, lambda k: q.P.le(simp_call("len", (data,)), top, k, 0)):
            return "the walk over the names ends before the end of the data"
    return None if poss else "no name is added"


def unchanged(q, p, lst):
    """p is lst carried through an inner loop that leaves it as it is"""
    return all(x is p or x is lst or q.carried(x, p) and all(y is p for y, _ in q.e.phi_edges(p)) for x in q.e.phi_inputs(p))


def linear(t):
    """t as a sum: {term: factor}"""
    out = {}

    def go(t, s):
        if t.op == "bin" and t.a[0] in ("Add", "Sub"):
            go(t.a[1], s)
            go(t.a[2], s if t.a[0] == "Add" else -s)
        elif t.op == "int":
            out[None] = out.get(None, 0) + s * t.a[0]
        else:
            while t.op in ("cast", "conv"):
                t = t.a[0]
            out[t] = out.get(t, 0) + s
    go(t, 1)
    return {k: v for k, v in out.items() if v}


def names_bad(q, k, data):
    """the facts show the data not to be encoded names: a name cut off, a label too long, without labels or no name at all"""
    for f, b in k:
        if f.op != "bin":
            continue
        n = [y for y in f.a[1:3] if byte_of(y, data) is not None]
        if n and q.P.le(Int(64), n[0], k, 0):
            return True
        if f.a[0] == "Eq" and b and Int(0) in f.a[1:3]:
            for y in f.a[1:3]:
                if y.op == "call" and y.a[0] == "len" and y.a[1].op == "phi" and any(pushed(z) for z, _ in q.e.phi_edges(y.a[1])):
                    return True
        ln = simp_call("len", (data,))
        for y in f.a[1:3]:
            for z in (y, *([y.a[1]] if y.op == "bin" else [])):
                if z.op == "phi" and q.P.le(ln, z, k, 0):
                    return True
            m = [x for x in linear(y) if x is not None and byte_of(x, data) is not None]
            if m and (q.P.le(ln, y, k, -1)):
                return True
    return False


def t04(ctx):
    ctx.rule("the values the parsers of the DHCP options return are computed symbolically. Option 150, and option 120 with 1 as first byte: an Ok list has one address Ipv4Addr(w[0], w[1], w[2], w[3]) for each word "
             "of chunks_exact(4) of the data (behind the first byte for option 120), in order and to the end, where the length is known to be a multiple of 4 and the list not empty; an Err only where "
             "the data is empty, no multiple of 4 or no address. Option 120 with 0 as first byte: by the recurrences of the loops, each name is its labels joined by '.', each label the n = data[p] bytes "
             "behind p with n in 1..63, p going on to behind the label, a name ending at data[p] = 0 with at least one label, the next starting behind it, the last at the end of the data; an Err only where "
             "the data ends within a name, a length is above 63, a name has no label or there is none. Any other first byte is an Err. Option 66: the text of all the data, an Err only for none")
    q = Q(ctx, only={CR})
    arg = mk("arg", 1)
    for nm in ("parse_dhcp_option_150", "parse_dhcp_option_66", "parse_dhcp_option_120"):
        fn = q.one("sip_dns::" + nm, CR)
        if not ctx.check(fn is not None, f"missing:{nm}", FILE, f"{nm} is not found"):
            continue
        w = where(fn)
        for o in q.e.summary(fn).outcomes:
            for v, fs in leaves(q, o.ret, frozenset(o.facts)):
                if v.op != "adt" or v.a[1] not in ("Ok", "Err"):
                    ctx.violation(f"value:{nm}", w, f"the value {nm} returns is not understood: {show(v, 0, 4)[:120]}")
                    continue
                lit_ = v.a[1]
                if lit_ == "Ok":
                    for x, gs in leaves(q, v.a[3], fs, heads=False):
                        ctx.count("results", 1)
                        if nm == "parse_dhcp_option_66":
                            t = cv(x.a[3] if x.op == "adt" else x)
                            while t.op == "call" and last(t) in ("from_utf8_lossy", "to_string", "into_owned"):
                                t = t.a[1]
                            ctx.check(t is arg, f"text:{nm}", w, f"{nm} returns something else than the text of the data: {show(x, 0, 4)[:120]}")
                            ctx.check(holds(q, gs, lambda k: nothing_in(k, arg) is False), f"empty:{nm}", w, f"{nm} accepts an empty option")
                            continue
                        data, kind = arg, 1
                        if nm == "parse_dhcp_option_120":
                            data = simp_call("slice", (arg, Int(1), mk("none")))
                            data = next((s for s in deep_subterms(q, mk("tuple", x)) if is_rest(s, arg)), data)
                            kind = next((n for n in (0, 1) if holds(q, gs, lambda k: first_byte(k, arg, n))), None)
                            if not ctx.check(kind is not None, f"encoding:{nm}", w, f"{nm} accepts data without knowing its encoding"):
                                continue
                        if kind == 1:
                            ctx.count("lists of addresses", 1)
                            why = words4(q, x, data, "Ipv4" if nm == "parse_dhcp_option_120" else None)
                            ctx.check(why is None, f"addresses:{nm}", w, f"{nm}: {why}")
                            ctx.check(walked_out(q, x, gs), f"part:{nm}", w, f"{nm} can leave out addresses at the end")
                            ln = simp_call("len", (data,))
                            ctx.check(holds(q, gs, lambda k: words_ok(q, k, data) or words_ok_len(k, arg, data)), f"length:{nm}", w, f"{nm} accepts data that is no multiple of four bytes")
                            ctx.check(holds(q, gs, lambda k: fact_empty(k, x) is False or q.P.le(Int(1), simp_call("len", (x,)), k, 0) or q.P.le(Int(1), ln, k, 0)), f"empty:{nm}", w, f"{nm} accepts an option without an address")
                        else:
                            ctx.count("lists of names", 1)
                            why = names(q, x, data, gs)
                            ctx.check(why is None, f"names:{nm}", w, f"{nm}: {why}")
                            ctx.check(holds(q, gs, lambda k: fact_empty(k, x) is False), f"empty:{nm}", w, f"{nm} accepts an option without a name")
                else:
                    ctx.count("refusals", 1)
                    data = next((s for s in deep_subterms(q, mk("tuple", *[f for f, _ in fs])) if is_rest(s, arg)), simp_call("slice", (arg, Int(1), mk("none"))))

                    def reason(k):
                        if nothing_in(k, arg) is True:
                            return True
                        if nm == "parse_dhcp_option_66":
                            return False
                        if nm == "parse_dhcp_option_150":
                            return words_bad(q, k, arg) or any(f.op == "bin" and f.a[0] == "Eq" and b and Int(0) in f.a[1:3] and any(y.op == "call" and y.a[0] == "len" and words4(q, y.a[1], arg) is None for y in f.a[1:3]) for f, b in k)
                        if first_byte(k, arg, 1):
                            return words_bad(q, k, data) or words_bad_len(k, arg) or any(f.op == "bin" and f.a[0] == "Eq" and b and Int(0) in f.a[1:3] and any(y.op == "call" and y.a[0] == "len" and words4(q, y.a[1], data, "Ipv4") is None for y in f.a[1:3]) for f, b in k)
                        if first_byte(k, arg, 0):
                            return names_bad(q, k, data)
                        return first_byte(k, arg, 0, False) and first_byte(k, arg, 1, False)
                    ctx.check(holds(q, fs, reason), f"refusal:{nm}", w, f"{nm} can refuse well-formed data")
    ctx.floor("lists of addresses", 2)
    ctx.floor("lists of names", 1)
    ctx.floor("refusals", 3)


def is_first(y, data):
    """y is the first byte of the data"""
    y = cv(y)
    if y.op == "idx" and y.a[1] is Int(0):
        z = y.a[0]
        if z.op == "call" and z.a[0] == "slice" and z.a[1] is data and (z.a[2] is mk("none") or z.a[2] is Int(0)):
            return True
        return z is data or z.op == "field" and z.a[1] == "0" and z.a[0].op == "call" and last(z.a[0]) == "split_at" and z.a[0].a[1] is data
    if y.op == "field" and y.a[1] == "0" and y.a[0].op == "vf" and y.a[0].a[0].op == "call" and last(y.a[0].a[0]) == "split_first":
        return y.a[0].a[0].a[1] is data
    if y.op == "vf" and y.a[1] == "Some" and y.a[0].op == "call":
        z = y.a[0]
        return last(z) == "first" and z.a[1] is data or last(z) == "get" and z.a[1] is data and z.a[2] is Int(0)
    return False


def is_rest(t, data):
    """t is what follows the first byte of the data"""
    if t.op == "call" and t.a[0] == "slice":
        return t.a[1] is data and t.a[2] is Int(1)
    if t.op == "field" and t.a[1] == "1":
        x = t.a[0]
        if x.op == "vf" and x.a[0].op == "call" and last(x.a[0]) == "split_first":
            return x.a[0].a[1] is data
        return x.op == "call" and last(x) == "split_at" and x.a[1] is data and x.a[2] is Int(1)
    return False


def nothing_in(k, data):
    """True / False / None: the facts say that the data is empty"""
    e = fact_empty(k, data)
    if e is not None:
        return e
    for f, b in k:
        if f.op == "is" and f.a[0].op == "call" and (last(f.a[0]) in ("split_first", "first") or last(f.a[0]) == "get" and f.a[0].a[2] is Int(0)) and f.a[0].a[1] is data:
            return (f.a[1] == "None") == b
    return None


def first_byte(k, data, n, want=True):
    """the facts say that data[0] is n (is not n)"""
    return any(b == want and f.op == "bin" and f.a[0] == "Eq" and Int(n) in f.a[1:3] and any(is_first(y, data) for y in f.a[1:3]) for f, b in k) or \
        not want and any(b and f.op == "bin" and f.a[0] == "Eq" and any(is_first(y, data) for y in f.a[1:3]) and any(z.op == "int" and z.a[0] != n for z in f.a[1:3]) for f, b in k)


def shorter(t, arg):
    """t is len(arg) - 1"""
    return linear(t) == {simp_call("len", (arg,)): 1, None: -1}


def words_len(k, arg, want):
    return any(b == want and f.op == "call" and last(f) == "is_multiple_of" and shorter(f.a[1], arg) and f.a[2] is Int(4) for f, b in k) or \
        any(b == want and f.op == "bin" and f.a[0] == "Eq" and Int(0) in f.a[1:3] and any(x.op == "bin" and x.a[0] == "Rem" and shorter(x.a[1], arg) and x.a[2] is Int(4) for x in f.a[1:3]) for f, b in k)


def words_ok_len(k, arg, data):
    return words_len(k, arg, True)


def words_bad_len(k, arg):
    return words_len(k, arg, False)



def bare(t):
    """t without conversions and without being turned from a list into an iterator and back"""
    while True:
        u = cv(t)
        if u.op in ("call", "icall") and last(u) in ("collect", "iter", "into_iter", "copied", "cloned", "as_slice", "to_vec") and len(args_of(u)) == 1:
            u = args_of(u)[0]
        if u is t:
            return t
        t = u


def number_text(q, number, v, facts):
    """the text v in canonical form, the digits of the number called D"""
    sk = skel.Skel(q, stream)
    can = skel.Canon(q, {}, bare)
    text = can.text(skel.norm(skel.factor(sk, [(facts, sk.seq(v, frozenset(), None, 0))])))
    for x in sorted({x for x in deep_subterms(q, mk("tuple", v)) if is_digits(x, number) and cv(x) is x}, key=lambda x: -len(show(x, 0, 9))):
        text = text.replace(can.term(x), "D")
    return text


def plus(t):
    return t.op == "str" and t.a[0] == "+" or t.op == "char" and t.a[0] in (43, "+")


def is_digits(x, number):
    """x is what follows the '+' in the number"""
    x = cv(x)
    if x.op == "vf" and x.a[1] == "Some" and x.a[0].op == "call" and last(x.a[0]) == "strip_prefix":
        return cv(x.a[0].a[1]) is number and plus(x.a[0].a[2])
    return x.op == "call" and x.a[0] == "slice" and cv(x.a[1]) is number and x.a[2] is Int(1)


def begins(k, number):
    """True / False / None: the facts say that the number begins with '+'"""
    for f, b in k:
        if f.op == "is" and f.a[0].op == "call" and last(f.a[0]) == "strip_prefix" and cv(f.a[0].a[1]) is number and plus(f.a[0].a[2]):
            return (f.a[1] == "Some") == b
        if f.op == "call" and last(f) == "starts_with" and cv(f.a[1]) is number and plus(f.a[2]):
            return b
    return None


def no_number(q, k, number):
    """the facts show the number not to be a '+' and digits"""
    if begins(k, number) is False:
        return True
    dig = chars("0123456789")
    for f, b in k:
        for x in subterms(mk("tuple", f)):
            if is_digits(x, number):
                if fact_empty(k, x) is True:
                    return True
                if f.op == "call" and last(f) in ("all", "any", "contains") and (last(f) != "all") == b and q.P.char_source(f.a[1])[0] is not None or f.op == "call" and last(f) == "contains" and b:
                    if (q.P.predset(f.a[2], last(f) != "all") & dig).r == ():
                        return True
            if x.op == "vf" and x.a[0].op == "call" and last(x.a[0]) == "next" and (q.P.atom(f, b, x) & dig).r == ():
                o = origin(q, x.a[0].a[-1])
                src = q.P.char_source(o)[0] if o is not None else None
                if is_digits(src if src is not None else o or x, number):
                    return True
    return False


def order_of(q, x, a, b, facts):
    """the keys, [(field, ..)], by which the comparison x of a with b goes, first key first; None when unknown"""
    if x.op == "call" and last(x) in ("cmp", "total_cmp") and len(x.a) == 3:
        y, z = x.a[1:]
        if y.op == "tuple" and z.op == "tuple":
            out = []
            for m, n in zip(y.a, z.a):
                k = order_of(q, mk("call", "Ord::cmp", m, n), a, b, facts)
                if k is None:
                    return None
                out += k
            return out
        if y.op == "field" and z.op == "field" and y.a[0] is a and z.a[0] is b and y.a[1] == z.a[1]:
            return [y.a[1]]
        return None
    if x.op == "call" and last(x) == "then":
        k = [order_of(q, y, a, b, facts) for y in x.a[1:]]
        return None if None in k else k[0] + k[1]
    if x.op == "call" and last(x) == "then_with":
        k = order_of(q, x.a[1], a, b, facts)
        r = apply_fn(q, x.a[2], [])
        m = [order_of(q, y, a, b, facts) for _, y in r or ()]
        return k + m[0] if k is not None and m and None not in m and all(z == m[0] for z in m) else None
    return None


def sort_keys(q, t):
    """the keys a sorted list, or the least element of one, goes by; None when unknown"""
    a, b = mk("sym", "a"), mk("sym", "b")
    clo = t.a[-1]
    n = last(t)
    r = apply_fn(q, clo, [a] if "key" in n else [a, b])
    if r is None:
        return None
    if "key" in n:
        if len(r) != 1:
            return None
        k = r[0][1]
        ks = [cv(x) for x in (k.a if k.op == "tuple" else [k])]
        return [x.a[1] for x in ks] if all(x.op == "field" and x.a[0] is a for x in ks) else None
    out = set()
    for fs, x in r:
        if x.op == "adt" and x.a[1] in ("Less", "Greater", "Equal"):
            return None
        ks = order_of(q, x, a, b, fs)
        if ks is None:
            return None
        pre = []
        for f, w in fs:
            if f.op == "is" and f.a[1] == "Equal":
                k = order_of(q, f.a[0], a, b, fs)
                if k is None:
                    return None
                if w:
                    pre += k
                else:
                    if k != ks:
                        return None
            elif f.op == "bin" and f.a[0] == "Eq" and w and all(y.op == "field" for y in f.a[1:]):
                pre.append(f.a[1].a[1])
            elif f.op not in ("or",):
                if not (f.op == "bin" and f.a[0] in ("Eq", "Lt", "Le")):
                    return None
        out.add(tuple(pre + ks))
    # the cases in which a key decides alone come before those that go on to the next
    full = max(out, key=len) if out else None
    return list(full) if full is not None and all(k == full[:len(k)] for k in out) else None


def is_sip(k, it):
    """True / False / None: the facts say that the service of the record is E2U+sip"""
    for f, b in k:
        x = None
        if f.op == "call" and last(f) == "eq_ignore_ascii_case":
            x = f.a[1:3]
            n = "e2u+sip"
        elif f.op == "bin" and f.a[0] == "Eq":
            x = f.a[1:3]
            n = None
        for y, z in (x, x[::-1]) if x else ():
            if z.op != "str" or z.a[0].lower() != "e2u+sip":
                continue
            if n and cv(y) is F(it, "service"):
                return b
            y = cv(y)
            if not n and y.op == "call" and last(y) in ("to_ascii_lowercase", "to_lowercase", "to_ascii_uppercase", "to_uppercase") and cv(y.a[1]) is F(it, "service") and (z.a[0] == (z.a[0].lower() if "lower" in last(y) else z.a[0].upper())):
                return b
    return None


def the_sip_ones(q, t, recs):
    """t is the list of those of recs whose service is E2U+sip"""
    t = bare(t)
    if t.op in ("call", "icall") and last(t) == "filter":
        base, clo = args_of(t)[-2:]
        it = mk("sym", "item")
        yes, no = closure_cases(q, clo, [it], True), closure_cases(q, clo, [it], False)
        return bare(base) is recs and bool(yes) and no is not None and all(holds(q, k, lambda h: is_sip(h, it) is True) for k in yes) and all(holds(q, k, lambda h: is_sip(h, it) is False) for k in no)
    if t.op == "phi" and q.is_head(q.site(t)):
        if not all(fresh(x) or q.carried(x, t) for x in q.e.phi_inputs(t)):
            return False
        for x, fs in q.e.phi_edges(t):
            for v, f in way_leaves(q, x, fs, top=q.site(t)):
                k = q.close(f)
                if k is None:
                    continue
                p = pushed(v)
                nx = {y for g, _ in k for y in subterms(g) if y.op == "call" and last(y) == "next" and y.a[-1].op == "phi" and q.site(y.a[-1]) == q.site(t)}
                nx |= {y for y in subterms(p[1])if y.op == "call" and last(y) == "next"} if p else set()
                if len(nx) != 1 or bare(origin(q, next(iter(nx)).a[-1]) or t) is not recs:
                    return False
                it = proj(next(iter(nx)), ("v", "Some", "0"))
                if p is not None:
                    if p[0] is not t or cv(p[1]) is not it or not holds(q, f, lambda h: is_sip(h, it) is True):
                        return False
                elif v is not t or not holds(q, f, lambda h: is_sip(h, it) is False):
                    return False
        return True
    return False


def best(q, t, recs):
    """what is wrong with t as the option of the first of the E2U+sip records in order; None when right"""
    while t.op in ("call", "icall") and last(t) in ("cloned", "copied", "map") and len(t.a) >= 2:
        if last(t) == "map" and not any(last(x) == "clone" for x in subterms(mk("tuple", t.a[-1])) if x.op == "fn"):
            break
        t = args_of(t)[0]
    if t.op in ("call", "icall") and last(t) in ("min_by", "min_by_key"):
        if sort_keys(q, t) != ["order", "preference"]:
            return "the record chosen is not the least by order and preference"
        return None if the_sip_ones(q, args_of(t)[0], recs) else "the record is not chosen among all the E2U+sip records"
    if t.op in ("call", "icall") and last(t) in ("next", "first"):
        x = bare(args_of(t)[-1 if last(t) == "next" else 0])
        if x.op == "post" and last(x).startswith("sort"):
            if last(x) not in ("sort_by", "sort_by_key", "sort_by_cached_key") or sort_keys(q, x) != ["order", "preference"]:
                return f"the records are not sorted by order, then preference: {sort_keys(q, x)}"
            return None if the_sip_ones(q, x.a[2], recs) else f"the record is not chosen among all the E2U+sip records: {show(x, 0, 5)[:120]}"
        return f"the first record is taken of a list that is not sorted: {show(x, 0, 4)[:120]}"
    return f"the record is chosen in another way: {show(t, 0, 4)[:120]}"


def t05(ctx):
    ctx.rule("the values of the ENUM functions are computed symbolically. enum_to_domain: Some only where the number begins with '+' and what follows is known to be non-empty and digits only, its text is in "
             "canonical form the digits backwards joined by '.' and then '.e164.arpa'; None only where one of these conditions is known to fail. tel_uri_to_enum_domain: the same of the URI's number, and Some only where the number is known "
             "to be global. select_best_sip_record: the first element of the records whose service compares equal to E2U+sip without regard to case, all of them, sorted by (order, preference) or the least of "
             "them by these keys; None only where there is none")
    q = Q(ctx, only={CR, "sip_core"})
    arg = mk("arg", 1)
    for nm, number in (("enum_to_domain", arg), ("tel_uri_to_enum_domain", F(arg, "number"))):
        fn = q.one("enum_lookup::" + nm, CR)
        if not ctx.check(fn is not None, f"missing:{nm}", FILE, f"{nm} is not found"):
            continue
        w = where(fn)
        for o in q.e.summary(fn).outcomes:
            for v, fs in leaves(q, o.ret, frozenset(o.facts)):
                if v.op != "adt" or v.a[1] not in ("Some", "None"):
                    ctx.violation(f"value:{nm}", w, f"the value {nm} returns is not understood: {show(v, 0, 4)[:120]}")
                    continue
                if v.a[1] == "None":
                    ctx.count("refusals", 1)
                    ctx.check(holds(q, fs, lambda k: no_number(q, k, number) or number is not arg and (F(arg, "is_global"), False) in k), f"refusal:{nm}", w, f"{nm} can refuse a number that has an ENUM domain")
                    continue
                ctx.count("domains", 1)
                try:
                    text = number_text(q, number, v.a[3], fs)
                except skel.Unknown as e:
                    ctx.violation(f"text:{nm}", w, f"{nm}: the text of the domain is not understood: {str(e)[:120]}")
                    continue
                ctx.check(text in ("*[rev(chars(D)): {rev(chars(D))[]} by '.'].e164.arpa", "*[rev(chars(D)): {rev(chars(D))[]}.]e164.arpa"), f"text:{nm}", w, f"{nm}: the domain is not the digits backwards under e164.arpa: {text[:160]}")
                dg = {x for x in deep_subterms(q, mk("tuple", v.a[3])) if is_digits(x, number) and cv(x) is x}
                ctx.check(len(dg) == 1 and holds(q, fs, lambda k: begins(k, number) is True), f"plus:{nm}", w, f"{nm} can make a domain of a number without a '+'")
                ctx.check(all(holds(q, fs, lambda k: fact_empty(k, x) is False or q.P.le(Int(1), simp_call("len", (x,)), k, 0)) for x in dg), f"none:{nm}", w, f"{nm} can make a domain of a number without digits")
                ctx.check(all(holds(q, fs, lambda k: q.P.charset(x, k).subset(chars("0123456789"))) for x in dg), f"digits:{nm}", w, f"{nm} can make a domain of a number with other characters than decimal digits")
                if number is not arg:
                    ctx.check(holds(q, fs, lambda k: (F(arg, "is_global"), True) in k), f"local:{nm}", w, f"{nm} can make a domain of a number that is not global")
    ctx.floor("domains", 2)
    ctx.floor("refusals", 2)
    nm = "select_best_sip_record"
    fn = q.one("enum_lookup::" + nm, CR)
    if not ctx.check(fn is not None, f"missing:{nm}", FILE, f"{nm} is not found"):
        return
    w = where(fn)
    for o in q.e.summary(fn).outcomes:
        for v, fs in leaves(q, o.ret, frozenset(o.facts)):
            ctx.count("choices", 1)
            if v.op == "adt" and v.a[1] == "None":
                ctx.check(holds(q, fs, lambda k: any(b and f.op == "bin" and f.a[0] == "Eq" and Int(0) in f.a[1:3] and any(y.op == "call" and y.a[0] == "len" and the_sip_ones(q, y.a[1], arg) for y in f.a[1:3]) or
                                                     b and f.op == "is" and f.a[1] == "None" and best(q, f.a[0], arg) is None for f, b in k)),
                          f"none:{nm}", w, f"{nm} can return nothing although there is an E2U+sip record")
                continue
            if v.op == "adt" and v.a[1] == "Some":
                v = cv(v.a[3])
                v = v.a[0] if v.op == "vf" and v.a[1] == "Some" else v
            why = best(q, v, arg)
            ctx.check(why is None, f"best:{nm}", w, f"{nm}: {why}")
    ctx.floor("choices", 1)



def layout(q, t, stop=frozenset(), facts=frozenset(), depth=40):
    """the make-up of a list: ("seq", nodes), ("item", x), ("each", site, [(facts, node)]), ("alt", [(facts, node)]), ("carry",) for what was there before the round, ("of", x) for a list from elsewhere"""
    if depth == 0:
        return ("of", t)
    go = lambda x, st=stop, fs=facts: layout(q, x, st, fs, depth - 1)
    t = iter_base(t)
    if t in stop:
        return ("carry",)
    if fresh(t):
        return ("seq", [])
    arr = t if t.op == "array" else inner_array(t) if t.op == "upd" else None
    if arr is not None:
        return ("seq", [("item", x) for x in arr.a])
    if t.op in ("call", "icall") and last(t) in ("collect", "into_vec", "into_boxed_slice", "to_vec", "clone", "from", "into", "unwrap_or_default") and len(args_of(t)) == 1:
        return go(args_of(t)[0])
    if t.op in ("call", "icall") and last(t) == "map":
        it = proj(mk("call", "Iterator::next", args_of(t)[0]), ("v", "Some", "0"))
        base, its = stream(q, t, it)
        if its is not None and base is not t:
            return ("each", ("map", base), [(frozenset(f), ("item", x)) for f, x in its], t)
    p = pushed(t)
    if p:
        return ("seq", [go(p[0]), ("item", p[1])])
    p = added(t)
    if p:
        return ("seq", [go(p[0]), layout(q, p[1], frozenset(), facts, depth - 1)])
    if t.op == "phi":
        if q.is_head(q.site(t)):
            outer = [x for x in q.e.phi_inputs(t) if not q.carried(x, t)]
            if len(outer) != 1:
                return ("of", t)
            start = go(outer[0])
            one = one_by_one(q, t)
            if one is not None and not any(z.op == "call" and last(z) in ("Range", "rev") for z in (one[1],)):
                return ("seq", [start, layout(q, one[1], frozenset(), facts, depth - 1)])
            rounds = [(frozenset(g), layout(q, x, frozenset((t,)), frozenset(g), depth - 1)) for x, g in q.e.phi_edges(t)]
            if all(r == ("carry",) for _, r in rounds):
                return start
            return ("seq", [start, ("each", q.site(t), rounds, t)])
        ways = q.e.phi_ways(t)
        nodes = [(frozenset(g), go(x)) for x, g in ways]
        if nodes and all(n == nodes[0][1] for _, n in nodes):
            return nodes[0][1]
        return ("alt", nodes) if nodes else ("of", t)
    return ("of", t)


def round_of(q, site, facts):
    """the element of the round of the loop at a site"""
    out = {f.a[0] for f, b in facts if f.op == "is" and f.a[1] == "Some" and b and f.a[0].op in ("call", "icall") and last(f.a[0]) in ("next", "pop", "pop_front") and
           f.a[0].a[-1].op == "phi" and q.site(f.a[0].a[-1]) == site}
    return out.pop() if len(out) == 1 else None


def walks(q, pool):
    """{loop: the iterators it goes by}"""
    def steps(x):
        seen, work = set(), [y for y, _ in q.e.phi_edges(x)]
        while work:
            y = work.pop()
            if y in seen or y is x:
                continue
            seen.add(y)
            if y.op == "phi":
                work += list(q.e.phi_inputs(y))
            elif y.op in ("post", "ipost") and last(y) in ("next", "pop", "pop_front", "pop_first"):
                return (y.a[2] if y.op == "post" else y.a[3]) is x
        return False
    out = {}
    for x in pool:
        if x.op == "phi" and q.is_head(q.site(x)) and steps(x):
            out.setdefault(q.site(x), set()).add(x)
    return out


def flow(q, node, path, found):
    """visits the items of a layout, with the loops they are added in: [(site, facts, element, alternatives of the round)]"""
    k = node[0]
    if k == "seq":
        for i, n in enumerate(node[1]):
            if n == ("carry",) and i:
                found.append((path, "front", n))
            flow(q, n, path, found)
    elif k == "item":
        found.append((path, "item", node[1]))
    elif k == "alt":
        for f, n in node[1]:
            flow(q, n, path + [("alt", f, node)], found)
    elif k == "each":
        for f, n in node[2]:
            flow(q, n, path + [("each", node[1], f, node)], found)
    elif k == "of":
        found.append((path, "of", node[1]))


def idle(n, f):
    """the facts under which a round adds nothing"""
    if n == ("carry",):
        return [f]
    if n[0] == "alt":
        return [h for g, m in n[1] for h in idle(m, f | g)]
    if n[0] == "seq":
        out = [f]
        for m in n[1]:
            out = [h | g for h in out for g in idle(m, frozenset())]
        return out
    return []


def naptr_field(t, n):
    """t is the field n of a NAPTR record"""
    t = cv(t)
    return t.op == "field" and t.a[1] == n and t.a[0].op == "vf" and t.a[0].a[1] == "NAPTR"


def derived_keys(q, adt):
    """the fields a derived comparison goes by, in order; None when the comparison is not derived"""
    for f in q.p.fns.values():
        if f.trait == "core::cmp::Ord" and f.id.endswith("::cmp") and f"<{adt} as " in f.id:
            return f.derived
    return False


def naptr_sorted(q, t):
    """what is wrong with t as the NAPTR records sorted by order, then preference; None when right"""
    n = last(t)
    its = [x for _, x in items(q, t.a[2])]
    if not its or any(isinstance(x, tuple) or x.op != "adt" for x in its):
        return "the records sorted are not understood"
    if n in ("sort", "sort_unstable"):
        if not all(derived_keys(q, x.a[0]) for x in its):
            return "the NAPTR records are sorted by a comparison that is not derived from their fields"
        keys = list(its[0].a[2])
    else:
        keys = sort_keys(q, t)
    if not keys or len(keys) < 2:
        return f"the NAPTR records are not sorted by order and preference: {keys}"
    for x in its:
        if not (naptr_field(proj(x, ("f", keys[0])), "order") and naptr_field(proj(x, ("f", keys[1])), "preference")):
            return f"the NAPTR records are sorted by {keys[:2]}, which are not their order and preference"
    return None


def usable_naptr(q, k, el):
    """False when the facts give a reason to pass over the NAPTR record: it is none, names another service, a transport that is not asked for or the root"""
    d = proj(el, ("f", "data"))
    rec = proj(d, ("v", "NAPTR", "0"))
    if has_not(k, d, "NAPTR"):
        return False
    no = set()
    for f, b in k:
        if f.op == "bin" and f.a[0] == "Eq" and b and any(y.op == "str" and y.a[0] in (".", "") for y in f.a[1:3]) and any(any(z is F(rec, "replacement") for z in subterms(y)) for y in f.a[1:3]):
            return False
        if f.op == "call" and last(f) == "is_root" and b and any(z is F(rec, "replacement") for z in subterms(f)):
            return False
        if not b and f.op == "call" and last(f) in ("contains", "starts_with", "eq_ignore_ascii_case") and f.a[2].op == "str" and any(z is F(rec, "services") for z in subterms(f.a[1])):
            no.add(f.a[2].a[0].upper())
        if not b and f.op == "bin" and f.a[0] == "Eq" and any(y.op == "str" for y in f.a[1:3]) and any(z is F(rec, "services") for z in subterms(f)):
            no |= {y.a[0].upper() for y in f.a[1:3] if y.op == "str"}
        # a transport is asked for
        if f.op == "is" and f.a[1] == "Some" and b and f.a[0].op == "phi" and any(y.op == "adt" and y.a[1] == "Some" and y.a[3].op == "adt" and y.a[3].a[1] in SRV_ALL for y, _ in leaves(q, f.a[0])):
            return False
        # another transport than the URI's
        if f.op == "is" and not b and f.a[1] in SRV_ALL and any(x.op == "phi" or x.op == "field" and x.a[1] in ("params", "sips") for x in subterms(f.a[0])):
            return False
        if f.op == "is" and b and f.a[1] in SRV_ALL and f.a[0].op in ("vf", "phi") and not any(z is rec for z in subterms(f.a[0])):
            return False
        if f.op == "bin" and f.a[0] == "Eq" and not b and all(y.op in ("adt", "phi", "vf", "discr") for y in f.a[1:3]):
            return False
    return None if not all(any(n in s or s in n for n in no) for s in SERVICES) else False


SRV_ALL = set(SRV) | {"Ws", "Wss"}


def has_not(k, t, v):
    return any(f.op == "is" and f.a[0] is t and (f.a[1] == v and not b or f.a[1] != v and b) for f, b in k)


def usable_srv(q, k, el):
    """False when the facts give a reason to pass over the record: it is no SRV record or its target is the root"""
    d = proj(el, ("f", "data"))
    tg = F(proj(d, ("v", "SRV", "0")), "target")
    if has_not(k, d, "SRV"):
        return False
    for f, b in k:
        if b and f.op == "bin" and f.a[0] == "Eq" and (any(y.op == "str" and y.a[0] in (".", "") for y in f.a[1:3]) or any(y is Int(0) for y in f.a[1:3])) and any(z is tg for z in subterms(f)):
            return False
        if b and f.op == "call" and last(f) in ("is_root", "is_empty") and any(z is tg for z in subterms(f)):
            return False
    return None


def drained(q, t, facts):
    """(list, None) when t is a list whose items were taken out of another one until it was empty; (None, what is wrong) else"""
    if t.op == "phi" and q.is_head(q.site(t)):
        if not all(fresh(x) or q.carried(x, t) for x in q.e.phi_inputs(t)):
            return None, "the list chosen into does not start empty"
        src = None
        for x, g in q.e.phi_edges(t):
            p = pushed(x)
            if p is None or p[0] is not t:
                return None, "a round of the choice adds nothing"
            took = {y for y in subterms(p[1]) if container(q, y) is not None and (last(y) if y.op in ("call", "icall") else last(y.a[0]) if y.op == "vf" else "") in ("remove", "swap_remove", "pop", "pop_front", "pop_back")}
            if len(took) != 1:
                return None, "what is added to the choice is not taken out of the group"
            src = container(q, took.pop())
            if src.op != "phi" or q.site(src) != q.site(t):
                return None, "what is added to the choice is not taken out of what remains of the group"
            for y, _ in q.e.phi_edges(src):
                if not (y.op in ("post", "ipost") and last(y) in ("remove", "swap_remove", "pop", "pop_front", "pop_back") and (y.a[2] if y.op == "post" else y.a[3]) is src):
                    return None, "a record is dropped from the group without being chosen"
        if src is None:
            return None, "nothing is chosen"
        if not holds(q, facts, lambda k: fact_empty(k, src) is True or any(f.op == "is" and f.a[1] == "None" and b and container(q, mk("vf", f.a[0], "Some", "0")) is src for f, b in k)):
            return None, "the choice can end before the group is empty"
        outer = [x for x in q.e.phi_inputs(src) if not q.carried(x, src)]
        return (outer[0], None) if len(outer) == 1 else (None, "the group chosen from is not understood")
    return t, None


def map_group(q, x):
    """the map when x is the list stored under a key of it, in the round for that key"""
    while x.op in ("post", "ipost") and last(x) in ("sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "shuffle", "sort_by_cached_key"):
        x = x.a[2] if x.op == "post" else x.a[3]
    x = iter_base(x)
    return x.a[0] if x.op == "field" and x.a[1] == "1" and container(q, x.a[0]) is not None else None


def t03(ctx):
    ctx.rule("the make-up of the list SipResolver returns is reconstructed from the recurrences of the loops that fill it: in each loop on the way to a target made of an SRV record every round appends behind what is there; "
             "the loops run, in order and without a round that adds nothing unless the query of that round is known to have failed, over [1] the NAPTR records sorted by order, then preference (a derived comparison "
             "whose first fields these are, or a comparison by these keys), or [2] the transports, TCP before UDP where there are both, then [3] a map ordered by its key, the priority of the SRV records in it, then [4] the group of "
             "records of that priority, directly, rearranged, or taken out one by one until none is left. [5] in the loops that gather SRV and NAPTR records every record of the answer is stored in each round unless it is known to be of "
             "another type, to name the root or, for NAPTR, no transport that is asked for")
    q = Q(ctx, only={CR, "sip_core"})
    for name, fn, me, uri in resolvers(ctx, q):
        if name != "SipResolver":
            continue
        w = where(fn)
        for o in q.e.summary(fn).outcomes:
            if o.ret.op != "adt" or o.ret.a[1] != "Ok":
                continue
            found = []
            flow(q, layout(q, o.ret.a[3]), [], found)
            its = walks(q, deep_subterms(q, mk("tuple", o.ret, *[f for p, _, _ in found for y in p for f, _ in (y[2] if y[0] == "each" else y[1])])))
            for path, kind, x in found:
                if kind == "front":
                    ctx.violation(f"front:{name}", w, "a target is put before those found earlier")
                    continue
                if kind == "of":
                    ctx.check(not any(untext(t.a[0]).op == "field" and untext(t.a[0]).a[1] == "target" for _, y in items(q, x) if not isinstance(y, tuple) for _, t in expand(q, fn, mk("tuple", proj(y, ("f", "host"))), frozenset())),
                              f"list:{name}", w, f"{name}: SRV targets are taken over in a way that is not understood: {show(x, 0, 4)[:120]}")
                    continue
                tr = [t for _, t in expand(q, fn, mk("tuple", proj(x, ("f", "host"))), frozenset())]
                if not any(untext(t.a[0]).op == "field" and untext(t.a[0]).a[1] == "target" for t in tr):
                    continue
                ctx.count("ways to SRV targets", 1)
                kinds = []
                for p in path:
                    if p[0] != "each":
                        continue
                    bases = {origin(q, y) for y in its.get(p[1], ())} if p[1][0] != "map" else {iter_base(p[1][1])}
                    if not ctx.check(len(bases) == 1, f"loop:{name}", w, "a loop that adds SRV targets does not go over a list"):
                        continue
                    base = bases.pop()
                    k, why = level(q, fn, base, p[2])
                    kinds.append(k)
                    ctx.count(f"loops over {k}", 1)
                    ctx.check(why is None, f"order:{k}:{name}", w, f"{name}: {why}")
                    for f, n in p[3][2]:
                        for g in idle(n, f):
                            ctx.check(k in ("naptr", "transports") and holds(q, g, lambda h: failed(q, h)), f"dropped:{k}:{name}", w, f"{name}: a round of the loop over the {k} can add nothing although its query gave targets")
                ctx.check(kinds in (["naptr", "groups", "records"], ["transports", "groups", "records"]), f"loops:{name}", w, f"{name}: SRV targets are not added per NAPTR record or transport, then priority, then record: {kinds}")
    ctx.floor("ways to SRV targets", 2)


def failed(q, k):
    """the facts say that a query failed or gave no targets"""
    return any(f.op == "is" and (f.a[1] == "Err" and b or f.a[1] == "Ok" and not b) and asked_of(f.a[0]) is not None for f, b in k) or \
        any(b and f.op == "bin" and f.a[0] == "Eq" and Int(0) in f.a[1:3] and any(y.op == "call" and y.a[0] == "len" and y.a[1].op == "phi" for y in f.a[1:3]) for f, b in k)


def level(q, fn, base, facts):
    """(what a loop goes over, what is wrong with it)"""
    if base is None:
        return "list", "a loop does not go over one list"
    if base.op == "post" and last(base).startswith("sort") and not map_group(q, base):
        return "naptr", naptr_sorted(q, base) or kept(q, base.a[2], usable_naptr)
    m = base
    seen = set()
    while m.op == "phi" and m not in seen:
        seen.add(m)
        ins = [x for x in q.e.phi_inputs(m)]
        nxt = [x for x in ins if x.op == "post" and last(x) == "entry"] or [x for x in ins if x.op == "phi" and x not in seen]
        if not nxt:
            break
        m = nxt[0]
    if m.op in ("post", "ipost") and last(m) == "entry":
        n = short_name(m)
        if "BTreeMap" not in n:
            return "groups", f"the groups are kept in a map that is not ordered by priority ({n})"
        for c, key, item, _ in entries(q, fn):
            if c is (m.a[2] if m.op == "post" else m.a[3]) or q.site(c) == q.site(base) if c.op == "phi" and base.op == "phi" else False:
                if not (key.op == "field" and key.a[1] == "priority" and key.a[0].op == "vf" and key.a[0].a[1] == "SRV"):
                    return "groups", f"the groups are not keyed by the priority of the records: {show(key, 0, 4)[:100]}"
        return "groups", kept(q, base, usable_srv) or all_pushed(q, fn)
    if map_group(q, base) is not None:
        return "records", None
    ts = orders(q, base)
    if ts is not None:
        for vs in ts:
            if "Udp" in vs and "Tcp" in vs and vs.index("Udp") < vs.index("Tcp") or None in vs:
                return "transports", f"the transports are tried in the order {vs}"
        return "transports", None
    if base.op == "phi" and not q.is_head(q.site(base)):
        # nothing where the group is empty, else the group
        out = ("records", None)
        for x, gs in q.e.phi_ways(base):
            r = level(q, fn, x, gs) if not fresh(x) else ("records", None if holds(q, gs, lambda k: any(b and f.op == "bin" and f.a[0] == "Eq" and Int(0) in f.a[1:3] and any(
                y.op == "call" and y.a[0] == "len" and map_group(q, y.a[1]) is not None for y in f.a[1:3]) for f, b in k)) else "a group of records can be passed over")
            if r[0] != "records" or r[1]:
                return r[0], r[1] or "a loop goes over one list or another one"
        return out
    g, why = drained(q, base, facts)
    if why is not None:
        return "records", why
    if g is not base:
        return "records", None if map_group(q, g) is not None else f"the records chosen among are not those of a priority: {show(g, 0, 4)[:100]}"
    return "list", f"a loop goes over something unknown: {show(base, 0, 4)[:120]}"


def orders(q, t, depth=8):
    """the possible lists of transports t is; None when it is none"""
    t = iter_base(t)
    arr = t if t.op == "array" else inner_array(t) if t.op == "upd" else None
    if arr is not None:
        vs = [[x.a[1]] if x.op == "adt" else sorted({y.a[1] for y, _ in leaves(q, x) if y.op == "adt" and y.a[1]}) for x in arr.a]
        if not all(v and set(v) <= SRV_ALL for v in vs):
            return None
        if len(vs) == 1:
            return [[v] for v in vs[0]]
        return [[v[0] if len(v) == 1 else None for v in vs]]
    if t.op in ("call", "icall") and last(t) in ("collect", "into_vec", "into_boxed_slice", "to_vec", "clone", "from", "into") and len(args_of(t)) == 1:
        return orders(q, args_of(t)[0], depth - 1)
    if t.op == "phi" and depth and not q.is_head(q.site(t)):
        out = []
        for x, _ in q.e.phi_ways(t):
            r = orders(q, x, depth - 1)
            if r is None:
                return None
            out += r
        return out or None
    return None


def kept(q, t, usable):
    """what is wrong with the loop that gathers t from the records of an answer; None when each is stored unless it is not usable"""
    heads = [t] if t.op == "phi" and q.is_head(q.site(t)) else [x for x in subterms(mk("tuple", t)) if x.op == "phi" and q.is_head(q.site(x))]
    if len(heads) != 1:
        return f"the records are not gathered in one loop: {show(t, 0, 3)[:100]}"
    t = heads[0]
    for x, g in q.e.phi_edges(t):
        for v, f in way_leaves(q, x, g, top=q.site(t)):
            f = frozenset(f)
            if q.close(f) is None:
                continue
            el = round_of(q, q.site(t), f)
            if el is None or asked_of(iter_base(origin(q, el.a[-1]) or el)) is None:
                return "the loop that gathers the records does not go over an answer"
            if v is t or v.op == "phi" and not q.is_head(q.site(v)) and all(y is t for y, _ in q.e.phi_ways(v)):
                if not holds(q, f, lambda k: usable(q, k, proj(el, ("v", "Some", "0"))) is False):
                    return "a usable record of an answer can be passed over"
    return None


def all_pushed(q, fn):
    """what is entered in a map of lists is a list that the record is added to whenever the key is entered"""
    ent = [te for te in tree(q, fn, lambda ev: ev.kind == "call" and ev.name.split("::")[-1] == "entry")]
    for te in ent:
        mine = [x for x in tree(q, fn, lambda ev: ev.kind == "call" and ev.name.split("::")[-1] in ("push", "push_back"))
                if any(y.op in ("call", "icall") and last(y) == "entry" and args_of(y)[0] is te.args[0] for a in [x.args[0]] + (list(q.e.phi_inputs(x.args[0])) if x.args[0].op == "phi" else []) for y in subterms(mk("tuple", a)))]
        if not any(frozenset(x.facts) <= frozenset(te.facts) for x in mine):
            return "a key is entered in the map of groups without the record being added to the group on every way"
    return None


RULES = {"T01": t01, "T02": t02, "T03": t03, "T04": t04, "T05": t05}
