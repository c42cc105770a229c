"""REGISTER handling: who may change a location store, with what, and what is answered."""
from rules._util import *

PUBLIC_KEYS = ("sip_registrar::normalize_aor", "sip_registrar::contact_headers")
STORE = ("LocationStore", "AsyncLocationStore")
MUT = {"upsert", "remove", "remove_all"}


def rq(ctx):
    """analysis of the registrar crate with its two public header derivations kept symbolic"""
    op = {f.id for f in ctx.prog.fns.values() if strip_generics(f.id) in PUBLIC_KEYS}
    ctx.check(len(op) == 2, "anchor:derivations", "crates/sip-registrar/src/lib.rs", "normalize_aor / contact_headers not found")
    return Q(ctx, only={"sip_registrar"}, opaque=op)


def entries(ctx, q):
    out = []
    f = q.one("<sip_registrar::BasicRegistrar<S, A> as sip_registrar::Registrar>::handle_register", "sip_registrar")
    if f:
        out.append((f, "sync", mk("arg", 1), mk("arg", 2)))
    f = q.one("sip_registrar::BasicRegistrar::handle_register_async::{closure#0}", "sip_registrar")
    if f:
        out.append((f, "async", F(mk("arg", 1), "0"), F(mk("arg", 1), "1")))
    return out


def store_call(ev):
    if ev.kind != "call":
        return None
    p = ev.name.split("::")
    return p[-1] if len(p) >= 2 and p[-2] in STORE else None


def mutations(q, fn, me):
    for te in tree(q, fn, lambda ev: store_call(ev) in MUT):
        if te.args and te.args[0] is F(me, "store"):
            yield store_call(te.ev), te


def hdr(req, name):
    """the ways a header value of the request is read"""
    rh = simp_call("Request::headers", (req,))
    n = mk("str", name)
    return [proj(simp_call(c, (rh, n)), ("v", "Some", "0")) for c in ("sip_parse::header", "Headers::get", "Headers::get_smol")]


def is_hdr(t, req, name):
    while t.op == "call" and t.a[0] in ("as_str", "SmolStr::as_str", "to_string", "Into::into", "From::from") and len(t.a) == 2:
        t = t.a[1]
    if t.op == "vf" and t.a[1] == "Some" and t.a[0].op == "call" and t.a[0].a[0] in ("sip_parse::header", "Headers::get", "Headers::get_smol"):
        h, n = t.a[0].a[1], t.a[0].a[2]
        return h.op == "call" and h.a[0] == "Request::headers" and h.a[1] is req and (cstr(n) or "").lower() == name.lower()
    return False


def aor_term(t, req):
    """t is normalize_aor of the request's To URI"""
    if not (t.op == "vf" and t.a[1] == "Ok" and t.a[0].op == "call" and t.a[0].a[0].endswith("normalize_aor")):
        return False
    u = t.a[0].a[1]
    names = [x.a[0] for x in subterms(u) if x.op == "call"]
    return any(is_hdr(x, req, "To") for x in subterms(u)) and any(n.endswith("::uri") for n in names) and any("parse_to_header" in n or "ToHeader" in n for n in names)


def some_of(fs, t):
    return (is_(t, "Some"), True) in fs


# ---------------------------------------------------------------- R01
def verified(fs, auth, req):
    for t, b in fs:
        if b and t.op == "vf" and t.a[1] == "Ok" and t.a[0].op in ("call", "icall") and str(t.a[0].a[0]).startswith("Authenticator::verify"):
            a = [x for x in t.a[0].a if isinstance(x, T)]
            if (len(a) == 3 and a[0] is proj(auth, ("v", "Some", "0")) and a[1] is req and a[2].op == "call" and a[2].a[0] == "Request::headers" and a[2].a[1] is req
                    and (is_(t.a[0], "Ok"), True) in fs):
                return True
    return False


FOLD = {"Iterator::collect", "UnicodeNormalization::nfc", "str::chars", "as_str", "String::as_str", "Deref::deref", "SmolStr::as_str", "to_string", "str::to_ascii_lowercase", "AsRef::as_ref", "as_bytes"}


def unfold(t, seen):
    while t.op == "call" and t.a[0] in FOLD and len(t.a) == 2:
        seen.add(t.a[0])
        t = t.a[1]
    return t


def same_name(q, fs, user, ident_ok):
    """a case-insensitive comparison of both operands after NFC that came out equal: the verified user name and the AOR's identity"""
    for t, b in fs:
        if not b or not (t.op == "call" and t.a[0] == "eq_ignore_ascii_case" or t.op == "bin" and t.a[0] == "Eq"):
            continue
        x, y = t.a[1], t.a[2]
        for u, v in ((x, y), (y, x)):
            su, sv = set(), set()
            if unfold(q.resolve(u, fs), su) is user:
                w = unfold(q.resolve(v, fs), sv)
                if "UnicodeNormalization::nfc" in su and "UnicodeNormalization::nfc" in sv and ident_ok(w, fs):
                    return True
    return False


def identity_of(q, aor):
    """test whether a term is the identity an AOR belongs to: the user part of sip(s), the number of tel"""
    so = simp_call("str::split_once", (aor, mk("char", ord(":"))))
    sch, rest = proj(proj(so, ("v", "Some", "0")), ("f", "0")), proj(proj(so, ("v", "Some", "0")), ("f", "1"))

    def is_tel(fs):
        """True/False when the facts decide the scheme"""
        for t, b in fs:
            if t.op == "call" and t.a[0] == "eq_ignore_ascii_case" or t.op == "bin" and t.a[0] == "Eq":
                for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                    if x is sch and cstr(y) is not None:
                        l = cstr(y).lower()
                        if b:
                            return l == "tel"
                        if l == "tel":
                            return False
            if t.op == "call" and t.a[0] == "str::starts_with" and t.a[1] is aor and (cstr(t.a[2]) or "") == "tel:":
                return b
            if t.op == "is" and t.a[0].op == "call" and t.a[0].a[0] == "str::strip_prefix" and t.a[0].a[1] is aor and (cstr(t.a[0].a[2]) or "") == "tel:":
                return (t.a[1] == "Some") == b
        return None

    def rests(fs):
        r = [rest]
        for t, b in fs:
            if t.op == "is" and t.a[0].op == "call" and t.a[0].a[0] == "str::strip_prefix" and t.a[0].a[1] is aor and (cstr(t.a[0].a[2]) or "").lower() in ("tel:", "sip:", "sips:"):
                r.append(proj(t.a[0], ("v", "Some", "0")))
        return r

    def before(t, sep, fs):
        """t is the part of the AOR after its scheme, up to the first sep"""
        for r in rests(fs):
            p = mk("char", ord(sep))
            for pat in (p, mk("str", sep)):
                if t is proj(proj(simp_call("str::split_once", (r, pat)), ("v", "Some", "0")), ("f", "0")):
                    return True
                for n in ("str::split", "str::splitn"):
                    for x in subterms(t):
                        if t.op == "vf" and t.a[0].op in ("call",) and t.a[0].a[0] == "Iterator::next" and t.a[0].a[1].op == "call" and t.a[0].a[1].a[0] == n and t.a[0].a[1].a[1] is r and t.a[0].a[1].a[-1] is pat:
                            return True
                if t.op == "call" and t.a[0] == "slice" and t.a[1] is r and t.a[2] is NONE_ and t.a[3] is proj(simp_call("str::find", (r, pat)), ("v", "Some", "0")):
                    return True
                if sep == ";" and t is r and any(b and u.op == "is" and u.a[1] == "None" and derived_from(u.a[0], r) for u, b in fs):
                    return True
        return False

    def ok(t, fs):
        tel = is_tel(fs)
        if tel is True:
            return before(t, ";", fs)
        if tel is False:
            return before(t, "@", fs)
        return False
    return ok


def r01(ctx):
    q = rq(ctx)
    ctx.rule("Every call that can change the location store, on every path of the synchronous and the asynchronous REGISTER handler, is reached only if no authenticator is set or the authenticator verified this very request "
             "and the user name of the verified header equals (NFC, ASCII case aside) the identity of the AOR: the user part of a sip AOR, the number of a tel AOR; an AOR without identity authorises nobody. "
             "The AOR changed is the normalised To URI of the request. No other function of the registrar reaches a store mutation, and a failed verification is answered by the authenticator's own challenge.")
    ents = entries(ctx, q)
    for fn, kind, me, req in ents:
        auth = F(me, "authenticator")
        rh = simp_call("Request::headers", (req,))
        user = proj(simp_call("sip_auth::extract_auth_username", (rh,)), ("v", "Some", "0"))
        for op, te in mutations(q, fn, me):
            ctx.count("store mutations in REGISTER handling")
            R = q.full(te.facts)
            aor = F(te.args[1], "aor") if op == "upsert" else te.args[1]
            aor = q.resolve(aor, R)
            if not ctx.check(aor_term(aor, req), f"{kind}:{op}:aor", te.where(), f"the address-of-record changed is not the request's normalised To URI: {show(aor, 0, 8)[:200]}"):
                continue
            f = q.assume(te.facts, [(is_(auth, "Some"), True)])
            f = q.close(f) if f is not None else None
            if f is None:
                ctx.violation(f"{kind}:{op}:noauth", te.where(), "the store is changed only when no authenticator is configured")
                continue
            ctx.check(q.holds(f, lambda g: verified(g, auth, req)), f"{kind}:{op}:verified", te.where(), "the store is changed although the authenticator did not verify the request")
            ident = identity_of(q, aor)
            ctx.check(q.holds(f, lambda g: some_of(g, simp_call("sip_auth::extract_auth_username", (rh,))) and same_name(q, g, user, ident)), f"{kind}:{op}:owner", te.where(),
                      "the store is changed although the verified user name was not found equal to the identity of the address-of-record")
        # a request that does not verify is answered with a challenge
        s = q.e.summary(fn)
        n = 0
        for o in s.outcomes:
            for v, fs in leaves(q, o.ret, o.facts):
                while v.op == "adt" and v.a[1] == "Ready":
                    v = v.a[3]
                if v.op in ("call", "icall") and str(v.a[0]).startswith("Authenticator::challenge"):
                    n += 1
                    a = [x for x in v.a if isinstance(x, T)]
                    ctx.check(len(a) == 2 and a[0] is proj(auth, ("v", "Some", "0")) and a[1] is req, f"{kind}:challenge-args", where(fn), "the challenge is not issued by the configured authenticator for this request")
                    g = q.close(fs)
                    if g is not None and str(v.a[0]).startswith("Authenticator::challenge_stale"):
                        ctx.check(any(b and t.op in ("call", "icall") and str(t.a[0]).startswith("Authenticator::nonce_is_stale") for t, b in g), f"{kind}:stale-only", where(fn), "a stale challenge is issued although the nonce was not found stale")
        ctx.count("challenge answers", n)
        ctx.check(n >= 1, f"{kind}:challenged", where(fn), "a request that does not verify is never challenged")
    ctx.floor("store mutations in REGISTER handling", 6)
    # nothing else in the registrar changes the store
    known = {f.id for f, _, _, _ in ents}
    for f in q.p.fns.values():
        if f.crate != "sip_registrar" or not strip_generics(f.id).startswith(("sip_registrar::BasicRegistrar", "<sip_registrar::BasicRegistrar")) or not f.reach or f.id in known:
            continue
        ctx.count("other public functions of the registrar")
        me = mk("arg", 1)
        bad = [te for op, te in mutations(q, f, me)]
        ctx.check(not bad, f"other:{strip_generics(f.id)}", bad[0].where() if bad else "", "the location store is changed outside REGISTER handling")
    ctx.floor("other public functions of the registrar", 8)


# ---------------------------------------------------------------- R02
def contact_list(req):
    return simp_call("sip_registrar::contact_headers", (simp_call("Request::headers", (req,)),))


def elem_of(q, t, coll, fs):
    """the element of the collection a term is computed from (None when there is none or more than one)"""
    seen, els, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "vf" and x.a[1] == "Some" and next_source(q, x, fs) is coll:
            els.add(x)
            continue
        if x.op == "idx" and x.a[0] is coll:
            els.add(x)
            continue
        if x.op == "phi":
            st += list(q.e.phi_inputs(x))
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                st += [z for z in y if isinstance(z, T)]
    def site(x):
        it = x.a[0].a[-1] if x.op == "vf" else x
        return tuple(p[:2] for p in it.a[0]) if it.op == "phi" else it
    return frozenset(els) if len({site(x) for x in els}) == 1 else None      # the same loop variable under different entry states


def lookups(q, fs, me, aor):
    """results of looking the AOR up in the store, as far as the facts mention them"""
    out = set()
    for t, b in fs:
        for x in subterms(t):
            if x.op in ("call", "icall") and str(x.a[0]).split("!")[0].split("::")[-1] == "lookup":
                a = [y for y in x.a if isinstance(y, T)]
                if a and a[0] is F(me, "store"):
                    out.add(x)
    return out


def looked_up(q, t, fs, me, aor):
    """t is the list of bindings stored for the AOR"""
    t = iter_base(t)
    if t.op == "vf" and t.a[1] == "Ok":
        t = t.a[0]
        while t.op == "vf" or t.op == "call" and t.a[0] in ("await", "Future::poll", "IntoFuture::into_future"):
            t = t.a[0] if t.op == "vf" else t.a[1]
        if t.op in ("call", "icall") and str(t.a[0]).split("!")[0].split("::")[-1] == "lookup":
            a = [y for y in t.a if isinstance(y, T)]
            return len(a) >= 2 and a[0] is F(me, "store") and q.resolve(a[1], fs) is aor
    return False


def field_or_get(t, name):
    """the binding b of which t is the named field"""
    if t.op == "field" and t.a[1] == name:
        return t.a[0]
    if t.op == "call" and t.a[0] == "Binding::" + name:
        return t.a[1]
    return None


def map_of_bindings(q, m, fs, me, aor):
    """m maps each stored binding's contact to the binding"""
    m = q.resolve(m, fs)
    if m.op == "phi":
        seen = False
        for x in q.e.phi_inputs(m):
            if not q.carried(x, m):
                if not (x.op == "call" and x.a[0].endswith(("::new", "::with_capacity", "Default::default"))):
                    return False
                continue
            if x.op == "post" and x.a[0].endswith("::insert") and x.a[1] == 0 and x.a[2] is m:
                k, v = x.a[3], x.a[4]
                if field_or_get(k, "contact") is not v or not looked_up(q, next_source(q, v, fs) or v, fs, me, aor):
                    return False
                seen = True
            elif x is not m:
                return False
        return seen
    if m.op == "call" and m.a[0] == "Iterator::collect":
        it = m.a[1]
        if it.op == "call" and it.a[0] == "Iterator::map" and it.a[2].op == "closure" and looked_up(q, it.a[1], fs, me, aor):
            g = q.p.fn(it.a[2].a[0])
            for o in q.e.summary(g).outcomes:
                if o.ret.op not in ("tuple", "adt"):
                    return False
                k, v = proj(o.ret, ("f", "0")), proj(o.ret, ("f", "1"))
                if field_or_get(k, "contact") is not v or v is not mk("arg", 2):
                    return False
            return True
    return False


def newer(q, fs, b, cid, cseq):
    """facts say the stored binding b belongs to another call or has a smaller CSeq"""
    for t, pol in fs:
        if t.op == "bin" and t.a[0] == "Eq" and not pol:
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if field_or_get(x, "call_id") is b and cid(y):
                    return True
        if t.op == "bin" and t.a[0] == "Lt" and pol and field_or_get(t.a[1], "cseq") is b and cseq(t.a[2]):
            return True
        if t.op == "bin" and t.a[0] == "Le" and not pol and field_or_get(t.a[2], "cseq") is b and cseq(t.a[1]):
            return True
    return False


def other_contact(fs, b, contact):
    for t, pol in fs:
        if t.op == "bin" and t.a[0] == "Eq" and not pol:
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if field_or_get(x, "contact") is b and y is contact:
                    return True
    return False


def ordered(q, fs, me, aor, contact, cid, cseq):
    """no stored binding (of this contact, when one is given) has the request's Call-ID and a CSeq that is not smaller"""
    for t, b in fs:
        if t.op == "is" and t.a[1] in ("None", "Some") and contact is not None:
            m = t.a[0]
            if m.op == "call" and m.a[0].endswith("Map::get") and q.resolve(m.a[2], fs) is contact and map_of_bindings(q, m.a[1], fs, me, aor):
                if (t.a[1] == "None") == b or newer(q, fs, proj(m, ("v", "Some", "0")), cid, cseq):
                    return True
    for coll, alts, it in each(q, fs):
        if looked_up(q, coll, fs, me, aor):
            if all(newer(q, a, it, cid, cseq) or contact is not None and other_contact(a, it, contact) for a in alts):
                return True
    return False


def is_cseq(t, req):
    """the first word of the request's CSeq, read as a number"""
    if not (t.op == "vf" and t.a[1] == "Ok" and t.a[0].op == "call" and t.a[0].a[0] == "parse:u32" and any(is_hdr(x, req, "CSeq") for x in subterms(t))):
        return False
    for x in subterms(t):
        if x.op == "call" and x.a[0] == "Iterator::next" and x.a[1].op == "call":
            return True
        if x.op == "idx" and x.a[1] is Int(0) and x.a[0].op == "call" and x.a[0].a[0] == "Iterator::collect" and x.a[0].a[1].op == "call" and is_hdr(x.a[0].a[1].a[1], req, "CSeq"):
            return True
    return False


def is_callid(q, t, req):
    vs = [v for v, _ in leaves(q, t)]
    return any(is_hdr(v, req, "Call-ID") for v in vs) and all(is_hdr(v, req, "Call-ID") or cstr(v) == "" for v in vs)


def admitted(q, fs, me, req):
    rl, kf = F(me, "rate_limiter"), F(me, "rate_limit_key_fn")
    if (is_(rl, "None"), True) in fs or (is_(kf, "None"), True) in fs:
        return True
    for t, b in fs:
        if b and t.op == "is" and t.a[1] == "None" and t.a[0].op in ("call", "icall") and t.a[0].a[0] == "apply" and proj(kf, ("v", "Some", "0")) in t.a[0].a:
            return True
        if b and t.op in ("call", "icall") and str(t.a[0]).split("!")[0] == "RateLimiter::check_rate_limit":
            a = [x for x in t.a if isinstance(x, T)]
            if a[0] is proj(rl, ("v", "Some", "0")) and any(x.op in ("call", "icall") and x.a[0] == "apply" and proj(kf, ("v", "Some", "0")) in x.a and req in x.a for x in subterms(a[1])):
                return True
    return False


def star(t, el):
    """t tests whether the contact is the wildcard"""
    return t.op == "bin" and t.a[0] == "Eq" and any(cstr(y) == "*" and strip_case(x) is el for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])))


def r02(ctx):
    q = rq(ctx)
    ctx.rule("On every path to a store mutation in REGISTER handling: the rate limiter, when configured with a key, admitted the request; CSeq names REGISTER and parses as a 32-bit number; no stored binding of the same contact "
             "(for the wildcard: of the AOR) has the request's Call-ID and a CSeq at or above the request's; removing all bindings needs the wildcard as the only contact and Expires 0; a contact is stored or removed only if it "
             "parses as a SIP URI and no contact of the request is the wildcard; a binding is stored only with a non-zero lifetime inside the configured bounds and removed only for lifetime zero.")
    for fn, kind, me, req in entries(ctx, q):
        cl = contact_list(req)
        for op, te in mutations(q, fn, me):
            ctx.count("store mutations in REGISTER handling")
            w, k = te.where(), f"{kind}:{op}"
            R = q.full(te.facts)
            ctx.check(q.holds(te.facts, lambda g: admitted(q, g, me, req)), k + ":rate", w, "the store is changed by a request the rate limiter did not admit")
            ctx.check(q.holds(te.facts, lambda g: any(b and t.op in ("call", "bin") and "REGISTER" in (cstr(t.a[1]) or cstr(t.a[2]) or "") and any(is_hdr(x, req, "CSeq") for l in (t.a[1], t.a[2]) for v, _ in leaves(q, l) for x in subterms(v))
                                                  for t, b in g if t.op == "call" and t.a[0] == "eq_ignore_ascii_case" or t.op == "bin" and t.a[0] == "Eq")),
                      k + ":method", w, "the store is changed although the CSeq method was not found to be REGISTER")
            ctx.check(any(b and t.op == "is" and t.a[1] == "Ok" and is_cseq(proj(t.a[0], ("v", "Ok", "0")), req) for t, b in R), k + ":cseq", w, "the store is changed although the CSeq number did not parse")
            aor = q.resolve(F(te.args[1], "aor") if op == "upsert" else te.args[1], R)
            contact = None if op == "remove_all" else q.resolve(F(te.args[1], "contact") if op == "upsert" else te.args[2], R)
            ctx.check(q.holds(te.facts, lambda g: ordered(q, g, me, aor, contact, lambda t: is_callid(q, t, req), lambda t: is_cseq(t, req))), k + ":order", w,
                      "the store is changed by a request that was not found newer than the stored binding of the same call")
            if op == "remove_all":
                ctx.check(q.holds(te.facts, lambda g: wild_only(q, g, cl)),
                          k + ":wildcard", w, "all bindings are removed although the wildcard is not the only contact")
                ctx.check(q.holds(te.facts, lambda g: zero_expires(q, g, req)), k + ":expires", w, "all bindings are removed although Expires is not zero")
                continue
            el = elem_of(q, contact, cl, R)
            ctx.check(el is not None, k + ":contact", w, "the contact stored or removed is not taken from one contact of the request")
            ctx.check(q.holds(te.facts, lambda g: any(b and t.op == "is" and t.a[1] == "Sip" and any(x.op == "call" and x.a[0] == "Uri::parse" and q.resolve(x.a[1], g) is contact for x in subterms(t)) for t, b in g)),
                      k + ":uri", w, "a contact is stored or removed that was not parsed as a SIP URI")
            ctx.check(q.holds(te.facts, lambda g: no_star(q, g, cl)), k + ":mixed", w, "a contact is stored or removed in a request that also has the wildcard")
            E = expiry_tests(q, R)
            if op == "remove":
                ctx.check(any(zero and expiry(q, t, R, el, req, me) == [] for t, zero in E), k + ":zero", w, "a binding is removed although the contact's lifetime is not zero")
            else:
                v = F(te.args[1], "expires")
                ctx.check(any(not zero and t is v for t, zero in E), k + ":nonzero", w, "a binding with lifetime zero is stored")
                lo, hi = simp_call("Duration::as_secs", (F(me, "min_expires"),)), simp_call("Duration::as_secs", (F(me, "max_expires"),))
                for x, fs in leaves(q, v):
                    if x.op == "call" and x.a[0] == "Duration::from_secs":
                        x = x.a[1]
                        if x is Int(0):
                            continue
                        ctx.check(q.P.le(lo, x, fs | R), k + ":min", w, "a binding is stored with a lifetime not known to reach the configured minimum")
                        ctx.check(q.P.le(x, hi, fs | R), k + ":max", w, "a binding is stored with a lifetime not known to respect the configured maximum")
                    else:
                        ctx.violation(k + ":lifetime", w, "the rule cannot read the lifetime of the stored binding: " + show(x, 0, 5)[:150])
    ctx.floor("store mutations in REGISTER handling", 6)


def zero_expires(q, g, req):
    for t, b in g:
        if b and t.op == "bin" and t.a[0] == "Eq":
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if y is Int(0):
                    x = q.resolve(x, g)
                    if x.op == "vf" and x.a[1] == "Ok" and x.a[0].op == "call" and x.a[0].a[0].startswith("parse:u") and is_hdr(x.a[0].a[1], req, "Expires"):
                        return True
    return False


def wild_only(q, g, cl):
    """the list has one element, and it is the wildcard"""
    n = simp_call("len", (cl,))
    one = q.e.known(g, binop("Eq", n, Int(1))) is True
    one = one or q.e.known(g, binop("Le", n, Int(1))) is True and q.e.known(g, binop("Eq", n, Int(0))) is False
    it = mk("bound", 0)
    for t, b in g:
        if b and (star(t, mk("idx", cl, Int(0))) or star(t, proj(cl, ("i", Int(0)))) or any(star(t, e) for e in elem_of(q, t, cl, g) or ())):
            return one
        if b and t.op in ("call", "icall") and t.a[0] == "Iterator::any" and iter_base(t.a[1]) is cl:
            cs = closure_cases(q, t.a[2], [it], True)
            if cs and all(any(b and star(u, it) for u, b in f) for f in cs):
                return one or q.e.known(g, binop("Le", n, Int(1))) is True
    return False


def no_star(q, g, cl):
    if q.e.known(g, binop("Eq", simp_call("len", (cl,)), Int(1))) is True and any(not b and star(t, proj(cl, ("i", Int(0)))) for t, b in g):
        return True
    for coll, alts, it in each(q, g):
        if coll is cl and all(any(not b and star(t, it) for t, b in a) for a in alts):
            return True
    return False


def expiry_tests(q, fs):
    """(duration term, known zero?)"""
    out = []
    for t, b in fs:
        if t.op == "bin" and t.a[0] == "Eq":
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if y is Int(0) and x.op == "call" and x.a[0] == "Duration::as_secs":
                    out.append((x.a[1], b))
        if t.op == "call" and t.a[0] == "Duration::is_zero":
            out.append((t.a[1], b))
    return out


def param_value(q, t, facts, name, el):
    """t is the value of the named parameter of the contact element: the right half of a key=value split whose key matched"""
    v = t
    while v.op == "call" and v.a[0] in ("str::trim",):
        v = v.a[1]
    if not (v.op == "field" and v.a[1] == "1"):
        return False
    key = F(v.a[0], "0")
    return str_is(facts, key, name) and elem_of_is(q, v, el)


def elem_of_is(q, t, el):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in el:
            return True
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            st += list(q.e.phi_inputs(x))
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                st += [z for z in y if isinstance(z, T)]
    return False


def expiry(q, t, facts, el, req, me):
    """problems with t as the lifetime of the contact: its expires parameter, else the Expires header, else the default"""
    bad, kinds = [], set()
    for x, fs in leaves(q, t):
        n = 0
        while x.op == "call" and x.a[0] == "Duration::from_secs" and n < 3:
            x, n = x.a[1], n + 1
            if x.op == "phi":
                break
        if x.op == "phi":
            y = [(v, fs | f2) for v, f2 in leaves(q, x)]
        else:
            y = [(x, fs)]
        for v, f in y:
            if v is Int(0) and n:
                continue
            if v.op == "vf" and v.a[1] == "Ok" and v.a[0].op == "call" and v.a[0].a[0] == "parse:u64":
                s = v.a[0].a[1]
                if is_hdr(s, req, "Expires"):
                    kinds.add("header")
                    continue
                if param_value(q, s, f, "expires", el):
                    kinds.add("param")
                    for h in hdr(req, "Expires"):
                        if (is_(h.a[0], "None"), True) in f:
                            bad.append("the contact's expires parameter is used only when there is no Expires header")
                    continue
            if v.op == "call" and v.a[0] == "Duration::as_secs" and v.a[1] is F(me, "default_expires"):
                kinds.add("default")
                if not q.holds(f, lambda g: any((is_(h.a[0], "None"), True) in g for h in hdr(req, "Expires"))):
                    bad.append("the default lifetime is used although an Expires header is present")
                continue
            bad.append("a lifetime that is neither the expires parameter, the Expires header nor the default: " + show(v, 0, 5)[:160])
    if kinds != {"param", "header", "default"}:
        bad.append(f"the lifetime comes only from {sorted(kinds)}")
    return bad


# ---------------------------------------------------------------- R03
def r03(ctx):
    q = rq(ctx)
    ctx.rule("Each stored binding is built, field by field, from the request: AOR the normalised To, contact the URI of one contact value, Call-ID and CSeq of the request, lifetime the contact's expires parameter or else the Expires header or else the "
             "configured default, q the contact's q parameter (1 when absent) within 0..1, user agent, Path, +sip.instance and reg-id as given or absent.")
    for fn, kind, me, req in entries(ctx, q):
        cl = contact_list(req)
        n = 0
        for op, te in mutations(q, fn, me):
            if op != "upsert":
                continue
            n += 1
            ctx.count("bindings stored")
            b, w = te.args[1], te.where()
            R = q.full(te.facts)
            contact = q.resolve(F(b, "contact"), R)
            el = elem_of(q, contact, cl, R)
            if not ctx.check(el is not None, f"{kind}:contact", w, "the stored contact is not taken from one contact of the request"):
                continue
            def untrimmed(t, fs):
                for v, gs in leaves(q, t, fs):
                    if v.op == "call" and v.a[0] == "str::trim":
                        yield from untrimmed(v.a[1], gs)
                    else:
                        yield v, gs
            for v, fs in untrimmed(contact, frozenset()):
                ctx.check(contact_uri(q, v, fs, el), f"{kind}:contact-uri", w, "the stored contact is not the URI of the contact value: " + show(v, 0, 8)[:200])
            ctx.check(aor_term(q.resolve(F(b, "aor"), R), req), f"{kind}:aor", w, "the stored AOR is not the request's normalised To URI")
            ctx.check(is_callid(q, F(b, "call_id"), req), f"{kind}:call_id", w, "the stored Call-ID is not the request's")
            ctx.check(is_cseq(q.resolve(F(b, "cseq"), R), req), f"{kind}:cseq", w, "the stored CSeq is not the request's")
            for m in expiry(q, F(b, "expires"), R, el, req, me):
                ctx.violation(f"{kind}:expires", w, m)
            ctx.ok()
            qv = F(b, "q_value")
            kinds = set()

            def unclamped(t, fs):
                for v, gs in leaves(q, t, fs):
                    if v.op == "call" and v.a[0].endswith("::clamp"):
                        yield from unclamped(v.a[1], gs)
                    else:
                        yield v, gs
            for v, fs in unclamped(qv, frozenset()):
                if v.op == "float" and float(v.a[0]) == 1.0:
                    kinds.add("default")
                elif v.op == "vf" and v.a[1] == "Ok" and v.a[0].op == "call" and v.a[0].a[0] == "parse:f32" and param_value(q, v.a[0].a[1], fs, "q", el):
                    kinds.add("param")
                else:
                    ctx.violation(f"{kind}:q", w, "the stored q value is neither the contact's q parameter nor 1: " + show(v, 0, 6)[:160])
            ctx.check(kinds == {"default", "param"}, f"{kind}:q-kinds", w, f"the q value comes only from {sorted(kinds)}")
            opt(ctx, q, b, "user_agent", kind, w, lambda v, fs: is_hdr(v, req, "User-Agent"), R, lambda f: no_header(q, f, req, "User-Agent"))
            opt(ctx, q, b, "path", kind, w, lambda v, fs: v.op == "vf" and v.a[1] == "Ok" and v.a[0].op == "call" and v.a[0].a[0].endswith("parse_path") and v.a[0].a[1] is simp_call("Request::headers", (req,)), R, lambda f: no_header(q, f, req, "Path"))
            opt(ctx, q, b, "instance_id", kind, w, lambda v, fs: param_value(q, v, fs, "+sip.instance", el), R, lambda f: no_param(q, f, "+sip.instance"))
            opt(ctx, q, b, "reg_id", kind, w, lambda v, fs: v.op == "vf" and v.a[1] == "Ok" and v.a[0].op == "call" and v.a[0].a[0] == "parse:u32" and param_value(q, v.a[0].a[1], fs, "reg-id", el), R, lambda f: no_param(q, f, "reg-id"))
        ctx.check(n >= 1, f"{kind}:stored", where(fn), "a REGISTER never stores a binding")
    ctx.floor("bindings stored", 2)


def no_header(q, fs, req, name):
    rh = simp_call("Request::headers", (req,))
    def no(g):
        return any(t.op == "is" and (t.a[1] == "None") == b and t.a[0] in {h.a[0] for h in hdr(req, name)} or
                   not b and t.op == "call" and t.a[0] == "Headers::contains" and t.a[1] is rh and (cstr(t.a[2]) or "").lower() == name.lower() for t, b in g if t.op != "is" or t.a[1] in ("None", "Some"))
    return q.holds(fs, no)


def no_param(q, fs, name):
    """nothing the facts say shows the named parameter to have been found"""
    return q.holds(fs, lambda g: not any(str_is(frozenset(((t, b),)), strip_case(x), name) for t, b in g if b and t.op in ("call", "bin") for x in t.a[1:] if isinstance(x, T) and cstr(x) is None))


def opt(ctx, q, b, name, kind, w, good, R, absent):
    v = F(b, name)
    for x, fs in leaves(q, v):
        if x.op == "adt" and x.a[1] == "None":
            ctx.check(absent(fs | R), f"{kind}:{name}:absent", w, f"a binding is stored without {name} although the request was not found to have none")
            continue
        if x.op == "adt" and x.a[1] == "Some":
            for y, f2 in leaves(q, x.a[3]):
                ctx.check(good(y, fs | f2 | R), f"{kind}:{name}", w, f"the stored {name} is not the request's: {show(y, 0, 6)[:160]}")
            continue
        ctx.violation(f"{kind}:{name}", w, f"the rule cannot read the stored {name}: {show(x, 0, 6)[:160]}")


def contact_uri(q, v, fs, el):
    """v is what stands between < and >, or before the first ; of a contact without <, or the whole contact"""
    while v.op == "call" and v.a[0] == "str::trim":
        v = v.a[1]

    def is_el(t):
        return strip_case(t) in el
    if is_el(v):
        return no_find(fs, is_el, "<") and no_find(fs, is_el, ";")
    def part(t, base, ch, i):
        """what stands before (0) or after (1) the first ch"""
        return t.op == "field" and t.a[1] == i and t.a[0].op == "vf" and t.a[0].a[1] == "Some" and t.a[0].a[0].op == "call" and t.a[0].a[0].a[0] == "str::split_once" and \
            base(t.a[0].a[0].a[1]) and t.a[0].a[0].a[2] in (mk("char", ord(ch)), mk("str", ch))
    if part(v, is_el, ";", "0"):
        return no_find(fs, is_el, "<")
    if part(v, lambda t: part(t, is_el, "<", "1"), ">", "0"):
        return True
    if v.op == "call" and v.a[0] == "slice" and is_el(v.a[1]):
        lo, hi = v.a[2], v.a[3]
        if lo is NONE_:
            return found(hi, is_el, ";") and no_find(fs, is_el, "<")
        if lo.op == "bin" and lo.a[0] == "Add" and found(lo.a[1] if lo.a[2] is Int(1) else lo.a[2], is_el, "<") and Int(1) in lo.a:
            return hi.op == "bin" and hi.a[0] == "Add" and lo in hi.a and any(found(x, lambda t: t.op == "call" and t.a[0] == "slice" and is_el(t.a[1]) and t.a[2] is lo, ">") for x in hi.a[1:])
    return False


def found(t, base, ch):
    return t.op == "vf" and t.a[1] == "Some" and t.a[0].op == "call" and t.a[0].a[0] == "str::find" and base(t.a[0].a[1]) and t.a[0].a[2] in (mk("char", ord(ch)), mk("str", ch))


def no_find(fs, base, ch):
    """the facts say that ch does not occur"""
    for t, b in fs:
        x = t.a[0] if t.op == "is" and t.a[1] in ("None", "Some") else t
        if x.op == "call" and x.a[0] in (("str::find", "str::split_once") if t.op == "is" else ("str::contains",)) and base(x.a[1]) and x.a[2] in (mk("char", ord(ch)), mk("str", ch)):
            if b == (t.op == "is" and t.a[1] == "None"):
                return True
    return False


# ---------------------------------------------------------------- R04
def responses(q, fn, req, extra=()):
    """(status term, header list term, facts) of every response the handler builds itself, with From, To, Call-ID and CSeq present"""
    rh = simp_call("Request::headers", (req,))
    cfg = [(is_(simp_call("Headers::get", (rh, mk("str", h))), "Some"), True) for h in ("From", "To", "Call-ID", "CSeq")]
    s = q.under(fn, cfg + list(extra))
    for o in s.outcomes:
        for v, fs in leaves(q, o.ret, o.facts):
            while v.op == "adt" and v.a[1] in ("Ready", "Ok"):
                ls = list(leaves(q, v.a[3], fs))
                if len(ls) != 1:
                    break
                v, fs = ls[0]
            todo = [(v, fs)]
            if v.op == "adt" and v.a[1] in ("Ready", "Ok"):
                todo = [(y, f) for y, f in leaves(q, v.a[3], fs)]
            for v, fs in todo:
                for y, f in unwrap(q, v, fs):
                    yield y, f


def unwrap(q, v, fs):
    while True:
        if v.op == "adt" and v.a[1] in ("Ready", "Ok"):
            v = v.a[3]
        elif v.op == "post" and v.a[1] == 0 and v.a[0].startswith("Response::"):
            v = v.a[2]
        elif v.op == "phi":
            for x, f in leaves(q, v, fs):
                yield from unwrap(q, x, f)
            return
        else:
            yield v, fs
            return


def r04(ctx):
    q = rq(ctx)
    ctx.rule("Every response the REGISTER handlers build carries every Via of the request in order, its From, its To with a tag (its own, or a fresh random one), Call-ID and CSeq, and Content-Length 0 for its empty body; a 200 for contacts "
             "carries one Contact, with its remaining lifetime, for each binding the store returns for the AOR after the changes; 423 carries Min-Expires with the configured minimum; no 200 is built for a request the authenticator did not verify.")
    for fn, kind, me, req in entries(ctx, q):
        rh = simp_call("Request::headers", (req,))
        auth = F(me, "authenticator")
        changes = [te for _, te in mutations(q, fn, me)]
        lookups = list(tree(q, fn, lambda ev: ev.kind == "call" and ev.name.endswith("LocationStore::lookup")))
        n = oks = 0
        for v, fs in responses(q, fn, req):
            if v.op in ("call", "icall") and str(v.a[0]).startswith("Authenticator::challenge") or v.op == "adt" and v.a[1] == "Err":
                continue
            w = where(fn)
            while v.op == "vf" and v.a[1] == "Ok":
                v = v.a[0]
            if not ctx.check(v.op == "call" and v.a[0] == "Response::new", f"{kind}:shape", w, "the rule cannot read a response: " + show(v, 0, 5)[:200]):
                continue
            n += 1
            st = v.a[1]
            while st.op == "vf":
                st = st.a[0]
            R = q.full(fs)
            code = q.resolve(st.a[1], R) if st.op == "call" and st.a[0].startswith("StatusLine::new") else None
            if not ctx.check(code is not None and code.op == "int", f"{kind}:status", w, "the status of a response cannot be determined"):
                continue
            code = code.a[0]
            hl = hentries(q, v.a[2], R)
            if not ctx.check(hl is not None, f"{kind}:{code}:headers", w, "the header list of a response cannot be determined"):
                continue
            if not hl and code == 400 and builder_failed(fs):
                continue
            ctx.count("responses analysed")
            copies(ctx, q, hl, rh, R, f"{kind}:{code}", w)
            by = {}
            for nm, val, src, maybe in hl:
                by.setdefault((lit(nm) or "?").lower(), []).append((val, src, maybe))
            ctx.check(len(by.get("content-length", [])) == 1 and cstr(by["content-length"][0][0]) == "0" and not by["content-length"][0][2], f"{kind}:{code}:content-length", w, "a response without body does not carry exactly one Content-Length 0")
            ctx.check(v.a[3].op == "call" and v.a[3].a[0] in ("Bytes::new", "Default::default"), f"{kind}:{code}:body", w, "a REGISTER response has a body")
            if code == 200:
                oks += 1
                f = q.assume(fs, [(is_(auth, "Some"), True)])
                f = q.close(f) if f is not None else None
                ctx.check(f is None or q.holds(f, lambda g: verified(g, auth, req)), f"{kind}:200:verified", w, "a request the authenticator did not verify is answered 200")
                cs = by.get("contact", [])
                if len(cs) == 1 and cstr(cs[0][0]) == "*":
                    continue
                good = len(cs) == 1 and cs[0][1] is not None and not cs[0][2]
                ctx.check(good, f"{kind}:200:contacts", w, "a 200 does not list exactly one Contact for each stored binding")
                if good:
                    val, src, _ = cs[0]
                    aors = [x for x in subterms(src) if aor_term(q.resolve(x, R), req)]
                    ctx.check(bool(aors) and looked_up(q, src, R, me, q.resolve(aors[0], R)), f"{kind}:200:source", w, "the Contacts of a 200 are not the bindings looked up for the AOR")
                    at = [te for te in lookups if te.ret is not None and any(x is te.ret for x in subterms(src))]
                    ctx.check(bool(at) and not any(may_follow(q, a, m) for a in at for m in changes), f"{kind}:200:after", w, "the Contacts of a 200 are looked up before the changes are made")
                    for y, fy in leaves(q, val):
                        ctx.check(contact_text(q, y, fy, src, R), f"{kind}:200:contact-value", w,
                                  "the Contact of a 200 is not a stored binding's contact with its lifetime: " + show_flat(flat(y))[:160])
        ctx.check(oks >= 2, f"{kind}:200", where(fn), "a successful REGISTER is never answered")
        ctx.check(n >= 10, f"{kind}:responses", where(fn), f"only {n} responses found")
        # Min-Expires
        good = False
        for te in tree(q, fn, lambda ev: ev.kind == "call" and ev.name in ADDH):
            if any(cstr(x) == "Min-Expires" for x in te.args):
                r = flat(te.args[-1])
                good = good or len(r) == 1 and r[0][0] == "T" and any(x is F(me, "min_expires") for v, _ in leaves(q, r[0][1]) for x in deep_subterms(q, v))
        ctx.check(good, f"{kind}:min-expires", where(fn), "no answer carries Min-Expires with the configured minimum")
    ctx.floor("responses analysed", 40)


def contact_text(q, y, fs, src, R):
    """contact of the loop's binding (bare, or between < and >), ;expires=<its lifetime in seconds>, then further parameters"""
    fl = list(flat(y))
    if fl and fl[0][0] == "L" and fl[0][1] == "<":
        if not (len(fl) > 2 and fl[2][0] == "L" and fl[2][1].startswith(">")):
            return False
        fl = [fl[1], ("L", fl[2][1][1:])] + fl[3:]

    def field(t, name):
        if t.op == "call" and t.a[0] == "Binding::" + name:
            return t.a[1]
        return t.a[0] if t.op == "field" and t.a[1] == name else None
    if len(fl) < 2 or fl[0][0] != "T" or fl[1][0] != "L" or not fl[1][1].startswith(";expires="):
        return False
    b = field(fl[0][1], "contact")
    if b is None or next_source(q, b, R) is not src:
        return False
    secs = simp_call("Duration::as_secs", (F(b, "expires"),)), simp_call("Duration::as_secs", (simp_call("Binding::expires", (b,)),))
    if fl[1][1] == ";expires=":
        return len(fl) > 2 and fl[2][0] == "T" and fl[2][1] in secs and (len(fl) == 3 or fl[3][0] == "L" and fl[3][1].startswith(";"))
    if fl[1][1].startswith(";expires=0") and fl[1][1][10:11] in ("", ";"):
        return q.holds(fs, lambda g: any(q.e.known(g, binop("Eq", s, Int(0))) is True for s in secs))
    return False


def builder_failed(fs):
    """the facts say that a response with headers could not be built"""
    def bad(t, b):
        if t.op == "or" and b:
            return all(any(bad(x, y) for x, y in d) for d in t.a)
        return b and t.op == "is" and t.a[1] == "Err" and t.a[0].op == "call" and t.a[0].a[0] in ("Headers::push", "StatusLine::new", "Response::new", "Headers::append")
    return any(bad(t, b) for t, b in fs)


def copies(ctx, q, hl, rh, R, key, w):
    by = {}
    for nm, val, src, maybe in hl:
        by.setdefault((lit(nm) or "?").lower(), []).append((val, src, maybe))
    via = by.get("via", [])
    ok = len(via) == 1 and not via[0][2] and via[0][1] is not None and via[0][1].op == "call" and via[0][1].a[0] in ("Headers::get_all", "Headers::get_all_smol") and via[0][1].a[1] is rh and cstr(via[0][1].a[2]) == "Via" and next_source(q, strip_conv(via[0][0]), R) is via[0][1]
    ctx.check(ok, key + ":via", w, "a response does not copy every Via of the request in order, so it cannot be routed back through all hops")
    for h in ("From", "To", "Call-ID", "CSeq"):
        l = by.get(h.lower(), [])
        src = proj(simp_call("Headers::get", (rh, mk("str", h))), ("v", "Some", "0"))
        if not ctx.check(len(l) == 1 and l[0][1] is None and not l[0][2], f"{key}:{h}", w, f"a response does not carry exactly one {h}"):
            continue
        if h == "To":
            ctx.check(to_with_tag(q, l[0][0], src, R), f"{key}:To-tag", w, f"a response's To is not the request's To with a tag: {show(l[0][0], 0, 6)[:200]}")
        else:
            ctx.check(flat(l[0][0]) == flat(src), f"{key}:{h}-copy", w, f"a response's {h} is not the request's")


def strip_conv(t):
    while t.op == "call" and t.a[0] in ("to_string", "Into::into", "From::from", "as_str") and len(t.a) == 2:
        t = t.a[1]
    return t


# ---------------------------------------------------------------- R05
LISTMUT = {"retain", "push", "remove", "swap_remove", "clear", "truncate", "pop", "insert", "drain", "extend", "append", "dedup", "dedup_by_key", "sort_by", "sort_by_key", "sort", "reverse", "retain_mut", "split_off", "rotate_left",
           "entry", "or_default", "or_insert", "or_insert_with", "and_modify", "alter", "alter_all", "remove_if", "replace", "shrink_to_fit", "reserve"}
HARMLESS = {"sort_by", "sort_by_key", "sort", "reverse", "rotate_left", "shrink_to_fit", "reserve", "entry", "or_default"}
MEM = "<sip_registrar::MemoryLocationStore as sip_registrar::LocationStore>::"


def origin(t):
    """the term a mutated collection started as"""
    while True:
        if t.op == "post" and t.a[1] == 0:
            t = t.a[2]
        elif t.op == "call" and t.a[0] in ("DerefMut::deref_mut", "Deref::deref", "RefMut::value_mut", "RefMut::value", "Ref::value", "iter", "slice::iter", "Vec::iter", "Vec::iter_mut", "IntoIterator::into_iter"):
            t = t.a[1]
        else:
            return t


def list_of(q, t, inner):
    """the key under which the bindings list t is kept in the map: a term, "every" for a traversal, None when it is no such list"""
    t = origin(t)
    if t.op == "vf" and t.a[1] == "Some":
        c = t.a[0]
        if c.op in ("call", "icall"):
            n = str(c.a[0]).split("!")[0]
            a = [x for x in c.a if isinstance(x, T)]
            if n in ("DashMap::get_mut", "DashMap::get") and a[0] is inner:
                return a[1]
            src = next_source(q, t, frozenset())
            if src is not None and src.op in ("call", "icall") and str(src.a[0]).split("!")[0] in ("DashMap::iter_mut", "DashMap::iter") and [x for x in src.a if isinstance(x, T)][0] is inner:
                return "every"
    if t.op == "call" and t.a[0] in ("RefMutMulti::value_mut", "RefMulti::value"):
        return list_of(q, t.a[1], inner)
    if t.op in ("call", "icall") and str(t.a[0]).split("!")[0] in ("Entry::or_default", "Entry::or_insert_with", "Entry::or_insert"):
        e = [x for x in t.a if isinstance(x, T)][0]
        if e.op in ("call", "icall") and str(e.a[0]).split("!")[0] == "DashMap::entry":
            a = [x for x in e.a if isinstance(x, T)]
            if a[0] is inner:
                return a[1]
    return None


def same_contact(q, fs, b, contact):
    return eq(fs, F(b, "contact"), contact)


def now_term(t):
    return t.op in ("call", "icall") and str(t.a[0]).split("!")[0] == "Instant::now"


def expired(q, fs, b):
    """the facts say the stored binding b's time is over"""
    e = F(b, "expires_at")
    for t, v in fs:
        if t.op == "bin" and t.a[0] in ("Lt", "Le"):
            x, y = t.a[1], t.a[2]
            if v and y.op in ("call", "icall") and now_term(y) and x is e:
                return True
            if not v and x.op in ("call", "icall") and now_term(x) and y is e:
                return True
    return False


def alive(q, fs, b):
    e = F(b, "expires_at")
    return any(t.op == "bin" and (t.a[0] == "Lt" and v and now_term(t.a[1]) and t.a[2] is e or t.a[0] == "Le" and not v and t.a[1] is e and now_term(t.a[2])) for t, v in fs)


def drops(q, clo, ok, want=False):
    """every element the closure rejects satisfies ok; None when the closure is not understood"""
    el = mk("bound", 0)
    cs = closure_cases(q, clo, [el], want)
    if cs is None:
        return None
    return all(q.holds(c, lambda g: ok(g, el)) for c in cs)


BF = ("contact", "call_id", "cseq", "q_value", "user_agent", "path", "flow_token", "instance_id", "reg_id")


def same_opt(q, v, src, fs):
    """v is src, or an option with src's content under facts that decide it"""
    v = q.resolve(v, q.full(fs))
    if v is src or flat(v) == flat(src):
        return True
    if v.op == "adt" and v.a[1] == "Some":
        return q.holds(fs, lambda g: (is_(src, "Some"), True) in g) and v.a[3] is proj(src, ("v", "Some", "0"))
    if v.op == "adt" and v.a[1] == "None":
        return q.holds(fs, lambda g: (is_(src, "None"), True) in g or (is_(src, "Some"), False) in g)
    if v.op == "phi":
        return all(same_opt(q, x, src, frozenset(f) | fs) for x, f in leaves(q, v))
    if v.op == "call" and v.a[0] in ("Option::map", "Option::cloned"):
        return v.a[1] is src
    return False


def r05(ctx):
    q = Q(ctx, only={"sip_registrar"})
    ctx.rule("In the in-memory location store every mutation reachable from an operation is one of: dropping elements whose time is over; upsert dropping the elements with the new binding's contact and appending the new binding, with every field of it and expiry now + lifetime, "
             "to the list of its AOR after that drop, only when fewer than 20 other contacts are stored for the AOR and fewer than 100000 bindings in all; remove dropping only elements with the given contact of the given AOR; remove_all removing the given AOR's entry; "
             "clean-up removing empty lists. lookup returns exactly the unexpired elements of the given AOR's list, field by field. The asynchronous operations and the adapters forward each operation with its own arguments.")
    me = mk("arg", 1)
    inner = F(me, "inner")
    for opn in ("upsert", "remove", "remove_all", "lookup", "cleanup_expired"):
        fn = q.one(MEM + opn, "sip_registrar")
        if fn is None:
            continue
        b = mk("arg", 2)
        aor = F(b, "aor") if opn == "upsert" else mk("arg", 2)
        contact = F(b, "contact") if opn == "upsert" else mk("arg", 3)
        seen = {}
        for te in tree(q, fn, lambda ev: ev.kind in ("call", "wr")):
            if te.ev.kind == "wr":
                if te.ev.name.startswith("sip_registrar::"):
                    ctx.violation(f"{opn}:field-write", te.where(), "a stored binding is overwritten in place")
                continue
            last = te.ev.name.split("!")[0].split("::")[-1]
            if last not in LISTMUT or not te.args:
                continue
            on_map = te.args[0] is inner
            key = None if on_map else list_of(q, te.args[0], inner)
            if not on_map and key is None:
                if derived_from(te.args[0], inner) and te.ev.name.split("::")[0] in ("Vec", "DashMap", "VacantEntry", "OccupiedEntry", "Entry", "RefMut"):
                    if last not in HARMLESS:
                        ctx.violation(f"{opn}:unknown:{last}", te.where(), "a change of the store the rule does not recognise")
                continue
            ctx.count("store changes analysed")
            w = te.where()
            R = q.full(te.facts)
            if last in HARMLESS:
                if last == "entry":
                    ctx.check(opn == "upsert" and te.args[1] is aor, f"{opn}:entry", w, "a list is created for something other than the binding's own AOR")
                continue
            if last == "retain" and not on_map:
                ok = drops(q, te.args[1], lambda g, el: expired(q, g, el) or opn in ("upsert", "remove") and key is aor and same_contact(q, g, el, contact))
                ctx.check(ok is True, f"{opn}:retain", w, {"upsert": "storing a binding drops bindings of other contacts or other AORs", "remove": "removing a contact drops other bindings"}.get(opn, "bindings are dropped before their time is over"))
                if opn == "remove" and ok:
                    # keeps no element with the contact
                    keep = drops(q, te.args[1], lambda g, el: any(not v and t.op == "bin" and t.a[0] == "Eq" and {t.a[1], t.a[2]} == {F(el, "contact"), contact} for t, v in g), True)
                    seen["removed"] = seen.get("removed", False) or keep is True
                continue
            if last in ("remove", "swap_remove") and not on_map and opn in ("upsert", "remove"):
                i = te.args[1]
                ok = False
                if i.op == "vf" and i.a[0].op in ("call", "icall") and str(i.a[0].a[0]).endswith("Iterator::position"):
                    a = [x for x in i.a[0].a if isinstance(x, T)]
                    ok = drops(q, a[1], lambda g, el: same_contact(q, g, el, contact) or expired(q, g, el), True)
                ctx.check(ok is True and key is aor, f"{opn}:{last}", w, "an element is removed by position that is not the one with the given contact")
                seen["removed"] = seen.get("removed", False) or opn == "remove" and ok is True
                continue
            if last == "push" and opn == "upsert":
                seen["push"] = True
                ctx.check(key is aor, "upsert:key", w, "a binding is stored under another AOR")
                st = te.args[1]
                ctx.check(st.op == "adt", "upsert:value", w, "the stored value is not built from the binding")
                if st.op == "adt":
                    for n in BF:
                        ctx.check(same_opt(q, F(st, n), F(b, n), te.facts), f"upsert:field:{n}", w, f"the stored {n} is not the binding's: {show(F(st, n), 0, 5)[:120]}")
                    x = F(st, "expires_at")
                    good = x.op == "call" and x.a[0] == "Add::add" and now_term(x.a[1]) and x.a[2] is F(b, "expires") or x.op == "bin" and x.a[0] == "Add" and any(now_term(y) for y in x.a[1:]) and F(b, "expires") in x.a[1:]
                    ctx.check(good, "upsert:expiry", w, "the stored expiry is not now plus the binding's lifetime: " + show(x, 0, 5)[:120])
                # replaced: the list no longer holds the contact
                replaced = False
                y = te.args[0]
                while y.op == "post":
                    if y.a[0].split("::")[-1] == "retain" and y.a[1] == 0:
                        k = drops(q, y.a[3], lambda g, el: any(not v and t.op == "bin" and t.a[0] == "Eq" and {t.a[1], t.a[2]} == {F(el, "contact"), contact} for t, v in g), True)
                        replaced = replaced or k is True
                    y = y.a[2]
                ctx.check(replaced, "upsert:replaces", w, "a binding is appended without removing an older binding of the same contact")
                lim = any(below(q, R, x, 20) for x in counts(q, R, te.args[0], inner, aor, contact))
                ctx.check(lim, "upsert:cap-aor", w, "a binding is stored although 20 other contacts may already be stored for the AOR")
                tot = any(below(q, R, x, 100000) for x in totals(q, R, inner))
                ctx.check(tot, "upsert:cap-total", w, "a binding is stored although 100000 bindings may already be stored")
                continue
            if on_map and last == "remove":
                ctx.check(opn == "remove_all" and te.args[1] is aor, f"{opn}:map-remove", w, "an entry of another AOR is removed" if opn == "remove_all" else "an operation removes a whole AOR")
                seen["removed"] = True
                continue
            if on_map and last == "retain":
                cs = closure_cases(q, te.args[1], [mk("bound", 1), mk("bound", 0)], False)
                el = mk("bound", 0)
                ok = cs is not None and all(q.holds(c, lambda g: any(v and t.op == "bin" and t.a[0] == "Eq" and t.a[2].op == "int" and t.a[2].a[0] == 0 and derived_from(t.a[1], el) or v and t.op == "call" and t.a[0].endswith("is_empty") for t, v in g)) for c in cs)
                ctx.check(ok, f"{opn}:map-retain", w, "lists that still hold bindings are removed from the store")
                continue
            ctx.violation(f"{opn}:{last}", w, "a change of the store that is not allowed in this operation")
        if opn == "upsert":
            ctx.check(seen.get("push"), "upsert:stores", where(fn), "upsert never stores the binding")
            s = q.e.summary(fn)
        if opn in ("remove", "remove_all"):
            ctx.check(seen.get("removed"), f"{opn}:removes", where(fn), "the operation does not remove what it is asked to remove")
        if opn == "lookup":
            lookup_result(ctx, q, fn, inner, aor)
    ctx.floor("store changes analysed", 6)
    # forwarding
    n = 0
    for f in q.p.fns.values():
        i = strip_generics(f.id)
        for ty, tr in (("MemoryLocationStore", "AsyncLocationStore"), ("SyncToAsyncAdapter", "AsyncLocationStore"), ("AsyncToSyncAdapter", "LocationStore")):
            for opn, na in (("upsert", 1), ("remove", 2), ("remove_all", 1), ("lookup", 1), ("cleanup_expired", 0)):
                if f.crate == "sip_registrar" and ty in i and f" as sip_registrar::{tr}>::{opn}" in i and (i.endswith("::" + opn) and tr == "LocationStore" or i.endswith("::" + opn + "::{closure#0}")):
                    n += 1
                    asy = i.endswith("{closure#0}")
                    exp = [F(mk("arg", 1), str(k + 1)) if asy else mk("arg", k + 2) for k in range(na)]
                    hits = list(store_calls(q, f))
                    ctx.check(any(x == opn for x, _ in hits), f"forward:{ty}:{opn}", where(f), "the operation is not forwarded to the underlying store")
                    for x, args in hits:
                        ctx.check(x == opn, f"forward:{ty}:{opn}:op", where(f), f"{opn} is forwarded as {x}")
                        if x == opn:
                            ctx.check([peel(y) for y in args[1:]] == exp, f"forward:{ty}:{opn}:args", where(f), "the operation is forwarded with other arguments than its own")
    ctx.count("forwarded operations", n)
    ctx.floor("forwarded operations", 15)


def peel(t):
    while t.op == "call" and len(t.a) == 2 and t.a[0] in ("to_string", "Clone::clone", "Into::into", "From::from", "as_str", "AsRef::as_ref", "Deref::deref", "ToOwned::to_owned"):
        t = t.a[1]
    return t


def store_calls(q, f, sub=None, seen=()):
    """(operation, arguments) of the location-store calls of f and of the closures it creates, in terms of f's own inputs"""
    s = q.e.summary(f)
    if s is None or f.id in seen:
        return
    for ev in s.events:
        if ev.kind != "call":
            continue
        args = [sub(a) if sub else a for a in ev.args]
        p = ev.name.split("!")[0].split("::")
        if len(p) >= 2 and p[-2] in STORE + ("MemoryLocationStore",) and p[-1] in MUT | {"lookup", "cleanup_expired"}:
            yield p[-1], args
        for a in args:
            for x in subterms(a):
                if x.op == "closure" and q.p.fn(x.a[0]) is not None:
                    g = q.p.fn(x.a[0])
                    yield from store_calls(q, g, q.e.substituter({1: x}, (("closure", g.id),)), seen + (f.id,))


def below(q, R, x, n):
    return q.e.known(R, binop("Lt", x, mk("int", n))) is True or q.e.known(R, binop("Le", mk("int", n), x)) is False


def counts(q, R, lst, inner, aor, contact):
    """terms that count at least the bindings of other contacts in the AOR's list"""
    base = origin(lst)
    for t, v in R:
        if t.op == "bin" and t.a[0] in ("Lt", "Le"):
            for x in t.a[1:]:
                if x.op == "call" and x.a[0] == "Iterator::count" and x.a[1].op == "call" and x.a[1].a[0] == "Iterator::filter":
                    f = x.a[1]
                    if origin(iter_base(f.a[1])) is base and drops(q, f.a[2], lambda g, el: same_contact(q, g, el, contact) or expired(q, g, el)):
                        yield x
                elif x.op in ("call", "len") and (x.a[0] in ("len", "Vec::len") or x.op == "len"):
                    y = x.a[-1]
                    z, good = y, True
                    while z.op == "post":
                        z = z.a[2]
                    if origin(y) is base:
                        yield x
                elif x.op == "phi" and q.is_head(q.site(x)) and loop_count(q, x, R, base, lambda g, el: same_contact(q, g, el, contact) or expired(q, g, el)):
                    yield x


def loop_count(q, ph, R, base, skip):
    """ph starts at 0 and counts, in a loop over the list, every element except those skip() allows to leave out"""
    steps = []

    def walk(x, fs):
        if x is ph:
            steps.append(fs)
        elif x.op == "bin" and x.a[0] == "Add" and any(z is ph for z in x.a[1:]) and any(z.op == "int" and z.a[0] == 1 for z in x.a[1:]):
            pass
        elif x.op == "phi" and not q.is_head(q.site(x)):
            for y, f in q.e.phi_inputs(x).items():
                walk(y, fs | f)
        else:
            steps.append(None)
    for x, fs in q.e.phi_inputs(ph).items():
        if q.carried(x, ph):
            walk(x, fs)
        elif not (x.op == "int" and x.a[0] == 0):
            return False
    steps += [f for f in q.e.phi_kept(ph)]
    if any(f is None for f in steps):
        return False
    for f in steps:
        g = q.close(frozenset(f))
        if g is None:
            continue
        els = {z for t, _ in g for z in subterms(t) if z.op == "vf" and z.a[1] == "Some" and origin(next_source(q, z, R) or mk("unk", "?")) is base}
        if not any(q.holds(g, lambda h: skip(h, el)) for el in els):
            return False
    src = {origin(s) for fs in list(q.e.phi_inputs(ph).values()) + steps for t, _ in fs for z in subterms(t) if z.op == "vf" and z.a[1] == "Some" for s in [next_source(q, z, R)] if s is not None}
    return src == {base} or not steps and base in src


def totals(q, R, inner):
    """terms that count every binding in the store"""
    for t, v in R:
        if t.op == "bin" and t.a[0] in ("Lt", "Le"):
            for x in t.a[1:]:
                c = x
                if c.op in ("call", "icall") and str(c.a[0]).split("!")[0] == "Iterator::sum":
                    m = [y for y in c.a if isinstance(y, T)][0]
                    if m.op in ("call", "icall") and str(m.a[0]).split("!")[0] == "Iterator::map":
                        a = [y for y in m.a if isinstance(y, T)]
                        it = a[0]
                        if it.op in ("call", "icall") and str(it.a[0]).split("!")[0] == "DashMap::iter" and [y for y in it.a if isinstance(y, T)][0] is inner and a[1].op == "closure":
                            g = q.p.fn(a[1].a[0])
                            if g is not None and all("len" in (o.ret.op, o.ret.a[0] if o.ret.a else "") for o in q.e.summary(g).outcomes):
                                yield x
                if c.op in ("call", "icall") and str(c.a[0]).split("!")[0] == "Iterator::fold":
                    a = [y for y in c.a if isinstance(y, T)]
                    it = a[0]
                    if it.op in ("call", "icall") and str(it.a[0]).split("!")[0] == "DashMap::iter" and [y for y in it.a if isinstance(y, T)][0] is inner:
                        yield x
                if c.op == "phi" and q.is_head(q.site(c)):
                    yield from (x for y in q.e.phi_inputs(c) if q.carried(y, c) and any(z.op in ("len",) or z.op == "call" and z.a[0] == "len" for z in subterms(y)))


def returned_binding(ctx, q, r, el, aor, ff, w):
    ctx.check(F(r, "aor") is aor, "lookup:field:aor", w, "a returned binding has another AOR")
    for nme in BF:
        ctx.check(same_opt(q, F(r, nme), F(el, nme), ff), f"lookup:field:{nme}", w, f"the returned {nme} is not the stored one")
    e = F(r, "expires")
    good = e.op == "call" and e.a[0] in ("Instant::saturating_duration_since", "Instant::duration_since", "Sub::sub") and e.a[1] is F(el, "expires_at") and now_term(e.a[2])
    ctx.check(good, "lookup:field:expires", w, "the returned lifetime is not the time left")


def lookup_loop(ctx, q, x, g, inner, aor, w):
    """lookup builds its result with a loop over the list"""
    al = alts(q, x, g, vec=True)
    if not ctx.check(al is not None and all(len(p) == 1 and p[0][0] == "LOOP" for _, p in al), "lookup:shape", w, "the rule cannot read what lookup returns: " + show(x, 0, 5)[:120]):
        return 1
    for _, p in al:
        _, coll, ways = p[0]
        ctx.check(list_of(q, coll, inner) is aor, "lookup:key", w, "lookup returns the bindings of another AOR")
        somes = 0
        for f, ps in ways:
            els = {z for t in [y[1] for y in ps if y[0] == "E"] + [t for t, _ in f] for z in deep_subterms(q, t)
                   if z.op == "vf" and z.a[1] == "Some" and next_source(q, z, g) is coll}
            el = next(iter(els)) if len(els) == 1 else mk("unk", "element")
            if not ps:
                ctx.check(q.holds(f, lambda h: expired(q, h, el)), "lookup:dropped", w, "lookup leaves out bindings whose time is not over")
                continue
            if ctx.check(len(ps) == 1 and ps[0][0] == "E", "lookup:shape", w, "lookup returns something else than one binding per stored binding"):
                somes += 1
                ctx.check(q.holds(f, lambda h: alive(q, h, el)), "lookup:expired", w, "lookup returns bindings whose time is over")
                returned_binding(ctx, q, ps[0][1], el, aor, f, w)
        ctx.check(somes >= 1, "lookup:some", w, "lookup returns nothing")
    return 1


def lookup_result(ctx, q, fn, inner, aor):
    n = 0
    s = q.e.summary(fn)
    for o in s.outcomes:
        for v, fs in leaves(q, o.ret, o.facts, heads=False):
            if v.op == "adt" and v.a[1] == "Err":
                continue
            while v.op == "adt" and v.a[1] == "Ok":
                v = v.a[3]
            for x, f in leaves(q, v, fs, heads=False):
                g = q.close(f)
                if g is None:
                    continue
                w = where(fn)
                if x.op == "call" and x.a[0] in ("Vec::new", "Default::default", "Vec::with_capacity"):
                    ctx.check(q.holds(g, lambda h: any(b and t.op == "is" and t.a[1] == "None" and t.a[0].op in ("call", "icall") and str(t.a[0].a[0]).split("!")[0] in ("DashMap::get", "DashMap::get_mut") for t, b in h)), "lookup:empty", w,
                              "an empty result is returned although the AOR has an entry")
                    n += 1
                    continue
                if x.op != "call":
                    n += lookup_loop(ctx, q, x, g, inner, aor, w)
                    continue
                if not ctx.check(x.op == "call" and x.a[0] == "Iterator::collect", "lookup:shape", w, "the rule cannot read what lookup returns: " + show(x, 0, 5)[:150]):
                    continue
                it = x.a[1]
                flt, mapper = [], None
                while it.op == "call" and it.a[0] in ("Iterator::filter", "Iterator::map", "Iterator::filter_map", "Iterator::cloned"):
                    if it.a[0] == "Iterator::filter":
                        flt.append(it.a[2])
                    elif it.a[0] != "Iterator::cloned":
                        if mapper is not None:
                            break
                        mapper = (it.a[0], it.a[2])
                    it = it.a[1]
                key = list_of(q, iter_base(it), inner)
                ctx.check(key is aor, "lookup:key", w, "lookup returns the bindings of another AOR")
                el = mk("bound", 0)
                n += 1
                kept = []
                if not ctx.check(mapper is not None and mapper[1].op == "closure", "lookup:map", w, "the rule cannot read how lookup builds its result"):
                    continue
                g2 = q.p.fn(mapper[1].a[0])
                sub = q.e.substituter({1: mapper[1], 2: el}, (("closure", g2.id),))
                base = frozenset()
                filt_ok = False
                for c in flt:
                    filt_ok = filt_ok or drops(q, c, lambda h, e: alive(q, h, e), True) is True and drops(q, c, lambda h, e: expired(q, h, e)) is True
                    ctx.check(drops(q, c, lambda h, e: expired(q, h, e)) is True, "lookup:filter", w, "lookup leaves out bindings whose time is not over")
                somes = 0
                for oo in q.e.summary(g2).outcomes:
                    ff = base
                    for t, b in oo.facts:
                        ff = q.e.add_fact(ff, sub(t), b) if ff is not None else None
                    if ff is None:
                        continue
                    r = sub(oo.ret)
                    if mapper[0] == "Iterator::filter_map":
                        if r.op == "adt" and r.a[1] == "None":
                            ctx.check(q.holds(ff, lambda h: expired(q, h, el)), "lookup:dropped", w, "lookup leaves out bindings whose time is not over")
                            continue
                        if r.op == "adt" and r.a[1] == "Some":
                            r = r.a[3]
                        ctx.check(filt_ok or q.holds(ff, lambda h: alive(q, h, el)), "lookup:expired", w, "lookup returns bindings whose time is over")
                    else:
                        ctx.check(filt_ok, "lookup:expired", w, "lookup returns bindings whose time is over")
                    somes += 1
                    returned_binding(ctx, q, r, el, aor, ff, w)
                ctx.check(somes >= 1, "lookup:some", w, "lookup returns nothing")
    ctx.check(n >= 1, "lookup:result", where(fn), "the result of lookup cannot be determined")

# ---------------------------------------------------------------- R06
SEPS = set("-. ()")


def r06(ctx):
    q = Q(ctx, only={"sip_registrar"})
    ctx.rule("normalize_aor, for every shape of URI (sip or sips, with or without user and port; global or local tel, with or without phone-context), returns exactly: scheme, user unchanged and '@' when present, host in ASCII lower case, port when present; for tel the number "
             "without the separators - . ( ) and space and nothing else removed, for a local number its phone-context (separators removed when it is a number, lower case otherwise), then every other parameter with lower-case name and unchanged value, sorted by name. Other schemes are refused.")
    fn = q.one("sip_registrar::normalize_aor", "sip_registrar")
    if fn is None:
        return
    u = mk("arg", 1)
    sip, tel = proj(u, ("v", "Sip", "0")), proj(u, ("v", "Tel", "0"))
    C = lambda n, *a: simp_call(n, a)
    host = C("str::to_ascii_lowercase", C("SipUri::host", sip))
    port, user = C("SipUri::port", sip), C("SipUri::user", sip)
    w = where(fn)
    for sips in (True, False):
        for hasp in (True, False):
            for hasu in (True, False):
                cfg = [(is_(u, "Sip"), True), (C("SipUri::is_sips", sip), sips), (is_(port, "Some" if hasp else "None"), True), (is_(user, "Some" if hasu else "None"), True)]
                n = 0
                for f, p in results(q, fn, cfg):
                    n += 1
                    ctx.count("normal forms analysed")
                    tail = flat(host) + (L(":") + flat(proj(port, ("v", "Some", "0"))) if hasp else ())
                    head = L("sips:" if sips else "sip:")
                    uv = proj(user, ("v", "Some", "0"))
                    want = [joinL(head + tail)] if not hasu else [joinL(head + flat(uv) + L("@") + tail)]
                    if p in want:
                        continue
                    good = False
                    if hasu:
                        loc = proj(proj(C("str::rsplit_once", uv, mk("char", ord("@"))), ("v", "Some", "0")), ("f", "0"))
                        dom = proj(proj(C("str::rsplit_once", uv, mk("char", ord("@"))), ("v", "Some", "0")), ("f", "1"))
                        if p == joinL(head + flat(loc) + L("@") + tail):
                            good = q.holds(f, lambda g: any(b and t.op == "call" and t.a[0] == "eq_ignore_ascii_case" and {t.a[1], t.a[2]} == {dom, C("SipUri::host", sip)} for t, b in g))
                        elif p == joinL(head + tail):
                            good = q.holds(f, lambda g: any(b and t.op == "bin" and t.a[0] == "Eq" and t.a[2].op == "int" and t.a[2].a[0] == 0 and any(x is user for x in deep_subterms(q, t.a[1])) for t, b in g))
                    ctx.check(good, f"sip:{sips}:{hasp}:{hasu}", w, "an AOR is not scheme:user@host[:port] of the URI with the host in lower case: " + show_pieces(p)[:200])
                ctx.check(n > 0, f"sip:{sips}:{hasp}:{hasu}:none", w, "no normal form for this shape of URI")
    ctxt = C("TelUri::phone_context", tel)
    for glob in (True, False):
        for hasc in (True, False):
            cfg = [(is_(u, "Tel"), True), (C("TelUri::is_global", tel), glob), (is_(ctxt, "Some" if hasc else "None"), True)]
            n = 0
            for f, p in results(q, fn, cfg):
                n += 1
                ctx.count("normal forms analysed")
                key = f"tel:{glob}:{hasc}"
                p = list(p)
                ok = len(p) >= 2 and p[0] == ("L", "tel:") and p[1][0] == "T" and bare_number(q, p[1][1], C("TelUri::number", tel))
                if not ctx.check(ok, key + ":number", w, "a tel AOR does not start with the number without its visual separators: " + show_pieces(p)[:200]):
                    continue
                p = p[2:]
                if not glob and hasc:
                    cv = proj(ctxt, ("v", "Some", "0"))
                    ok = len(p) >= 2 and p[0] == ("L", ";phone-context=") and p[1][0] == "T"
                    if ok:
                        v = p[1][1]
                        num = q.holds(f, lambda g: any(b and t.op == "call" and t.a[0] == "str::starts_with" and t.a[1] is cv for t, b in g))
                        ok = bare_number(q, v, cv) and num or v.op == "call" and v.a[0] == "str::to_ascii_lowercase" and v.a[1] is cv and not num
                    if not ctx.check(ok, key + ":context", w, "a local tel AOR does not carry its phone-context: " + show_pieces(p)[:200]):
                        continue
                    p = p[2:]
                ok = len(p) == 1 and p[0][0] == "LOOP" and tel_params(q, p[0], C("TelUri::parameters", tel), f)
                ctx.check(ok, key + ":params", w, "a tel AOR does not carry every other parameter of the URI: " + show_pieces(p)[:300])
            ctx.check(n > 0, f"tel:{glob}:{hasc}:none", w, "no normal form for this shape of URI")
    s = q.under(fn, [(is_(u, "Sip"), False), (is_(u, "Tel"), False)])
    for o in s.outcomes:
        for v, fs in leaves(q, o.ret, o.facts):
            if q.close(fs) is not None:
                ctx.check(v.op == "adt" and v.a[1] == "Err", "other-scheme", w, "a URI that is neither sip, sips nor tel is given an AOR")
    ctx.floor("normal forms analysed", 12)


def results(q, fn, cfg):
    s = q.under(fn, cfg)
    for o in s.outcomes:
        for v, fs in leaves(q, o.ret, o.facts):
            g = q.close(fs)
            if g is None:
                continue
            if v.op == "adt" and v.a[1] == "Ok":
                v = v.a[3]
            elif v.op == "adt" and v.a[1] == "Err":
                yield g, (("T", v),)
                continue
            a = alts(q, v, q.full(g))
            if a is None:
                yield g, (("T", v),)
                continue
            seen = set()
            for f, p in a:
                h = q.close(frozenset(f) | g)
                if h is not None:
                    yield h, p


def bare_number(q, t, src):
    """t is src without visual separators and otherwise unchanged"""
    while t.op == "call" and t.a[0] in ("to_string", "Into::into", "From::from", "as_str") and len(t.a) == 2:
        t = t.a[1]
    if t.op == "call" and t.a[0] in ("Iterator::collect", "Iterator::filter"):
        t = t.a[1] if t.a[0] == "Iterator::collect" else t
        if t.op == "call" and t.a[0] == "Iterator::filter" and t.a[1].op == "call" and t.a[1].a[0] == "str::chars" and t.a[1].a[1] is src:
            for c in [chr(i) for i in range(32, 127)] + ["\u00e9"]:
                yes = closure_cases(q, t.a[2], [mk("char", ord(c))], True)
                no = closure_cases(q, t.a[2], [mk("char", ord(c))], False)
                if yes is None or no is None or bool(yes) == (c in SEPS) or bool(no) != (c in SEPS):
                    return False
            return True
    if t.op == "call" and t.a[0] == "str::replace" and len(t.a) == 4 and t.a[1] is src and cstr(t.a[3]) == "" and t.a[2].op == "array":
        return {chr(x.a[0]) for x in t.a[2].a if x.op == "char"} == SEPS
    return False


def is_context(t):
    """the test that a name is phone-context, case aside"""
    if t.op == "call" and t.a[0] == "eq_ignore_ascii_case":
        return any((cstr(x) or "").lower() == "phone-context" for x in t.a[1:])
    return t.op == "bin" and t.a[0] == "Eq" and any(cstr(x) == "phone-context" and y.op == "call" and y.a[0] == "str::to_ascii_lowercase" for x, y in (t.a[1:3], t.a[1:3][::-1]))


def tel_params(q, lp, params, f):
    """the loop writes ;name[=value] for each element of a list holding every parameter but phone-context, names in lower case"""
    R = q.full(f)
    src = lp[1]
    ways = {}
    for g, p in lp[2]:
        if not p:
            return False
        e = [loop_elem(q, x[1], R) for x in p if x[0] == "T"]
        if not e or any(x is None for x in e) or p[0] != ("L", ";") or p[1][0] != "T" or e[0][1] != ("0",):
            return False
        if len(p) == 2:
            ways["none"] = q.holds(g, lambda h: any(b and t.op == "is" and t.a[1] == "None" for t, b in h))
        elif len(p) == 4 and p[2] == ("L", "=") and e[1][1] == ("1", "@Some"):
            ways["some"] = True
        else:
            return False
    if ways != {"none": True, "some": True}:
        return False
    b = alts(q, src, R, vec=True)
    if not b:
        return False
    sorted_ = any(x.op == "post" and "sort" in x.a[0] for x in deep_subterms(q, src))
    for g, p in b:
        if len(p) != 1 or p[0][0] != "LOOP" or p[0][1] is not params:
            return False
        full = False
        for h, it in p[0][2]:
            if not it:
                if not q.holds(h, lambda k: any(v and is_context(t) for t, v in k)):
                    return False
                continue
            if len(it) != 1 or it[0][0] != "E":
                return False
            x = it[0][1]
            if x.op != "tuple" or len(x.a) != 2:
                return False
            k = x.a[0]
            if not (k.op == "call" and k.a[0] == "str::to_ascii_lowercase" and (loop_elem(q, k.a[1], R) or (None, None))[1] == ("0",)):
                return False
            for y, yf in leaves(q, x.a[1]):
                if y.op == "adt" and y.a[1] == "None":
                    continue
                if y.op == "adt" and y.a[1] == "Some":
                    y = y.a[3]
                if (loop_elem(q, y, R) or (None, None))[1] not in (("1", "@Some"), ("1",)):
                    return False
            full = True
        if not full:
            return False
    return sorted_


RULES = {"R01": r01, "R02": r02, "R03": r03, "R04": r04, "R05": r05, "R06": r06}
