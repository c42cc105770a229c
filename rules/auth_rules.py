"""Digest authentication (sip-auth)."""
from rules._util import *

ALG = {"Md5": "Md5", "Sha256": "Sha256:32", "Sha512": "Sha512:64", "Sha512_256": "Sha512:64[..32]"}
TOKEN = {"Md5": "MD5", "Md5Sess": "MD5-sess", "Sha256": "SHA-256", "Sha256Sess": "SHA-256-sess", "Sha512": "SHA-512", "Sha512Sess": "SHA-512-sess",
         "Sha512_256": "SHA-512-256", "Sha512_256Sess": "SHA-512-256-sess"}
QOPT = {"Auth": "auth", "AuthInt": "auth-int"}
DALG = "sip_auth::DigestAlgorithm"
QOP = "sip_auth::Qop"


def algs(ctx, q):
    v = enum_variants(q, DALG)
    ctx.check(set(v) == set(TOKEN), "algorithms", "crates/sip-auth/src/lib.rs", f"the digest algorithms are {sorted(v)}; the specification table knows {sorted(TOKEN)}")
    w = enum_variants(q, QOP)
    ctx.check(set(w) == set(QOPT), "qops", "crates/sip-auth/src/lib.rs", f"the qop values are {sorted(w)}; the specification table knows {sorted(QOPT)}")
    return [a for a in v if a in TOKEN], [x for x in w if x in QOPT]


def formula(alg, ha1_parts, ha2_parts, tail):
    """RFC 7616 3.4.1: H(HA1 : nonce : nc : cnonce : qop : HA2)"""
    base = alg[:-4] if alg.endswith("Sess") else alg
    h = ALG[base]

    def H(*p):
        return (("H", h, cat(*p), "lower_hex"),)
    ha1 = H(*ha1_parts)
    if alg.endswith("Sess"):
        ha1 = H(ha1, L(":"), S("nonce"), L(":"), S("cnonce"))
    ha2 = H(*[H(p[1]) if p[0] == "HASH" else p for p in ha2_parts])
    return H(ha1, *[x for p in tail for x in (L(":"), p)], L(":"), ha2)


def spec_response(alg, qop, method=True):
    ha2 = ([S("method")] if method else []) + [L(":"), S("uri")]
    if qop == "AuthInt":
        ha2 += [L(":"), ("HASH", S("body"))]
    tail = [S("nonce")]
    if qop is not None:
        tail += [S("nc"), S("cnonce"), L(QOPT[qop])]
    return formula(alg, [S("username"), L(":"), S("realm"), L(":"), S("password")], ha2, tail)


def show_spec(f):
    out = []
    for x in f:
        if x[0] == "L":
            out.append(x[1])
        elif x[0] == "S":
            out.append("{" + x[1] + "}")
        elif x[0] == "T":
            out.append("<" + show(x[1], 0, 6)[:90] + ">")
        else:
            out.append(x[1] + "(" + show_spec(x[2]) + ")")
    return "".join(out)


# ---------------------------------------------------------------- server side
def server_entries(ctx, q):
    """(fn, authenticator term, request term, headers term)"""
    out = []
    f = q.one("<sip_auth::DigestAuthenticator<S> as sip_auth::Authenticator>::verify", "sip_auth")
    if f:
        out.append((f, mk("arg", 1), mk("arg", 2), mk("arg", 3)))
    f = q.one("sip_auth::DigestAuthenticator::verify_async::{closure#0}", "sip_auth")
    if f:
        a = mk("arg", 1)
        out.append((f, F(a, "0"), F(a, "1"), F(a, "2")))
    return out


def classify(q, facts, auth, req, hdrs, want_hdr, used=None):
    """name the inputs of the digest formula"""
    def fn(t):
        p = param_of(t)
        if p is not None:
            h = hdr_get(p[0].a[0]) if p[0].op == "vf" else None
            if h and h[0] is hdrs and cstr(h[1]) is not None and cstr(h[1]).lower() == want_hdr.lower():
                return S(p[1])
            return (("T", t),)
        if t is F(auth, "realm"):
            return S("realm")
        if t.op == "call" and t.a[0] == "Method::as_str" and t.a[1].op == "call" and t.a[1].a[0] == "Request::method" and t.a[1].a[1] is req:
            return S("method")
        if t.op == "call" and t.a[0] == "Request::method" and t.a[1] is req:
            return S("method")
        if t.op == "call" and t.a[0] == "Uri::as_str" and t.a[1].op == "call" and t.a[1].a[0] == "Request::uri" and t.a[1].a[1] is req:
            return S("uri")
        if t.op == "call" and t.a[0] == "Request::body" and t.a[1] is req:
            return S("body")
        c = stored_password(t, auth)
        if c is not None:
            names = [map_flat(flat(x), fn) for x in c]
            if names == [S("username"), S("realm")]:
                return S("password")
        return (("T", t),)
    return fn


def stored_password(t, auth):
    """[username, realm] looked up when t is the password of a credential fetched from the authenticator's store"""
    if t.op == "field" and t.a[1] == "password" and t.a[0].op == "vf" and t.a[0].a[1] == "Some":
        r = t.a[0].a[0]
        if r.op == "call" and r.a[0] == "await":
            r = r.a[1]
        if r.op in ("icall", "call") and r.a[0].endswith("::fetch"):
            a = r.a[2:] if r.op == "icall" else r.a[1:]
            if len(a) == 3 and a[0] is F(auth, "store"):
                return a[1:]
    return None


def nonce_entries(q, facts, mgr):
    """(entry term, key term, how) of nonce-store lookups known to have found something"""
    for f, b in facts:
        if b and f.op == "is" and f.a[1] == "Some" and f.a[0].op == "icall" and f.a[0].a[0] in ("DashMap::get", "DashMap::get_mut", "DashMap::view"):
            c = f.a[0]
            if c.a[2] is F(mgr, "nonces"):
                yield proj(c, ("v", "Some", "0")), c.a[3], c.a[0]


def unref(t):
    while t.op in ("call", "icall") and t.a[0] in ("Ref::value", "RefMut::value"):
        t = t.a[-1]
    return t


def same_entry(x, e):
    return unref(x) is e


def elapsed_of(t, field, e):
    """t is e.<field>.elapsed()"""
    return (t.op == "icall" and t.a[0] == "Instant::elapsed" and t.a[2].op == "field" and t.a[2].a[1] == field and same_entry(t.a[2].a[0], e))


def valid_entry(facts, e):
    """facts say the entry's age is within its ttl"""
    for f, b in facts:
        if b and f.op == "bin" and f.a[0] in ("Le", "Lt") and elapsed_of(f.a[1], "created_at", e):
            r = f.a[2]
            if r.op == "field" and r.a[1] == "ttl" and same_entry(r.a[0], e):
                return True
    return False


def a01(ctx):
    q = Q(ctx, only={"sip_auth"})
    ctx.rule("Every return of Ok(true) from the two verification entry points (sync and async) is analysed under each configured algorithm, qop and "
             "proxy mode; the facts that hold on all paths to it must contain the scheme, realm, uri, opaque, qop and algorithm checks, a lookup of "
             "the presented nonce in the store within its lifetime, and a constant-time equality whose operands, reduced to a normal form of literals, "
             "inputs and hash applications, are the presented response and exactly the RFC 7616 formula over the stored password.")
    av, qv = algs(ctx, q)
    accepts = 0
    for fn, auth, req, hdrs in server_entries(ctx, q):
        kind = "async" if "async" in fn.id else "sync"
        for alg in av:
            for qop in qv:
                for proxy in (False, True):
                    cfg = [(is_(F(auth, "algorithm"), alg), True), (is_(F(auth, "qop"), qop), True), (F(auth, "proxy_auth"), proxy)]
                    s = q.under(fn, cfg)
                    hn = "Proxy-Authorization" if proxy else "Authorization"
                    n = 0
                    for o in s.outcomes:
                        fs = ok_true(q, o)
                        if fs is None:
                            continue
                        n += 1
                        a01_outcome(ctx, q, fn, kind, fs, alg, qop, hn, auth, req, hdrs)
                    ctx.count("accepting outcomes analysed", n)
                    ctx.check(n > 0, f"never-accepts:{kind}:{alg}:{qop}", where(fn), f"verification never returns Ok(true) for {alg}/{qop}")
    ctx.floor("accepting outcomes analysed", 60)


def rfacts(q, fs):
    return q.full(fs)


def a01_outcome(ctx, q, fn, kind, fs, alg, qop, hn, auth, req, hdrs):
    R = rfacts(q, fs)
    name = classify(q, R, auth, req, hdrs, hn)

    def P(k):
        """the parameter term k of the right header, if any fact mentions it"""
        return params.get(k)
    params, opts = {}, {}
    scheme = False
    for t, b in R:
        for x in subterms(t):
            p = param_of(x)
            if p is not None and name(x) == S(p[1]):
                params[p[1]] = x
                opts[p[1]] = x.a[0]
    w = where(fn)
    tag = f"{kind}:{alg}:{qop}:{hn}"

    def need(c, what, msg):
        ctx.check(c, f"{kind}:{what}", w, f"Ok(true) is reachable [{alg}, {qop}, {hn}] " + msg)
    for t, b in R:
        if b and t.op == "call" and t.a[0] == "eq_ignore_ascii_case" and any(x.op == "str" and x.a[0].lower() == "digest" for x in t.a[1:]):
            if any(x.op == "call" and x.a[0].endswith("::scheme") for x in t.a[1:]):
                scheme = True
        if b and t.op == "bin" and t.a[0] == "Eq" and any(x.op == "str" and x.a[0].lower() == "digest" for x in t.a[1:]):
            scheme = scheme or any(strip_case(x).op == "call" and strip_case(x).a[0].endswith("::scheme") for x in t.a[1:])
    need(scheme, "scheme", "without the authentication scheme being compared with Digest")
    need(P("realm") is not None and eq(R, P("realm"), F(auth, "realm")), "realm", "without the presented realm being equal to the authenticator's realm")
    u = [x for t, b in R for x in subterms(t) if x.op == "call" and x.a[0] == "Uri::as_str" and name(x) == S("uri")]
    need(P("uri") is not None and any(eq(R, P("uri"), x) for x in u), "uri", "without the digest-uri being equal to the Request-URI")
    op = False
    for a, b in list(ct_pairs(R)) + list(plain_eq_pairs(R)):
        fl = {map_flat(flat(a), name), map_flat(flat(b), name)}
        if fl == {S("opaque"), (("T", F(auth, "opaque")),)}:
            op = True
    need(op, "opaque", "without the presented opaque being equal to the authenticator's")
    need(P("qop") is not None and q.holds(R, lambda f: str_is(f, P("qop"), QOPT[qop])), "qop", f"without the presented qop being {QOPT[qop]}")
    ap = opts.get("algorithm")

    def algok(f):
        if ap is None:
            return False
        return (is_(ap, "None"), True) in f or str_is(f, proj(ap, ("v", "Some", "0")), TOKEN[alg])
    need(q.holds(R, algok), "algorithm", f"with an algorithm parameter other than {TOKEN[alg]} (or its absence)")
    need(P("nc") is not None and P("cnonce") is not None and (is_(opts["nc"], "Some"), True) in R and (is_(opts["cnonce"], "Some"), True) in R,
         "nc-cnonce", "without both nc and cnonce being present")
    ent = [e for e, k, how in nonce_entries(q, R, F(auth, "nonce_manager")) if name(k) == S("nonce") and valid_entry(R, e)]
    need(bool(ent), "nonce", "without the presented nonce being found in the nonce store within its lifetime")
    want = spec_response(alg, qop)
    got = []
    for a, b in ct_pairs(R):
        x, y = map_flat(flat(a), name), map_flat(flat(b), name)
        for u, v in ((x, y), (y, x)):
            if v == S("response"):
                got.append(u)
    ok = want in got
    need(ok, "response", "without a constant-time match of the presented response with the RFC 7616 formula; compared instead: "
         + ("; ".join(show_spec(g) for g in got)[:700] or "nothing") + f"; expected {show_spec(want)}")
    if ok:
        ctx.sample("formula proved", f"{tag}: {show_spec(want)}")


# ---------------------------------------------------------------- client side, rspauth
def parse_params(f):
    """flat header value -> {name: value flat without quotes}"""
    items = []
    cur = []
    inq = False
    for x in f:
        if x[0] != "L":
            cur.append(x)
            continue
        buf = ""
        for ch in x[1]:
            if ch == '"':
                inq = not inq
            if ch == "," and not inq:
                cur.append(("L", buf)) if buf else None
                items.append(cur)
                cur, buf = [], ""
            else:
                buf += ch
        if buf:
            cur.append(("L", buf))
    items.append(cur)
    out = {}
    for it in items:
        if not it or it[0][0] != "L" or "=" not in it[0][1]:
            out["?"] = tuple(it)
            continue
        k, rest = it[0][1].split("=", 1)
        k = k.strip()
        if " " in k:
            out["scheme"] = L(k.split()[0])
            k = k.split()[1]
        v = [("L", rest)] + it[1:] if rest else it[1:]
        v = tuple(("L", y[1].replace('"', "")) if y[0] == "L" else y for y in v)
        v = tuple(y for y in v if y[0] != "L" or y[1].strip())
        if k in out:
            out["?"] = tuple(it)
        out[k] = cat(v)
    return out


def a02(ctx):
    q = Q(ctx, only={"sip_auth"})
    ctx.rule("For each algorithm and qop, the header value DigestClient::generate_authorization returns is reduced to a normal form and split into parameters; "
             "its response must be the RFC 7616 formula over exactly the username, realm, nonce, uri, nc, cnonce and qop the same header announces, so the "
             "server-side formula (property A01) recomputes it. The mutual-authentication value (rspauth) built by the server and the one the client requires "
             "before it returns Ok must be the same formula with an empty method and the response body.")
    av, qv = algs(ctx, q)
    f = q.one("sip_auth::DigestClient::generate_authorization", "sip_auth")
    if f:
        A = [None] + [mk("arg", i) for i in range(1, 10)]
        for alg in av:
            for qop in qv + [None]:
                for opq in (True, False):
                    cfg = [(is_(A[6], alg), True), (is_(A[7], "Some" if qop else "None"), True), (is_(A[8], "Some" if opq else "None"), True)]
                    if qop:
                        cfg.append((is_(proj(A[7], ("v", "Some", "0")), qop), True))
                    s = q.under(f, cfg)
                    for o in s.outcomes:
                        ctx.count("client header values analysed")
                        fs = q.close(o.facts)
                        fl = flat(q.resolve(o.ret, fs))
                        ps = parse_params(fl)
                        cn, nc = ps.get("cnonce"), ps.get("nc")

                        def name(t):
                            if t is F(A[1], "username"):
                                return S("username")
                            if t is F(A[1], "password"):
                                return S("password")
                            if t is A[4]:
                                return S("realm")
                            if t is A[5]:
                                return S("nonce")
                            if t is A[3]:
                                return S("uri")
                            if t is A[9]:
                                return S("body")
                            if t.op == "call" and t.a[0] == "Method::as_str" and t.a[1] is A[2] or t is A[2]:
                                return S("method")
                            if opq and t is proj(A[8], ("v", "Some", "0")):
                                return S("opaque")
                            if nc == (("T", t),):
                                return S("nc")
                            if cn == (("T", t),):
                                return S("cnonce")
                            if qop is None and any("sample_iter" in show(x, 0, 3) for x in subterms(t)):
                                return S("cnonce")
                            return (("T", t),)
                        tag = f"{alg}:{qop}"
                        w = where(f)
                        exp = {"scheme": L("Digest"), "username": S("username"), "realm": S("realm"), "nonce": S("nonce"), "uri": S("uri"),
                               "algorithm": L(TOKEN[alg]), "response": spec_response(alg, qop)}
                        if qop:
                            exp.update({"qop": L(QOPT[qop]), "nc": S("nc"), "cnonce": S("cnonce")})
                        if opq:
                            exp["opaque"] = S("opaque")
                        for k, v in exp.items():
                            g = map_flat(ps[k], name) if k in ps else None
                            ctx.check(g == v, f"client:{k}", w, f"[{tag}] the Authorization header's {k} is {show_spec(g) if g is not None else 'absent'}, expected {show_spec(v)}")
                        extra = set(ps) - set(exp)
                        ctx.check(not extra, "client:extra", w, f"[{tag}] unexpected parameters {sorted(extra)} in the Authorization header")
                        if qop:
                            ok = nc is not None and len(nc) == 1 and nc[0][0] == "T" and nc[0][1].op == "call" and nc[0][1].a[0] == "lower_hex"
                            m = dict((r, v) for r, v in o.mem.items())
                            final = m.get(("A", 1))
                            ncv = proj(final, ("f", "nc")) if final is not None else None
                            ncv = q.resolve(ncv, fs) if ncv is not None else None
                            ok = ok and ncv is not None and nc[0][1].a[1] is ncv
                            up = ncv is not None and (ncv is binop("Add", F(A[1], "nc"), Int(1)) or ncv is mk("call", "saturating_add", F(A[1], "nc"), Int(1)))
                            ctx.check(ok and up, "client:nc-count", w, f"[{tag}] nc must be the client's counter, advanced by one for this request, in hexadecimal")
    ctx.floor("client header values analysed", 48)
    # rspauth: client acceptance
    f = q.one("sip_auth::DigestClient::verify_auth_info", "sip_auth")
    if f:
        A = [None] + [mk("arg", i) for i in range(1, 8)]
        for alg in av:
            for qop in qv:
                qo = F(A[2], "qop")
                cfg = [(is_(A[6], alg), True), (is_(qo, "Some"), True), (is_(proj(qo, ("v", "Some", "0")), qop), True)]
                s = q.under(f, cfg)
                n = 0
                for o in s.outcomes:
                    if not (o.ret.op == "adt" and o.ret.a[1] == "Err"):
                        n += 1
                        fs = q.close(o.facts)
                        R = rfacts(q, fs)

                        def name(t):
                            for v, k in ((F(A[1], "username"), "username"), (F(A[1], "password"), "password"), (A[3], "realm"), (A[4], "uri"), (A[5], "nonce"),
                                         (A[7], "body"), (proj(F(A[2], "cnonce"), ("v", "Some", "0")), "cnonce"), (proj(F(A[2], "nc"), ("v", "Some", "0")), "nc"),
                                         (F(A[2], "rspauth"), "rspauth")):
                                if t is v:
                                    return S(k)
                            return (("T", t),)
                        want = spec_response(alg, qop, method=False)
                        got = []
                        for a, b in ct_pairs(R):
                            x, y = map_flat(flat(a), name), map_flat(flat(b), name)
                            got += [u for u, v in ((x, y), (y, x)) if v == S("rspauth")]
                        ctx.check(want in got, "client:rspauth", where(f), f"[{alg}, {qop}] verify_auth_info can return Ok without rspauth matching {show_spec(want)}; compared: {'; '.join(show_spec(g) for g in got)[:500]}")
                        ctx.count("rspauth acceptances analysed")
                ctx.check(n > 0, "client:rspauth-never", where(f), f"[{alg}, {qop}] verify_auth_info never returns Ok")
    # rspauth: server value
    f = q.one("sip_auth::DigestAuthenticator::build_auth_info", "sip_auth")
    if f:
        auth, req, body = mk("arg", 1), mk("arg", 2), mk("arg", 3)
        for alg in av:
            for qop in qv:
                for proxy in (False, True):
                    cfg = [(is_(F(auth, "algorithm"), alg), True), (is_(F(auth, "qop"), qop), True), (F(auth, "proxy_auth"), proxy)]
                    s = q.under(f, cfg)
                    hn = "Proxy-Authorization" if proxy else "Authorization"
                    n = 0
                    for o in s.outcomes:
                        if not o.key.startswith("Ok(Some"):
                            continue
                        n += 1
                        fs = q.close(o.facts)
                        info = o.ret.a[3].a[3]
                        base = classify(q, fs, auth, req, call("Request::headers", req), hn)

                        def name(t):
                            if t is body:
                                return S("body")
                            return base(t)
                        rs = q.resolve(proj(info, ("f", "rspauth")), fs)
                        got = map_flat(flat(rs), name)
                        want = spec_response(alg, qop, method=False)
                        ctx.check(got == want, "server:rspauth", where(f), f"[{alg}, {qop}] build_auth_info's rspauth is {show_spec(got)[:500]}; expected {show_spec(want)}")
                        for k in ("cnonce", "nc"):
                            v = q.resolve(proj(info, ("f", k)), fs)
                            v = proj(v, ("v", "Some", "0"))
                            ctx.check(map_flat(flat(v), name) == S(k), f"server:rspauth-{k}", where(f), f"[{alg}, {qop}] the announced {k} is not the one the request carried")
                        ctx.count("rspauth values analysed")
                    ctx.check(n > 0, "server:rspauth-never", where(f), "build_auth_info never returns a value")
    ctx.floor("rspauth acceptances analysed", 16)
    ctx.floor("rspauth values analysed", 32)


# ---------------------------------------------------------------- replay
def match_fact(q, facts, auth, req, hdrs, hn):
    """some constant-time equality over the presented response holds"""
    R = q.full(facts)
    name = classify(q, R, auth, req, hdrs, hn)
    for a, b in list(ct_pairs(R)) + list(plain_eq_pairs(R)):
        x, y = map_flat(flat(a), name), map_flat(flat(b), name)
        if (x == S("response")) != (y == S("response")):
            return True
    return False


def covers(h, names):
    """the flat value is one hash whose input contains each named part"""
    if len(h) != 1 or h[0][0] != "H":
        return False
    have = set()

    def walk(f):
        for x in f:
            if x[0] == "S":
                have.add(x[1])
            elif x[0] == "H":
                walk(x[2])
    walk(h[0][2])
    return names <= have


STOREW = {"DashMap::insert", "DashMap::remove", "DashMap::clear", "DashMap::retain", "DashMap::alter", "DashMap::alter_all", "DashMap::entry", "DashMap::remove_if",
          "DashMap::iter_mut", "DashMap::try_entry"}


def a03(ctx):
    q = Q(ctx, only={"sip_auth"})
    ctx.rule("On every path to Ok(true) of verify/verify_async (per proxy mode) the facts must say: the nonce entry comes from a write-locked lookup of the presented "
             "nonce, is unexpired, was last used within the reuse window if it was used before, the presented hexadecimal nc is at least 1, and either nc is above the "
             "recorded count, in which case the entry's final state records nc and a hash over method, URI and body, or nc equals it and the recorded hash matches this "
             "request's. Every write to a stored nonce or to the store inside verification carries the fact that the response matched. Every write to a nonce's count "
             "anywhere in the crate is to a larger value.")
    for fn, auth, req, hdrs in server_entries(ctx, q):
        kind = "async" if "async" in fn.id else "sync"
        mgr = F(auth, "nonce_manager")
        w = where(fn)
        for proxy in (False, True):
            hn = "Proxy-Authorization" if proxy else "Authorization"
            cfg = [(F(auth, "proxy_auth"), proxy), (is_(F(auth, "algorithm"), "Sha256"), True), (is_(F(auth, "qop"), "Auth"), True)]
            s = q.under(fn, cfg)
            for o in s.outcomes:
                fs = ok_true(q, o)
                if fs is None:
                    continue
                ctx.count("accepting outcomes analysed")
                R = q.full(fs)
                name = classify(q, R, auth, req, hdrs, hn)
                ents = [(e, how) for e, k, how in nonce_entries(q, R, mgr) if map_flat(flat(k), name) == S("nonce") and how == "DashMap::get_mut"]
                if not ctx.check(len(ents) >= 1, f"{kind}:locked", w, "Ok(true) without a write-locked lookup of the presented nonce: a concurrent or repeated request is not recorded"):
                    continue
                e = ents[0][0]
                ctx.check(valid_entry(R, e), f"{kind}:expired", w, "Ok(true) without the nonce entry being within its lifetime when its count is committed")
                ncs = [x for t, b in R for x in subterms(t) if x.op == "vf" and x.a[1] == "Ok" and x.a[0].op == "call" and x.a[0].a[0].endswith("from_str_radix")
                       and len(x.a[0].a) == 3 and x.a[0].a[2] is Int(16) and map_flat(flat(x.a[0].a[1]), name) == S("nc")]
                if not ctx.check(bool(ncs), f"{kind}:nc-parse", w, "Ok(true) without the presented nc being parsed as a hexadecimal number"):
                    continue
                nc = ncs[0]
                last = proj(e, ("f", "last_nc"))
                ctx.check(q.holds(R, lambda f: (binop("Eq", nc, Int(0)), False) in f or q.P.le(Int(1), nc, f) or lt(q, f, Int(0), nc)), f"{kind}:nc-zero", w,
                          "Ok(true) with a nonce count of zero, which never advances the recorded count")

                def aged(f):
                    if q.e.known(f, binop("Lt", Int(0), last)) is False or (binop("Eq", last, Int(0)), True) in f:
                        return True
                    for t, b in f:
                        if b and t.op == "bin" and t.a[0] in ("Le", "Lt") and elapsed_of(t.a[1], "last_used", e) and t.a[2] is F(mgr, "max_request_age"):
                            return True
                    return False
                ctx.check(q.holds(R, aged), f"{kind}:age", w, "Ok(true) although the nonce was last used longer ago than the reuse window")
                final = q.mem(o, e, R)

                def fresh_or_same(f):
                    if lt(q, f, last, nc):
                        if final is None:
                            return False
                        fin = q.resolve(proj(final, ("f", "last_nc")), f)
                        hsh = q.resolve(proj(final, ("f", "last_request_hash")), f)
                        h = map_flat(flat(proj(hsh, ("v", "Some", "0"))), name)
                        return fin is nc and covers(h, {"method", "uri", "body"})
                    if (binop("Eq", nc, last), True) in f or (binop("Eq", last, nc), True) in f:
                        old = proj(e, ("f", "last_request_hash"))
                        if (is_(old, "None"), True) in f:
                            return True
                        for a, b in list(ct_pairs(f)) + list(plain_eq_pairs(f)):
                            for x, y in ((a, b), (b, a)):
                                if flat(x) == (("T", proj(old, ("v", "Some", "0"))),) and covers(map_flat(flat(q.resolve(y, f)), name), {"method", "uri", "body"}):
                                    return True
                    return False
                ctx.check(q.holds(R, fresh_or_same), f"{kind}:replay", w,
                          "Ok(true) is reachable with a nonce count that is neither above the recorded one (and then recorded) nor a repeat of the identical request")
        # writes only after the response matched
        f0 = [(F(auth, "proxy_auth"), False)]

        def shared_write(ev):
            if ev.kind == "wr" and ev.name == "sip_auth::Nonce":
                return True
            return ev.kind == "call" and ev.name in STOREW
        s = q.e.summary(fn)
        for te in tree(q, fn, shared_write):
            if te.ev.kind == "wr":
                old = te.args[1]
                roots = {x.a[0] for x in subterms(old) if x.op == "icall" and x.a[0].startswith("DashMap::")}
                if roots and roots <= {"DashMap::get", "DashMap::view"}:
                    continue          # a private copy
            elif not any(x is F(mgr, "nonces") for a in te.args for x in subterms(a)):
                continue
            ctx.count("nonce-state writes inside verification")
            ok = any(match_fact(q, te.facts, auth, req, hdrs, h) for h in ("Authorization", "Proxy-Authorization")) or both_modes(q, te.facts, auth, req, hdrs)
            what = te.ev.extra[0] if te.ev.kind == "wr" else te.ev.name
            ctx.check(ok, f"{kind}:before-match:{what}", te.where(), f"verification changes stored nonce state ({what}) on a path where the response has not been matched, so an unauthenticated request consumes or locks a nonce count")
    ctx.floor("accepting outcomes analysed", 4)
    ctx.floor("nonce-state writes inside verification", 6)
    # monotone counts
    for f in q.p.fns.values():
        if f.crate != "sip_auth":
            continue
        for ev in q.e.summary(f).events:
            if ev.kind == "wr" and ev.name == "sip_auth::Nonce" and ev.extra[0] == "last_nc":
                ctx.count("writes of a nonce count")
                ctx.check(lt(q, q.full(ev.facts), ev.args[1], ev.args[0]) or q.P.le(ev.args[1], ev.args[0], q.full(ev.facts)) or ev.args[0].op == "call" and ev.args[0].a[0] == "max" and ev.args[1] in ev.args[0].a,
                          f"monotone:{strip_generics(f.id)}", ev.where(), "a recorded nonce count is overwritten with one that may be lower")
    ctx.floor("writes of a nonce count", 1)
    # the public contract of the nonce itself
    f = q.one("sip_auth::Nonce::validate_nc_with_request", "sip_auth")
    if f:
        me = mk("arg", 1)
        s = q.e.summary(f)
        for o in s.outcomes:
            fs = ok_true(q, o)
            if fs is None:
                fin = o.mem.get(("A", 1))
                if fin is not None:
                    fs2 = q.close(o.facts)
                    for fld in ("last_nc", "last_request_hash"):
                        v = q.resolve(proj(fin, ("f", fld)), fs2)
                        ctx.check(v is proj(me, ("f", fld)), f"reject-writes:{fld}", where(f), f"a rejected request changes {fld}")
                continue
            R = q.full(fs)
            nc = mk("arg", 2)
            ctx.check((binop("Eq", nc, Int(0)), False) in R or q.P.le(Int(1), nc, R), "contract:zero", where(f), "nonce count zero is accepted")
            ctx.check(q.P.le(proj(me, ("f", "last_nc")), nc, R) or q.holds(R, lambda g: q.P.le(proj(me, ("f", "last_nc")), nc, g)), "contract:backwards", where(f), "a nonce count below the recorded one is accepted")


def both_modes(q, facts, auth, req, hdrs):
    ok = True
    for proxy, hn in ((False, "Authorization"), (True, "Proxy-Authorization")):
        f = q.assume(facts, [(F(auth, "proxy_auth"), proxy)])
        if f is not None:
            f = q.close(f)
        if f is not None and not match_fact(q, f, auth, req, hdrs, hn):
            ok = False
    return ok



# ---------------------------------------------------------------- secrets
WIPE = ("Zeroize::zeroize", "AssertZeroize::zeroize_or_on_drop", "AssertZeroizeOnDrop::zeroize_or_on_drop")
SECRET_TYPES = ("sip_auth::Credentials", "sip_auth::DigestClient")


def is_pw(t):
    return t.op == "field" and t.a[1] == "password"


def under_ct(q, t, bad, deep, seen=None):
    """subterms satisfying bad that are not operands of a constant-time comparison; deep: also through joined values"""
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    if t.op == "call" and (t.a[0] in CT or t.a[0].endswith("::ct_eq")):
        return
    if bad(t):
        yield t
        return
    if t.op == "is":
        deep = False
    if t.op == "phi" and deep:
        for x in q.e.phi_inputs(t):
            yield from under_ct(q, x, bad, deep, seen)
    for x in t.a:
        for y in (x if isinstance(x, tuple) else (x,)):
            for z in (y if isinstance(y, tuple) else (y,)):
                if isinstance(z, T):
                    yield from under_ct(q, z, bad, deep, seen)


def digest_entries(ctx, q):
    out = [(fn, auth) for fn, auth, _, _ in server_entries(ctx, q)]
    for sfx in ("sip_auth::DigestClient::generate_authorization", "sip_auth::DigestClient::verify_rspauth", "sip_auth::DigestAuthenticator::build_authentication_info"):
        for f in q.fns(sfx, "sip_auth"):
            out.append((f, mk("arg", 1)))
    return out


def public_fns(q, crate):
    return [f for f in q.p.fns.values() if f.crate == crate and f.reach]


def a04(ctx):
    q = Q(ctx, only={"sip_auth"})
    ctx.rule("(1) No branch taken anywhere under a public function of the digest code depends on the password, on a value hashed from it, or on the authenticator's opaque token, except "
             "through a constant-time comparison. (2) Debug, Display and serialisation code of the credential types never reads the password. (3) The credential types wipe the "
             "password when dropped. (4) Each owned string into which the plaintext password is copied is wiped on every path after it was hashed.")
    roots = [f for f in q.p.fns.values() if f.crate == "sip_auth" and not f.derived and (f.reach or f.id.startswith("<sip_auth")) or f.id.endswith("verify_async::{closure#0}")]
    seen = set()
    for f in roots:
        s = q.e.summary(f)
        ctx.count("functions scanned for secret-dependent branches")
        selfsecret = f.id.startswith(("<sip_auth::Credentials", "<sip_auth::DigestClient"))

        def bad(t):
            return is_pw(t) or t.op == "field" and t.a[1] == "opaque" and "DigestAuthenticator" in f.id and t.a[0].op in ("arg", "field")
        facts = {}
        for o in s.outcomes:
            for t, b in o.facts:
                facts.setdefault(t, f"{where(f)}")
        for te in tree(q, f, lambda ev: True):
            for t, b in te.facts:
                facts.setdefault(t, te.where())
        for t, w in facts.items():
            for x in under_ct(q, t, bad, True):
                key = f"branch:{strip_generics(f.id)}:{show(x, 0, 2)[-30:]}"
                if key not in seen:
                    seen.add(key)
                    ctx.violation(key, w, f"a branch depends on a secret outside a constant-time comparison: {show(t, 0, 6)[:300]}")
            ctx.ok()
    ctx.floor("functions scanned for secret-dependent branches", 25)
    # (2) formatting
    n = 0
    for f in q.p.fns.values():
        m = [c for c in SECRET_TYPES if f.id.startswith("<" + c + " as ")]
        if not m:
            continue
        tr = f.id.split(" as ")[1]
        if not any(k in tr for k in ("Debug", "Display", "Serialize", "LowerHex", "Hash>")):
            continue
        n += 1
        for te in tree(q, f, lambda ev: ev.kind == "call"):
            for a in te.args:
                if any(is_pw(x) for x in subterms(a)):
                    ctx.violation(f"fmt:{strip_generics(f.id)}", te.where(), "formatting a credential reads the password")
        ctx.ok()
    ctx.count("formatting implementations of credential types", n)
    ctx.floor("formatting implementations of credential types", 2)
    # (3) drop
    for c in SECRET_TYPES:
        a = q.e.adt_variants.get(c)
        if not ctx.check(a is not None, f"type:{c}", "crates/sip-auth/src/lib.rs", f"credential type {c} not found"):
            continue
        d = [f for f in q.p.fns.values() if strip_generics(f.id).startswith(f"<{c} as core::ops::drop::Drop>")]
        ok = False
        for f in d:
            for te in tree(q, f, lambda ev: ev.kind == "call" and ev.name in WIPE):
                if te.args and is_pw(te.args[0]) and not te.facts:
                    ok = True
        ctx.check(ok, f"drop:{c}", "crates/sip-auth/src/lib.rs", f"dropping {c} does not wipe its password")
    # (4) plaintext copies
    for f, auth in digest_entries(ctx, q):
        wipes, uses = [], {}
        for te in tree(q, f, lambda ev: ev.kind == "call"):
            if te.ev.name.startswith("Argument::new") or te.ev.name in PASSTHROUGH:
                continue
            for a in te.args:
                fl = flat(a)
                if len(fl) > 1 and any(x[0] == "T" and is_pw(x[1]) for x in fl):
                    if te.ev.name in WIPE:
                        wipes.append((te.path, fl, te.facts, te.ev.fn.id))
                    else:
                        uses.setdefault((te.path, fl), te)
        for (path, fl), te in uses.items():
            if any(len(p) < len(path) and path[:len(p)] == p and g == fl for p, g in uses):
                continue        # the same buffer lent to a callee
            ctx.count("plaintext password buffers")
            ok = any(p == path and g == fl and entails_path(q, te.facts | q.full(te.facts), wf) for p, g, wf, _ in wipes)
            ctx.check(ok, f"wipe:{strip_generics(te.ev.fn.id)}", te.where(), "a string holding the plaintext password is not wiped on every path after use")
    ctx.floor("plaintext password buffers", 3)


PASSTHROUGH = {"format", "as_bytes", "String::as_bytes", "str::as_bytes", "Deref::deref", "String::as_str", "from_utf8_lossy"}


# ---------------------------------------------------------------- challenges
def challenge_entries(ctx, q):
    out = []
    for sfx, stale in (("<sip_auth::DigestAuthenticator<S> as sip_auth::Authenticator>::challenge", False),
                       ("<sip_auth::DigestAuthenticator<S> as sip_auth::Authenticator>::challenge_stale", True),
                       ("sip_auth::DigestAuthenticator::challenge_stale", True)):
        f = q.one(sfx, "sip_auth")
        if f:
            out.append((f, stale))
    return out


def a05(ctx):
    q = Q(ctx, only={"sip_auth"})
    ctx.rule("Each challenge response is reduced, per algorithm, qop and proxy mode, to its status, header list and parameters: 407 with Proxy-Authenticate when the authenticator is "
             "a proxy's and 401 with WWW-Authenticate otherwise; the Digest parameters are the configured realm, algorithm token, qop, the authenticator's opaque and a nonce generated in this call and "
             "stored unused; stale=true exactly in stale challenges; every Via in order, From, To (with a tag), Call-ID and CSeq copied from the request. Verification reads the same header the challenge asks for (A01).")
    av, qv = algs(ctx, q)
    me, req = mk("arg", 1), mk("arg", 2)
    rh = simp_call("Request::headers", (req,))
    for f, stale in challenge_entries(ctx, q):
        cfgs = [(a, "Auth", False) for a in av] + [("Sha256", x, p) for x in qv for p in (False, True)]
        for alg, qop, proxy in dict.fromkeys(cfgs):
            cfg = [(is_(F(me, "algorithm"), alg), True), (is_(F(me, "qop"), qop), True), (F(me, "proxy_auth"), proxy)]
            for h in ("From", "To", "Call-ID", "CSeq"):
                cfg.append((is_(simp_call("Headers::get", (rh, mk("str", h))), "Some"), True))
            s = q.under(f, cfg)
            n = 0
            for o in s.outcomes:
                if not (o.ret.op == "adt" and o.ret.a[1] == "Ok"):
                    continue
                fs = q.close(o.facts)
                if fs is None:
                    continue
                n += 1
                R = q.full(fs)
                a05_outcome(ctx, q, f, stale, alg, qop, proxy, me, rh, o, R)
            ctx.count("challenge outcomes analysed", n)
            ctx.check(n > 0, f"none:{strip_generics(f.id)}", where(f), "the challenge is never issued")
    ctx.floor("challenge outcomes analysed", 30)
    # the nonce in the challenge is stored, unused
    for f, stale in challenge_entries(ctx, q):
        ins = []
        for te in tree(q, f, lambda ev: ev.kind == "call" and ev.name in ("DashMap::insert",)):
            if te.args and te.args[0] is F(me, "nonce_manager", "nonces"):
                ins.append(te)
        ctx.count("nonce insertions under a challenge", len(ins))
        s = q.e.summary(f)
        for te in ins:
            k, v = te.args[1], te.args[2]
            R = q.full(te.facts)
            ctx.check(flat(proj(v, ("f", "value"))) == flat(k), f"store-key:{stale}", te.where(), "the generated nonce is stored under a key that is not its value")
            ctx.check(proj(v, ("f", "last_nc")) is Int(0) and q.e.known(R, is_(proj(v, ("f", "last_request_hash")), "None")) is True, f"store-fresh:{stale}", te.where(), "a generated nonce is stored as already used")
            ctx.check(proj(v, ("f", "ttl")) is F(me, "nonce_manager", "ttl"), f"store-ttl:{stale}", te.where(), "a generated nonce does not get the configured lifetime")
        ctx.check(len(ins) >= 1, f"stored:{strip_generics(f.id)}", where(f), "the nonce of a challenge is never stored, so no answer to it can verify")
    ctx.floor("nonce insertions under a challenge", 2)


def a05_outcome(ctx, q, f, stale, alg, qop, proxy, me, rh, o, R):
    w = where(f)
    tag = "stale" if stale else "fresh"
    r = q.resolve(proj(o.ret, ("v", "Ok", "0")), R)
    if not ctx.check(r.op == "vf" and r.a[0].op == "call" and r.a[0].a[0] == "Response::new", f"{tag}:shape", w, "a challenge is not built with Response::new from a status line, headers and a body; the rule cannot read it"):
        return
    st, hd = r.a[0].a[1], r.a[0].a[2]
    st = st.a[0] if st.op == "vf" else st
    code = q.resolve(st.a[1], R) if st.op == "call" and st.a[0].startswith("StatusLine::new") else None
    want = 407 if proxy else 401
    ctx.check(code is Int(want), f"{tag}:status", w, f"with proxy_auth={proxy} the challenge's status is {show(code) if code is not None else '?'}, not {want}")
    hl = hlist(q, hd, R)
    if not ctx.check(hl is not None, f"{tag}:headers", w, "the challenge's header list cannot be determined: " + show(q.resolve(hd, R), 0, 5)[:300]):
        return
    by = {}
    for n, v, src in hl:
        by.setdefault((lit(n) or "?").lower(), []).append((v, src))
    hn = "Proxy-Authenticate" if proxy else "WWW-Authenticate"
    other = "WWW-Authenticate" if proxy else "Proxy-Authenticate"
    ctx.check(len(by.get(hn.lower(), [])) == 1 and other.lower() not in by, f"{tag}:header-name", w, f"with proxy_auth={proxy} the challenge does not carry exactly one {hn} header: {sorted(by)}")
    for v, src in by.get(hn.lower(), [])[:1]:
        ps = parse_params(flat(v))

        def val(k):
            return ps.get(k)
        exp = {"scheme": L("Digest"), "realm": (("T", F(me, "realm")),), "algorithm": L(TOKEN[alg]), "qop": L(QOPT[qop]), "opaque": (("T", F(me, "opaque")),)}
        for k, x in exp.items():
            ctx.check(val(k) == x, f"{tag}:param:{k}", w, f"[{alg},{qop}] the challenge's {k} is {show_flat(val(k) or ())[:160]}, expected {show_flat(x)}")
        ctx.check((val("stale") == L("true")) == stale and (stale or val("stale") in (None, L("false"))), f"{tag}:param:stale", w, f"the stale parameter is {show_flat(val('stale') or ())}")
        ctx.check("?" not in ps, f"{tag}:param:extra", w, "the challenge has a repeated or malformed parameter")
        nv = val("nonce") or ()
        ok = len(nv) == 1 and nv[0][0] == "T" and random_token(nv[0][1]) is not None
        ctx.check(ok, f"{tag}:param:nonce", w, f"the challenge's nonce is not a token freshly drawn in this call: {show_flat(nv)[:200]}")
    via = by.get("via", [])
    ok = len(via) == 1 and via[0][1] is not None and via[0][1].op == "call" and via[0][1].a[0] in ("Headers::get_all", "Headers::get_all_smol") and via[0][1].a[1] is rh and cstr(via[0][1].a[2]) == "Via"
    ctx.check(ok, f"{tag}:via", w, "the challenge does not copy every Via of the request in order, so it cannot be routed back through all hops")
    for h in ("From", "To", "Call-ID", "CSeq"):
        l = by.get(h.lower(), [])
        src = proj(simp_call("Headers::get", (rh, mk("str", h))), ("v", "Some", "0"))
        if not ctx.check(len(l) == 1 and l[0][1] is None, f"{tag}:{h}", w, f"the challenge does not carry exactly one {h}"):
            continue
        v = l[0][0]
        if h == "To":
            good = to_with_tag(q, v, src, R)
            ctx.check(good, f"{tag}:To-tag", w, f"the challenge's To is not the request's To with a tag present: {show(v, 0, 6)[:200]}")
        else:
            ctx.check(flat(v) == flat(src), f"{tag}:{h}-copy", w, f"the challenge's {h} is not the request's")


# ---------------------------------------------------------------- tokens and store bounds
def a06(ctx):
    q = Q(ctx, only={"sip_auth"})
    ctx.rule("The nonce, the opaque and the client nonce are alphanumeric samples of the thread's CSPRNG of at least 32, 32 and 16 characters. Every insertion into the nonce store is reached only "
             "with the store below its limit, or after purging expired nonces and, if it is still full, removing at least one entry in order of creation. A credential look-up "
             "is reached only when no rate limiter is set, the request has no source to key on, or the limiter allowed that source.")
    f = q.one("sip_auth::Nonce::new", "sip_auth")
    if f:
        for o in q.e.summary(f).outcomes:
            n = random_token(proj(o.ret, ("f", "value")))
            ctx.check(n is not None and n >= 32, "nonce-random", where(f), "a nonce is not at least 32 alphanumeric samples of the thread's CSPRNG")
    f = q.one("sip_auth::DigestAuthenticator::new", "sip_auth")
    if f:
        for o in q.e.summary(f).outcomes:
            n = random_token(proj(o.ret, ("f", "opaque")))
            ctx.check(n is not None and n >= 32, "opaque-random", where(f), "the opaque is not at least 32 alphanumeric samples of the thread's CSPRNG")
    f = q.one("sip_auth::DigestClient::generate_authorization", "sip_auth")
    if f:
        A = [None] + [mk("arg", i) for i in range(1, 10)]
        s = q.under(f, [(is_(A[7], "Some"), True), (is_(A[6], "Sha256"), True), (is_(A[8], "None"), True), (is_(proj(A[7], ("v", "Some", "0")), "Auth"), True)])
        for o in s.outcomes:
            cn = parse_params(flat(q.resolve(o.ret, q.close(o.facts)))).get("cnonce") or ()
            n = random_token(cn[0][1]) if len(cn) == 1 and cn[0][0] == "T" else None
            ctx.check(n is not None and n >= 16, "cnonce-random", where(f), "the client nonce is not at least 16 alphanumeric samples of the thread's CSPRNG")
            fin = o.mem.get(("A", 1))
            nc = q.resolve(proj(fin, ("f", "nc")), q.close(o.facts)) if fin is not None else None
            old = F(A[1], "nc")
            grow = nc is not None and nc.op in ("call", "bin") and any(x is old for x in nc.a) and any(x is Int(1) for x in nc.a) and ("add" in str(nc.a[0]).lower())
            ctx.check(grow, "nc-advances", where(f), "the client's nonce count does not advance by one per request")
    # store bound
    for f in q.p.fns.values():
        if f.crate != "sip_auth":
            continue
        for ev in q.e.summary(f).events:
            if ev.kind == "call" and ev.name in ("DashMap::insert", "DashMap::entry") and "nonces" in show(ev.args[0], 0, 3):
                ctx.count("insertions into the nonce store")
                mgr = ev.args[0].a[0]
                cap_guard(ctx, q, f, ev, mgr)
    ctx.floor("insertions into the nonce store", 1)
    # rate limit before credential work; functions that derive a key from the headers stay symbolic
    keyfns = {f.id for f in q.p.fns.values() if f.crate == "sip_auth" and f.argc >= 1 and any(f.lty(i).peel().s.endswith("Headers") for i in range(1, f.argc + 1))
              and f.lty(0).s.startswith(("core::option::Option<alloc::string::String", "std::option::Option<std::string::String", "Option<"))}
    q = Q(ctx, only={"sip_auth"}, opaque=keyfns)
    for fn, auth, req, hdrs in server_entries(ctx, q):
        kind = "async" if "async" in fn.id else "sync"
        rl = F(auth, "rate_limiter")
        for te in tree(q, fn, lambda ev: ev.kind == "call" and ev.name.endswith("::fetch")):
            ctx.count("credential look-ups")

            def allowed(fs):
                if (is_(rl, "None"), True) in fs:
                    return True
                for t, b in fs:
                    if b and t.op in ("call", "icall") and t.a[0] == "RateLimiter::check_rate_limit" and any(x is proj(rl, ("v", "Some", "0")) for x in t.a):
                        return any(y is hdrs for y in subterms(t))
                if any(no_source(t, b) for t, b in fs):
                    return True
                return False

            def no_source(t, b):
                """a test of the Via header that came out as: no source to key on"""
                if b and t.op == "is" and t.a[1] == "None" and any(y is hdrs for y in subterms(t.a[0])):
                    return True
                if t.op in ("or", "forall", "call", "icall") or not any(hdr_get(y) and hdr_get(y)[0] is hdrs and (cstr(hdr_get(y)[1]) or "").lower() == "via" for y in subterms(t)):
                    return False
                return t.op == "is" and b and t.a[1] == "None" or t.op == "bin" and (t.a[0], b) in (("Lt", True), ("Le", False), ("Eq", True))
            ctx.check(q.holds(te.facts, allowed), f"{kind}:ratelimit", te.where(), "credentials are looked up for a request the rate limiter has not admitted")
    ctx.floor("credential look-ups", 2)


def oldest_first(q, src):
    """the collection is one sorted, or the least one, by the nonces' creation time"""
    from rules.dns_rules import sort_keys
    for x in subterms(src):
        n = str(x.a[0]) if x.op in ("post", "call", "icall") else ""
        if "Iterator::rev" in n or "slice::reverse" in n:
            return False
        if "sort" in n and x.op == "post":
            ks = sort_keys(q, x)
            if not ks:
                return False
            base, items = stream(q, x.a[2], mk("sym", "item"))
            while base.op in ("call", "icall") and short_name(base) == "Iterator::collect":
                base, items = stream(q, args_of(base)[0], mk("sym", "item"))
            return bool(items) and all(y.op == "field" and y.a[1] == "created_at" for _, v in items for y in [conv_of(proj(v, ("f", ks[0])))])
        if "min_by" in n or "select_nth" in n:
            return any(y.op == "field" and y.a[1] == "created_at" for z in subterms(x) if z.op == "closure" and q.p.fn(z.a[0]) is not None for o in q.e.summary(q.p.fn(z.a[0])).outcomes for y in subterms(o.ret))
    return False


def conv_of(t):
    while t.op == "call" and t.a[0] in ("Clone::clone", "clone"):
        t = t.a[1]
    return t


def cap_guard(ctx, q, f, ev, mgr):
    mx = F(mgr, "max_nonces")

    def size(t):
        return t.op in ("icall", "call") and t.a[0] == "DashMap::len" and t.a[-1] is F(mgr, "nonces")

    def below(fs):
        return any(b and t.op == "bin" and t.a[0] == "Lt" and size(t.a[1]) and t.a[2] is mx for t, b in fs)
    # evictions in the tree before the insertion
    rem = []
    for te in tree(q, f, lambda e: e.kind == "call" and e.name in ("DashMap::remove", "DashMap::retain")):
        if te.args[0] is F(mgr, "nonces"):
            rem.append(te)
    purge = [t for t in rem if t.ev.name == "DashMap::retain"]
    ctx.check(bool(purge), "store:purge", ev.where(), "expired nonces are never purged when the store is full")
    evict = each = None
    for t in rem:
        if t.ev.name != "DashMap::remove":
            continue
        for x in subterms(t.args[1]):
            src = next_source(q, x, t.facts) if x.op == "vf" else None
            if src is not None:
                evict = (t, src)
    good = False
    why = "no entry is removed when the store is full"
    if evict:
        t, src = evict
        src = q.resolve(src, q.full(t.facts))
        R = q.full(t.facts)
        cnt = [x.a[2] for x in subterms(src) if x.op == "call" and x.a[0] == "Iterator::take"] + \
              [args_of(x)[1] for x in subterms(src) if x.op == "post" and x.a[0] == "Vec::truncate"]
        many = all(all(q.P.le(Int(1), v, fs) or (binop("Eq", v, Int(0)), False) in fs or lt(q, fs, Int(0), v) for v, fs in leaves(q, c, R)) for c in cnt)
        good = many and oldest_first(q, src)
        why = "the number of entries removed from a full store is not known to be at least one" if not many else "the entries removed from a full store are not chosen by age, oldest first"
        if not good:
            why += " " + show(src, 0, 8)[:300]
        gone = [f for f in t.facts if not any(x.op == "icall" and x.a[0] in ("Iterator::next", "next") for x in subterms(f[0]))]
        its = [te.args[0] for te in tree(q, f, lambda e: e.kind == "call" and e.name == "Iterator::for_each")]
        each = any(x.op == "icall" and x.a[0] == "Iterator::next" and x.a[2] in its for x in subterms(t.args[1]))
    ctx.check(good, "store:evict", ev.where(), why)

    def okc(fs):
        if below(fs) or each and all(f in fs for f in gone):
            return True
        # full: the eviction loop ran to its end
        return any(b and t.op == "is" and t.a[1] == "None" and t.a[0].op in ("call", "icall") and t.a[0].a[0] == "Iterator::next" for t, b in fs)
    ctx.check(q.holds(ev.facts, okc), "store:bound", ev.where(), "a nonce is stored although the store is at its limit and nothing was evicted")


# ---------------------------------------------------------------- A07
def a07(ctx):
    q = Q(ctx, only={"sip_auth"})
    ctx.rule("extract_auth_username, for every combination of Digest credentials in Authorization and Proxy-Authorization: returns nothing but the username parameter of one of them, taken from the first header of its name; when both carry a user name it returns one only on paths where the two were found equal.")
    fn = q.one("sip_auth::extract_auth_username", "sip_auth")
    if fn is None:
        return
    hs = mk("arg", 1)

    def cred(name):
        h = simp_call("Headers::get_smol", (hs, mk("str", name)))
        p = next((x for g in ("header_values::parse_authorization_header",) for x in [simp_call(g, (proj(h, ("v", "Some", "0")),))]))
        pv = proj(p, ("v", "Some", "0"))
        u = simp_call("AuthorizationHeader::param", (pv, mk("str", "username")))
        yes = [(is_(h, "Some"), True), (is_(p, "Some"), True), (simp_call("eq_ignore_ascii_case", (simp_call("AuthorizationHeader::scheme", (pv,)), mk("str", "Digest"))), True), (is_(u, "Some"), True)]
        return h, u, proj(u, ("v", "Some", "0")), yes
    A, B = cred("Authorization"), cred("Proxy-Authorization")
    w = where(fn)
    for case, cfg in (("both", A[3] + B[3]), ("origin", A[3] + [(is_(B[0], "None"), True)]), ("proxy", B[3] + [(is_(A[0], "None"), True)]), ("none", [(is_(A[0], "None"), True), (is_(B[0], "None"), True)])):
        s = q.under(fn, cfg)
        n = 0
        for o in s.outcomes:
            for v, fs in leaves(q, o.ret, o.facts):
                g = q.close(fs | frozenset(cfg))
                if g is None:
                    continue
                v = q.resolve(v, q.full(g))
                ctx.count("returned values analysed")
                if v.op == "adt" and v.a[1] == "None":
                    ctx.check(case in ("both", "none"), f"{case}:missing", w, "the user name of the only credentials is not returned")
                    continue
                x = v.a[3] if v.op == "adt" and v.a[1] == "Some" else proj(v, ("v", "Some", "0"))
                n += 1
                ok = {"both": x in (A[2], B[2]), "origin": x is A[2], "proxy": x is B[2], "none": False}[case]
                if not ctx.check(ok, f"{case}:value", w, "the value returned is not the username parameter of the request's Digest credentials: " + show(x, 0, 6)[:160]):
                    continue
                if case == "both":
                    ctx.check(q.holds(g, lambda k: any(eq(k, a, b) for a, b in ((A[2], B[2]), (A[1], B[1]))) or any(b and t.op == "call" and t.a[0] == "PartialEq::eq" and {t.a[1], t.a[2]} in ({A[1], B[1]}, {A[2], B[2]}) for t, b in k)), "both:differ", w,
                              "a user name is returned although Authorization and Proxy-Authorization may name different users, only one of which was verified")
        ctx.check(n > 0 or case == "none", f"{case}:none", w, "no user name is ever returned for these credentials")
    ctx.floor("returned values analysed", 4)


RULES = {"A07": a07, "A01": a01, "A02": a02, "A03": a03, "A04": a04, "A05": a05, "A06": a06}
