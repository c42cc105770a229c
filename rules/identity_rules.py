"""STIR/SHAKEN (sip-identity)."""
from rules._util import *

CR = "sip_identity"
IDF = "crates/sip-identity/src/"
URLSAFE = tuple(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_")
CONV = ("From::from", "TryFrom::try_from", "Into::into", "TryInto::try_into", "Deref::deref", "as_bytes", "AsRef::as_ref", "as_slice", "Vec::as_slice", "Borrow::borrow", "to_vec", "to_string", "Clone::clone", "as_str",
        "String::into_bytes", "String::as_bytes", "str::to_owned", "ToOwned::to_owned", "slice::to_vec")


def conv(t):
    """t without value-preserving conversions and unwrapped results"""
    while True:
        if t.op == "call" and len(t.a) == 2 and t.a[0] in CONV:
            t = t.a[1]
        elif t.op == "vf" and t.a[1] in ("Ok",) and t.a[0].op == "call" and t.a[0].a[0] in ("TryFrom::try_from", "TryInto::try_into"):
            t = t.a[0]
        else:
            return t


def cut(t):
    """(text or bytes, from, to) of a range expression"""
    return t.a[1:4] if t.op == "call" and t.a[0] == "slice" else (None, None, None)


def sources(q, t):
    """the function's arguments that t is computed from"""
    return {x.a[0] for x in deep_subterms(q, t) if x.op == "arg"}


def calls_in(facts, name):
    for t, b in facts:
        if b and t.op == "is" and t.a[1] == "Ok" and t.a[0].op == "call" and t.a[0].a[0].endswith(name):
            yield t.a[0]


def ok_outcomes(q, fn):
    for o in q.e.summary(fn).outcomes:
        for v, fs in leaves(q, o.ret, o.facts):
            g = q.close(fs)
            if g is None:
                continue
            v = q.resolve(v, q.full(g))
            if v.op == "adt" and v.a[1] == "Err":
                continue
            if not (v.op == "adt" and v.a[1] == "Ok"):
                # the result of a call handed on: the success case of it
                g2 = q.e.add_fact(g, is_(v, "Ok"), True)
                g = q.close(g2) if g2 is not None else None
                if g is None:
                    continue
            yield o, v, g


def alg_es256(q, g, me):
    return holds(q, g, lambda k: eq(k, F(F(me, "header"), "alg"), mk("str", "ES256")))


def first_byte(k, s, n):
    if eq(k, mk("idx", s, mk("int", 0)), mk("int", n)):
        return True
    for t, b in k:
        for x, y in (t.a[1:3], t.a[1:3][::-1]) if b and t.op == "bin" and t.a[0] == "Eq" else ():
            f = x.a[0] if x.op == "vf" and x.a[1] == "Some" else x
            if f.op == "call" and f.a[0].split("::")[-1] in ("first", "get") and f.a[1] is s and (len(f.a) == 2 or f.a[2] is mk("int", 0)):
                z = y.a[3] if y.op == "adt" and y.a[1] == "Some" and x is f else y
                if z is mk("int", n):
                    return True
        if b and t.op == "call" and t.a[0].split("::")[-1] == "starts_with" and t.a[1] is s and (t.a[2].op == "bytes" and t.a[2].a[0][:1] == (n,) or t.a[2].op == "array" and t.a[2].a[:1] == (mk("int", n),)):
            return True
    return False


def i01(ctx):
    q = Q(ctx, only={CR})
    ctx.rule("Passport::verify_signature, on every run that returns Ok: the PASSporT's own header said alg ES256, the key argument has 65 bytes and starts with 0x04, and ring's ECDSA P-256 / SHA-256 verification of the PASSporT's own signing_input and signature bytes under exactly that key succeeded.")
    fn = q.one("passport::Passport>::verify_signature", CR)
    if fn is None:
        return
    me, key = mk("arg", 1), mk("arg", 2)
    w = where(fn)
    for o, v, g in ok_outcomes(q, fn):
        ctx.count("accepting runs analysed")
        ctx.check(alg_es256(q, g, me), "alg", w, "the signature is accepted although the PASSporT's alg need not be ES256")
        f = q.full(g)
        ctx.check(q.holds(g, lambda k: eq(k, simp_len(key), mk("int", 65))), "keylen", w, "the signature is accepted under a key that need not be 65 bytes long")
        ctx.check(q.holds(g, lambda k: first_byte(k, key, 4)), "keyform", w, "the signature is accepted under a key that need not be an uncompressed point")

        def verified(k):
            for c in calls_in(k, "UnparsedPublicKey::verify"):
                u = c.a[1]
                if u.op == "call" and u.a[0].endswith("UnparsedPublicKey::new") and u.a[1].op == "const" and str(u.a[1].a[0]).endswith("ECDSA_P256_SHA256_FIXED") and conv(u.a[2]) is key \
                        and conv(c.a[2]) is F(me, "signing_input") and conv(c.a[3]) is F(me, "signature"):
                    return True
            return False
        ctx.check(holds(q, g, verified), "verify", w, "the signature is accepted without ring having verified this PASSporT's signature over its signing input under the given key with ECDSA P-256/SHA-256")
    ctx.floor("accepting runs analysed", 1)


def simp_len(t):
    return simp_call("len", (t,))


def eqt(x):
    """operands of an equality test"""
    return x.a[1:3] if x.op == "bin" and x.a[0] == "Eq" else ()


def nonempty(q, g, t):
    n, z = simp_len(t), mk("int", 0)
    return q.P.le(mk("int", 1), n, q.full(g), 0) or holds(q, g, lambda k: (binop("Eq", n, z), False) in k or (binop("Lt", z, n), True) in k)


def i02(ctx):
    q = Q(ctx, only={CR}, opaque={f.id for f in Q(ctx, only={CR}).fns("jose_es256_to_der", CR)})
    ctx.rule("Passport::verify_with_chain, on every run that returns Ok: alg is ES256; the end-entity certificate is the one parsed from the first argument; webpki path validation of it succeeded with anchors computed from nothing but the trust_anchor_ders argument, intermediates from nothing but the intermediates argument, at the caller's now; and that same certificate verified (ECDSA P-256 / SHA-256) the PASSporT's own signing_input against a signature computed from nothing but the PASSporT's own signature bytes.")
    fn = q.one("passport::Passport>::verify_with_chain", CR)
    if fn is None:
        return
    me = mk("arg", 1)
    w = where(fn)
    for o, v, g in ok_outcomes(q, fn):
        ctx.count("accepting runs analysed")
        ctx.check(alg_es256(q, g, me), "alg", w, "the PASSporT is accepted although its alg need not be ES256")
        ees = []

        def chain_ok(k):
            for c in calls_in(k, "EndEntityCert::verify_for_usage"):
                if conv(c.a[1]) is mk("arg", 2) and sources(q, c.a[3]) == {4} and sources(q, c.a[4]) <= {3} and c.a[5] is mk("arg", 5):
                    ees.append(c.a[1])
                    return True
            return False

        def sig_ok(k):
            for c in calls_in(k, "EndEntityCert::verify_signature"):
                if conv(c.a[1]) is mk("arg", 2) and c.a[2].op == "const" and str(c.a[2].a[0]).endswith("ECDSA_P256_SHA256") and conv(c.a[3]) is F(me, "signing_input"):
                    bs = [x for x in deep_subterms(q, c.a[4]) if x is F(me, "signature")]
                    if bs and sources(q, replace(c.a[4], F(me, "signature"), mk("int", 0))) == set():
                        return True
            return False
        ctx.check(holds(q, g, chain_ok), "chain", w, "the PASSporT is accepted without the signing certificate having been validated against the trust anchors with the given intermediates at the given time")
        ctx.check(holds(q, g, sig_ok), "signature", w, "the PASSporT is accepted without the signing certificate having verified its signature over its signing input with ECDSA P-256/SHA-256")
    ctx.floor("accepting runs analysed", 1)
    # what is handed to webpki as an anchor
    n = 0
    for te in tree(q, fn, lambda e: e.kind == "call" and e.name.endswith("anchor_from_trusted_cert")):
        n += 1
    ctx.check(n > 0 or any("anchor_from_trusted_cert" in str(x) for f in q.p.fns.values() if f.crate == CR for x in f_calls(f)), "anchors", w, "no trust anchor is built from the configured certificates")


def f_calls(f):
    for b in f.blocks:
        if b["t"] and b["t"][0] == "call":
            yield b["t"][1]


# ------------------------------------------------------------------ decoding
def b64_of(t):
    """('dec'|'enc', operand) of a base64 operation with the URL-safe unpadded alphabet"""
    if t.op == "vf" and t.a[1] == "Ok":
        t = t.a[0]
    if t.op == "call" and t.a[0] in ("Engine::decode", "Engine::encode") and len(t.a) == 3:
        e = t.a[1]
        bs = [x for x in subterms(e) if x.op == "bytes"]
        if any(x.a[0] == URLSAFE for x in bs):
            return t.a[0][8:11], conv(t.a[2])
    return None


def part(q, t, src, sep, k):
    """number of the piece of split(src, sep) t is, under the facts k"""
    t = conv(t)
    if t.op == "vf" and t.a[1] == "Some" and t.a[0].op == "call" and t.a[0].a[0] == "Iterator::next":
        x, n = t.a[0].a[1], 0
        while x.op == "post" and x.a[0] == "Iterator::next" and x.a[1] == 0:
            x, n = x.a[2], n + 1
        if is_split(x, src, sep):
            return n
    if t.op == "idx" and t.a[1].op == "int" and is_split(strip_collect(t.a[0]), src, sep):
        return t.a[1].a[0]
    return None


def strip_collect(t):
    while t.op == "call" and t.a[0] in ("Iterator::collect",) and len(t.a) == 2:
        t = t.a[1]
    return t


def is_split(x, src, sep):
    return x.op == "call" and x.a[0] == "str::split" and conv(x.a[1]) is src and x.a[2].op in ("char", "str") and (chr(x.a[2].a[0]) if x.a[2].op == "char" else x.a[2].a[0]) == sep


def parts_are(q, g, src, sep, n):
    """the facts say that split(src, sep) has exactly n pieces"""
    sp = None
    for t, b in g:
        for x in subterms(t):
            if x.op == "call" and x.a[0] == "str::split" and is_split(x, src, sep):
                sp = x
    if sp is None:
        return False

    def ok(k):
        t = sp
        for i in range(n + 1):
            nx = mk("call", "Iterator::next", t)
            if (is_(nx, "Some" if i < n else "None"), True) not in k and (is_(nx, "None" if i < n else "Some"), False) not in k:
                break
            t = mk("post", "Iterator::next", 0, t)
        else:
            return True
        return any(b and any(y is mk("int", n) for y in eqt(x)) and any(y.op == "call" and y.a[0] == "len" and strip_collect(y.a[1]) is sp for y in eqt(x)) for x, b in k) \
            or any(b and any(y is mk("int", n) for y in eqt(x)) and any(y.op == "call" and y.a[0] == "Iterator::count" and y.a[1] is sp for y in eqt(x)) for x, b in k)
    return holds(q, g, ok)


def struct_fields(q, path):
    a = q.p.adts.get(path) or q.p.adts.get(path.split("<")[0])
    return [f["name"] for f in a["variants"][0]["fields"]] if a else []


def eq_strs(fs, t):
    for x, b in fs:
        if b and t in eqt(x):
            for y in eqt(x):
                if y.op == "str":
                    yield y.a[0]


def json_in(ctx, q):
    """struct field -> JSON member it is read from (derived Deserialize impls of the crate)"""
    out = {}
    for f in q.p.fns.values():
        if f.crate == CR and "__FieldVisitor" in f.id and f.id.endswith("::visit_str"):
            names = struct_fields(q, f.id.split(" for ", 1)[1].split(">::deserialize", 1)[0])
            for o in q.e.summary(f).outcomes:
                for v, fs in leaves(q, o.ret, o.facts):
                    if v.op == "adt" and v.a[1] == "Ok" and v.a[3].op == "adt" and v.a[3].a[1].startswith("__field"):
                        i = int(v.a[3].a[1][7:])
                        for s in eq_strs(fs, mk("arg", 2)):
                            ctx.count("JSON member names read")
                            if i < len(names):
                                out.setdefault(names[i], set()).add(s)
    return out


def json_out(ctx, q, path):
    """[(JSON member, struct field)] in the order the derived Serialize impl writes them"""
    out = []
    for f in q.p.fns.values():
        if f.crate == CR and f.id.endswith("::serialize") and f"for {path}" in f.id and "Serialize" in f.id:
            for ev in q.e.summary(f).events:
                if ev.kind == "call" and ev.name.endswith("serialize_field") and len(ev.args) == 3:
                    v = ev.args[2]
                    while v.op in ("ref", "deref"):
                        v = v.a[0]
                    e = (ev.args[1].a[0] if ev.args[1].op == "str" else None, v.a[1] if v.op == "field" and v.a[0] is mk("arg", 1) else None)
                    if e not in out:
                        out.append(e)
                        ctx.count("JSON members written")
    return out


def opt_path(q, k, v, root, path):
    """v is what the chain of optional fields starting at root holds (None when one of them is absent)"""
    t, hops = root, []
    for i, n in enumerate(path):
        t = F(t, n)
        hops.append(t)
        if i < len(path) - 1:
            t = proj(t, ("v", "Some", "0"))
    last = hops[-1]
    if v is last:
        return True
    if v.op == "adt" and v.a[1] == "Some":
        return conv(v.a[3]) is proj(last, ("v", "Some", "0"))
    if v.op == "adt" and v.a[1] == "None":
        return any((is_(h, "None"), True) in k or (is_(h, "Some"), False) in k for h in hops)
    return False


def decoded(q, t):
    """operand of serde_json::from_slice(base64url-decode(x)) / from_str"""
    t = conv(t)
    if t.op == "vf" and t.a[1] == "Ok" and t.a[0].op == "call" and t.a[0].a[0] in ("de::from_slice", "de::from_str"):
        d = b64_of(conv(t.a[0].a[1]))
        if d and d[0] == "dec":
            return d[1]
    return None


def byte_pieces(t):
    """what a byte vector or string is put together from"""
    t = conv(t)
    if t.op == "post" and t.a[1] == 0:
        n = t.a[0].split("::")[-1]
        if n in ("extend_from_slice", "push_str", "extend", "push", "write_str", "append"):
            x = t.a[3]
            lit = chr(x.a[0]) if n == "push" and x.op in ("int", "char") and isinstance(x.a[0], int) else None
            return byte_pieces(t.a[2]) + ((("L", lit),) if lit else byte_pieces(x))
        return (("T", t),)
    if t.op == "call" and t.a[0].split("::")[-1] in ("new", "with_capacity") and len(t.a) <= 2:
        return ()
    if t.op == "bytes":
        return (("L", bytes(t.a[0]).decode("latin1")),)
    fl = tuple(flat(t))
    if len(fl) == 1 and fl[0][0] == "T":
        return (("T", conv(fl[0][1])),)
    return joinL([p if p[0] != "T" else ("T", conv(p[1])) for p in fl])


HEAD = {"alg": ("alg",), "typ": ("typ",), "ppt": ("ppt",), "x5u": ("x5u",)}
CLAIM = {"orig_tn": ("orig", "tn"), "iat": ("iat",), "origid": ("origid",)}


def i03(ctx):
    q = Q(ctx, only={CR})
    ctx.rule("Passport::decode, on every run that returns Ok: the token has exactly three dot-separated segments; signing_input is the first segment, a dot and the second segment, byte for byte; signature is the base64url decoding of the third; every header field comes from the JSON member of its name in the first segment and every claim from its member in the second (absent members give None, an empty list for dest.tn); x5u was present; attest is None or the level whose letter the claim is. AttestationLevel::parse and as_str agree.")
    fn = q.one("passport::Passport::decode", CR)
    if fn is None:
        return
    w = where(fn)
    tok = mk("arg", 1)
    names = json_in(ctx, q)

    def jname(path):
        return all(names.get(x) == {x} for x in path)
    nok = 0
    for o, v, g in ok_outcomes(q, fn):
        nok += 1
        ctx.count("accepting runs analysed")
        ctx.check(parts_are(q, g, tok, ".", 3), "segments", w, "a token is accepted that need not have exactly three segments")
        p = q.resolve(v.a[3], q.full(g)) if v.op == "adt" else proj(v, ("v", "Ok", "0"))
        si = byte_pieces(q.resolve(F(p, "signing_input"), q.full(g)))
        if len(si) == 1 and si[0][0] == "T":
            b, lo, hi = cut(si[0][1])
            if b is not None and conv(b) is tok and (lo.op == "none" or lo is mk("int", 0)):
                ls = {x.a[1] for x in subterms(hi) if x.op == "call" and x.a[0] == "len"}
                p0, p1 = ([x for x in ls if part(q, x, tok, ".", g) == i] for i in (0, 1))
                if len(p0) == len(p1) == 1 and simp(hi) is simp(binop("Add", binop("Add", simp_len(p0[0]), mk("int", 1)), simp_len(p1[0]))):
                    si = (("T", p0[0]), ("L", "."), ("T", p1[0]))
        ctx.check(len(si) == 3 and si[1] == ("L", ".") and si[0][0] == si[2][0] == "T" and part(q, si[0][1], tok, ".", g) == 0 and part(q, si[2][1], tok, ".", g) == 1, "signing_input", w,
                  "the signing input is not the token's first two segments joined by a dot: " + show_pieces(si)[:160])
        sg = b64_of(q.resolve(F(p, "signature"), q.full(g)))
        ctx.check(sg is not None and sg[0] == "dec" and part(q, sg[1], tok, ".", g) == 2, "signature", w, "the signature is not the base64url decoding of the token's third segment")
        for rec, tab, seg in (("header", HEAD, 0), ("claims", CLAIM, 1)):
            for fld, path in tab.items():
                for x, fs in leaves(q, F(F(p, rec), fld), g):
                    k = q.close(fs)
                    if k is None:
                        continue
                    ctx.count("decoded fields checked")
                    x = conv(q.resolve(x, q.full(k)))
                    roots = {y.a[0] for y in subterms(x) if y.op == "field"} | {y.a[0] for t, b in k for y in subterms(t) if y.op == "field"}
                    ok = False
                    for r in roots:
                        d = decoded(q, r)
                        if d is not None and part(q, d, tok, ".", g) == seg:
                            def good(f, r=r):
                                if fld == "alg":
                                    return x is F(r, "alg")
                                if fld == "x5u":
                                    return x is proj(F(r, "x5u"), ("v", "Some", "0"))
                                return opt_path(q, f, x, r, path)
                            if holds(q, k, good):
                                ok = True
                                break
                    ctx.check(ok and jname(path), f"{rec}.{fld}", w, f"{rec}.{fld} is not the JSON member {'.'.join(path)} of the token's {'first' if seg == 0 else 'second'} segment: " + show(x, 0, 4)[:120])
        # dest.tn: the list, or an empty one when absent
        full = 0
        for x, fs in leaves(q, F(F(p, "claims"), "dest_tns"), g):
            k = q.close(fs)
            if k is None:
                continue
            x = conv(q.resolve(x, q.full(k)))
            roots = {y.a[0] for y in subterms(x) if y.op == "field"} | {y.a[0] for t, b in k for y in subterms(t) if y.op == "field"}
            ok = empty = False
            for r in roots:
                d = decoded(q, r)
                if d is not None and part(q, d, tok, ".", g) == 1:
                    tn = F(proj(F(r, "dest"), ("v", "Some", "0")), "tn")
                    empty = x.op == "call" and x.a[0].split("::")[-1] in ("new", "default") and not sources(q, x)
                    ok = ok or x is proj(tn, ("v", "Some", "0")) or x.op == "call" and x.a[0].endswith("unwrap_or_default") and x.a[1] is tn or empty and any(q.close(k | {(is_(h, "None"), True)}) is not None for h in (F(r, "dest"), tn))
            full += ok and not empty
            ctx.check(ok and jname(("dest", "tn")), "claims.dest_tns", w, "claims.dest_tns is not the JSON member dest.tn of the token's second segment: " + show(x, 0, 4)[:120])
        ctx.check(full > 0, "claims.dest_tns:none", w, "the destination numbers of the token are dropped")
        # attest
        for x, fs in payload_leaves(q, F(F(p, "claims"), "attest"), g):
            k = q.close(fs)
            if k is None:
                continue
            ctx.count("attestation levels checked")
            x = q.resolve(x, q.full(k))

            def raw(t):
                return t.op == "field" and t.a[1] == "attest" and (d := decoded(q, t.a[0])) is not None and part(q, d, tok, ".", g) == 1

            def good(f):
                if x.op == "adt" and x.a[1] == "None":
                    return any(t.op == "is" and raw(t.a[0]) and (t.a[1] == "None") == b for t, b in f)
                if x.op == "adt" and x.a[1] == "Some" and x.a[3].op == "adt" and x.a[3].a[1] in ("A", "B", "C"):
                    return any(b and any(y.op == "str" and y.a[0] == x.a[3].a[1] for y in eqt(t)) and any(z.op == "vf" and raw(z.a[0]) for y in eqt(t) for z in subterms(y)) for t, b in f)
                return False
            ctx.check(holds(q, k, good) and jname(("attest",)), "claims.attest", w, "the attestation level is not the one the attest claim names: " + show(x, 0, 4)[:120])
    ctx.check(nok > 0, "none", w, "no token is ever decoded")
    for te in tree(q, fn, lambda e: e.kind == "panic" and e.name.startswith("unwrap")):
        ctx.violation("panic", te.ev.where(), "decoding a token can panic")
    # the wire letters
    f2 = q.one("passport::AttestationLevel::as_str", CR)
    for V in ("A", "B", "C"):
        s = q.under(f2, [(is_(mk("arg", 1), V), True)])
        rs = {q.resolve(x, q.full(fs)) for o in s.outcomes for x, fs in leaves(q, o.ret, o.facts) if q.close(fs) is not None and q.close(frozenset(fs) | {(is_(mk("arg", 1), V), True)}) is not None}
        ctx.check(rs == {mk("str", V)}, f"as_str:{V}", where(f2), f"attestation level {V} is written as {[show(r)[:20] for r in rs]}")
    ctx.floor("decoded fields checked", 7)
    ctx.floor("attestation levels checked", 3)


def i04(ctx):
    q = Q(ctx, only={CR}, opaque={f.id for f in Q(ctx, only={CR}).fns("passport::Passport::decode", CR)})
    ctx.rule("IdentityHeader::parse, on every run that returns Ok: the value has at most 8192 bytes; the passport is the decoding of the trimmed text before the first ';', which is not empty and is also what raw_token holds; info, alg and ppt are absent or the value of a later ';'-separated parameter whose name equals theirs ignoring case, info only when it was enclosed in < and >.")
    fn = q.one("header::IdentityHeader::parse", CR)
    if fn is None:
        return
    w = where(fn)
    val = mk("arg", 1)

    def first(k, t):
        ls = []
        for t, gs in leaves(q, conv(t), k):
            gs = q.close(gs)
            if gs is None:
                continue
            t = conv(q.resolve(t, q.full(gs)))
            if not (t.op == "call" and t.a[0] == "str::trim"):
                return False
            ls += [(conv(q.resolve(x, q.full(fs))), fs) for x, fs in leaves(q, t.a[1], gs) if q.close(fs) is not None]
        return bool(ls) and all(part(q, x, val, ";", fs) == 0 or split_head(x) or x.op == "str" and x.a[0] == "" or x is val and not_found(fs) for x, fs in ls)

    def split_head(x):
        return x.op == "field" and x.a[1] == "0" and x.a[0].op == "vf" and x.a[0].a[0].op == "call" and x.a[0].a[0].a[0] == "str::split_once" and x.a[0].a[0].a[1] is val and sepis(x.a[0].a[0].a[2], ";")

    def not_found(fs):
        return any(t.op == "is" and (t.a[1] == "None") == b and t.a[0].op == "call" and t.a[0].a[0] in ("str::split_once", "str::find") and t.a[0].a[1] is val and sepis(t.a[0].a[2], ";") for t, b in q.full(fs))

    def sepis(t, c):
        return t.op in ("char", "str") and (chr(t.a[0]) if t.op == "char" else t.a[0]) == c
    n = 0
    for o, v, g in ok_outcomes(q, fn):
        n += 1
        ctx.count("accepting runs analysed")
        h = q.resolve(v.a[3], q.full(g))
        ctx.check(q.P.le(simp_len(val), mk("int", 8192), q.full(g), 0), "length", w, "a value longer than 8192 bytes is accepted")
        t = conv(q.resolve(F(h, "raw_token"), q.full(g)))
        ctx.check(first(g, t), "raw_token", w, "raw_token is not the trimmed text before the first ';': " + show(t, 0, 5)[:100])
        ctx.check(nonempty(q, g, t), "empty", w, "an empty token is accepted")
        p = q.resolve(F(h, "passport"), q.full(g))
        ctx.check(p.op == "vf" and p.a[1] == "Ok" and p.a[0].op == "call" and p.a[0].a[0].endswith("Passport::decode") and first(g, p.a[0].a[1]), "passport", w, "the passport is not the decoding of the text before the first ';'")
        for fld in ("info", "alg", "ppt"):
            for x, fs in payloads(q, F(h, fld), g):
                if x is None:
                    continue
                k = q.close(fs)
                if k is None:
                    continue
                for x, k in adapted(q, x, k):
                    ctx.count("parameter values checked")
                    x = conv(q.resolve(x, q.full(k)))
                    vs = list(valueparts(q, x, k))
                    ctx.check(bool(vs) and all(keyval(q, z, 1) is not None for z, _ in vs), f"{fld}:value", w, f"{fld} is not the value of its parameter: " + show(x, 0, 5)[:120])
                    vs = [(z, f, s) for z, f in vs for s in [keyval(q, z, 1)] if s is not None]
                    ctx.check(all(holds(q, f, lambda e, s=s: named(q, e, s, fld)) for z, f, s in vs), f"{fld}:name", w, f"{fld} can be the value of a parameter with another name")
                    ctx.check(all(later(q, s, val, f) for z, f, s in vs), f"{fld}:segment", w, f"{fld} is not read from a later ';'-separated part of the value")
                    if fld == "info":
                        ctx.check(bracketed(q, x, k), "info:brackets", w, "info is accepted without angle brackets around it")
    ctx.check(n > 0, "none", w, "no header is ever accepted")
    ctx.floor("parameter values checked", 3)


def payload_leaves(q, t, g):
    for x, fs in leaves(q, t, g):
        if x.op == "adt" and x.a[1] == "Some" and x.a[3].op != "adt":
            for y, gs in leaves(q, x.a[3], fs):
                yield mk(*(x.op,) + x.a[:3] + (y,)), gs
        else:
            yield x, fs


def payloads(q, t, g):
    """values an optional field can hold (None for absent), also those set by earlier iterations"""
    for x, fs in assigned(q, t, g):
        if x.op == "adt" and x.a[1] == "None":
            yield None, fs
        elif x.op == "adt" and x.a[1] == "Some":
            if x.a[3].op in ("phi", "field", "vf"):
                yield from assigned(q, x.a[3], fs)
            else:
                yield x.a[3], fs
        else:
            yield proj(x, ("v", "Some", "0")), fs


def peel(t, names):
    t = conv(t)
    while t.op == "call" and t.a[0] in names:
        t = conv(t.a[1])
    return t


TRIM = ("str::trim", "str::trim_start", "str::trim_end")


def named(q, f, seg, want):
    """the facts say that the name part of the segment equals want, ignoring case"""
    for x, b in f:
        if not b:
            continue
        a = None
        if any(y.op == "str" and y.a[0] == want for y in eqt(x)):
            a = next((y for y in eqt(x) if y.op != "str"), None)
            while a is not None and a.op == "call" and a.a[0] in CONV:
                a = a.a[1]
            if a is None or not (a.op == "call" and a.a[0].endswith(("to_ascii_lowercase", "to_lowercase"))):
                continue
            a = a.a[1]
        elif x.op == "call" and x.a[0].endswith("eq_ignore_ascii_case"):
            s = [y for y in x.a[1:] if y.op == "str"]
            if not s or s[0].a[0].lower() != want:
                continue
            a = next((y for y in x.a[1:] if y.op != "str"), None)
        if a is None:
            continue
        if keyval(q, peel(a, TRIM), 0) is seg:
            return True
    return False


def valueparts(q, x, facts):
    """(where the text x was cut from, facts)"""
    seen, st = set(), [(x, frozenset(facts))]
    while st:
        y, fs = st.pop()
        k = q.close(fs)
        if k is None or (y, fs) in seen:
            continue
        seen.add((y, fs))
        y = conv(q.resolve(y, q.full(k)))
        if keyval(q, y, 1) is not None:
            yield y, k
        elif y.op == "phi":
            st += list(leaves(q, y, fs)) if not q.is_head(q.site(y)) else [(z, fs | frozenset(gs)) for z, gs in q.e.phi_inputs(y).items()]
        elif y.op == "vf" and y.a[1] in ("Some", "Ok") and y.a[0].op == "call" and y.a[0].a[0] in ("str::strip_prefix", "str::strip_suffix"):
            st.append((y.a[0].a[1], fs))
        elif y.op == "call" and y.a[0] in TRIM + ("str::trim_matches",):
            st.append((y.a[1], fs))
        elif cut(y)[0] is not None:
            st.append((y.a[1], fs))
        else:
            ad = adapted(q, y, k)
            if [z for z, _ in ad] == [y]:
                yield y, k
            else:
                st += ad


def keyval(q, y, i):
    """the segment that y is the part before (0) or after (1) the first '=' of"""
    def eqs(t):
        return t.op in ("char", "str") and (chr(t.a[0]) if t.op == "char" else t.a[0]) == "="

    def found(t):
        return t.a[0].a[1] if t.op == "vf" and t.a[1] == "Some" and t.a[0].op == "call" and t.a[0].a[0] == "str::find" and eqs(t.a[0].a[2]) else None
    if y.op == "field" and y.a[1] == str(i) and y.a[0].op == "vf" and y.a[0].a[0].op == "call" and y.a[0].a[0].a[0] == "str::split_once" and eqs(y.a[0].a[0].a[2]):
        return y.a[0].a[0].a[1]
    b, lo, hi = cut(y)
    if b is None:
        return None
    if i == 0:
        return b if (lo.op == "none" or lo is mk("int", 0)) and found(hi) is b else None
    for x in subterms(lo):
        if found(x) is b and hi.op == "none" and lo is binop("Add", x, mk("int", 1)):
            return b
    return None


def later(q, seg, val, facts):
    """the segment is one of the ';'-separated parts of val after the first"""
    def semi(t):
        return t.op in ("char", "str") and (chr(t.a[0]) if t.op == "char" else t.a[0]) == ";"

    def rest(x):
        if x.op == "str" and x.a[0] == "":
            return True
        return x.op == "field" and x.a[1] == "1" and x.a[0].op == "vf" and x.a[0].a[0].op == "call" and x.a[0].a[0].a[0] == "str::split_once" and conv(x.a[0].a[0].a[1]) is val and semi(x.a[0].a[0].a[2])

    def run(it, n, seen):
        while it.op in ("call", "post") and it not in seen:
            if it.op == "post" and it.a[0] == "Iterator::next":
                it, n = it.a[2], n + 1
            elif it.op == "call" and it.a[0] in ITERS and len(it.a) == 2:
                it = it.a[1]
            elif it.op == "call" and it.a[0] == "Iterator::skip" and it.a[2].op == "int":
                it, n = it.a[1], n + it.a[2].a[0]
            else:
                break
        if it.op == "phi":
            return it in seen or bool(q.e.phi_inputs(it)) and all(run(x, 0, seen | {it}) for x in q.e.phi_inputs(it))
        if not (it.op == "call" and it.a[0] == "str::split" and semi(it.a[2])):
            return False
        ls = [(conv(q.resolve(x, q.full(k))), k) for x, fs in leaves(q, it.a[1], facts) for k in [q.close(fs)] if k is not None]
        return bool(ls) and all(x is val and n >= 1 or rest(x) for x, _ in ls)
    s = peel(seg, TRIM)
    return s.op == "vf" and s.a[1] == "Some" and s.a[0].op == "call" and s.a[0].a[0] == "Iterator::next" and run(s.a[0].a[1], 0, frozenset())


def adapted(q, x, k):
    """[(value, facts)] with the items of an adapted iterator put in terms of the elements under it"""
    from q import rebuild
    for n in subterms(x):
        if n.op == "vf" and n.a[1] == "Some" and n.a[0].op == "call" and n.a[0].a[0] == "Iterator::next":
            chain = next_source(q, n, q.full(k))
            if chain is None or not (chain.op == "call" and chain.a[0] in ("Iterator::map", "Iterator::filter", "Iterator::filter_map")):
                continue
            base = chain
            while base.op == "call" and base.a[0] in ("Iterator::map", "Iterator::filter", "Iterator::filter_map"):
                base = base.a[1]
            it = proj(mk("call", "Iterator::next", base), ("v", "Some", "0"))
            base, items = stream(q, chain, it)
            if items is None:
                continue
            out = []
            for fs, y in items:
                h = join_facts(q, fs, [(rebuild(replace(t, n, y)), b) for t, b in k])
                h = q.close(h) if h is not None else None
                if h is not None:
                    out.append((rebuild(replace(x, n, y)), h))
            return out
    return [(x, k)]


def bracketed(q, x, facts):
    """x lies, on every way it can have been computed, between a '<' and a '>' that were found"""
    def lit(t):
        return chr(t.a[0]) if t.op == "char" else t.a[0] if t.op == "str" else None
    st, seen = [(x, frozenset(), frozenset(facts))], set()
    while st:
        y, got, fs = st.pop()
        k = q.close(fs)
        if k is None or (y, got, fs) in seen:
            continue
        seen.add((y, got, fs))
        y = conv(q.resolve(y, q.full(k)))
        got |= {("at", y)}
        if y.op == "vf" and y.a[0].op == "call" and y.a[0].a[0] in ("str::strip_prefix", "str::strip_suffix"):
            st.append((y.a[0].a[1], got | {(y.a[0].a[0][11:], lit(y.a[0].a[2]))}, fs))
        elif y.op == "call" and y.a[0] in TRIM:
            st.append((y.a[1], got, fs))
        elif y.op == "phi":
            st += [(z, got, gs) for z, gs in leaves(q, y, fs)] if not q.is_head(q.site(y)) else [(z, got, fs | frozenset(gs)) for z, gs in q.e.phi_inputs(y).items()]
        elif cut(y)[0] is not None:
            st.append((y.a[1], got, fs))
        else:
            for t, b in q.full(k):
                if b and t.op == "call" and t.a[0] in ("str::starts_with", "str::ends_with") and ("at", conv(t.a[1])) in got:
                    got |= {("prefix" if "starts" in t.a[0] else "suffix", lit(t.a[2]))}
            if not {("prefix", "<"), ("suffix", ">")} <= got:
                return False
    return True


WIRE_H = {"alg": ("str", "ES256"), "ppt": ("str", "shaken"), "typ": ("str", "passport"), "x5u": ("arg", ("x5u",))}
WIRE_C = {"attest": "attest", "dest": "dest", "iat": "iat", "orig": "orig", "origid": "origid"}


def i05(ctx):
    q = Q(ctx, only={CR})
    ctx.rule("sign, on every run that returns Ok: dest_tns and orig_tn are not empty; the first segment is the base64url of the JSON object of alg \"ES256\", ppt \"shaken\", typ \"passport\" and the caller's x5u, the second that of the caller's attest letter, dest.tn, iat, orig.tn and origid, members in alphabetical order; the key signs exactly first \".\" second, and the token is first \".\" second \".\" base64url(that signature). identity_header_value is token;info=<x5u>;alg=ES256;ppt=shaken.")
    fn = q.one("sign::sign", CR)
    if fn is None:
        return
    w = where(fn)
    P = mk("arg", 1)
    nok = 0

    def fieldof(t, path):
        """member path of a value being serialised, through the derived Serialize impls"""
        t = conv(t)
        for i, n in enumerate(path):
            if t.op != "adt":
                return None
            ms = dict(json_out(ctx, q, t.a[0]))
            if n not in ms or ms[n] is None:
                return None
            t = conv(F(t, ms[n]))
        return t

    def order(t):
        t = conv(t)
        return [m for m, _ in json_out(ctx, q, t.a[0])] if t.op == "adt" else None

    def body(t):
        d = b64_of(conv(t))
        if d is None or d[0] != "enc":
            return None
        x = conv(d[1])
        if x.op == "vf" and x.a[1] == "Ok" and x.a[0].op == "call" and x.a[0].a[0] in ("ser::to_vec", "ser::to_string"):
            return x.a[0].a[1]
        return None
    for o, v, g in ok_outcomes(q, fn):
        nok += 1
        ctx.count("signing runs analysed")
        r = q.resolve(v.a[3], q.full(g))
        for fld, what in (("dest_tns", "destination"), ("orig_tn", "origin")):
            ctx.check(nonempty(q, g, F(P, fld)), f"empty:{fld}", w, f"a PASSporT without a {what} number is signed")
        ps = byte_pieces(q.resolve(F(r, "token"), q.full(g)))
        okp = len(ps) == 5 and ps[1] == ps[3] == ("L", ".") and all(ps[i][0] == "T" for i in (0, 2, 4))
        if not ctx.check(okp, "token", w, "the token is not three segments joined by dots: " + show_pieces(ps)[:160]):
            continue
        H, C = body(ps[0][1]), body(ps[2][1])
        sg = b64_of(ps[4][1])
        s = conv(sg[1]) if sg and sg[0] == "enc" else None
        call = s.a[0] if s is not None and s.op == "vf" and s.a[1] == "Ok" else None
        good = call is not None and call.op == "call" and call.a[0].endswith("EcdsaKeyPair::sign") and call.a[1] is mk("arg", 2) and call.a[2] is mk("arg", 3)
        if ctx.check(good, "signature", w, "the third segment is not the base64url of the caller's key's signature"):
            si = byte_pieces(call.a[3])
            ctx.check(tuple(si) == tuple(ps[:3]), "signing_input", w, "what is signed is not the token's first two segments joined by a dot: " + show_pieces(si)[:140])
        if ctx.check(H is not None and C is not None, "segments", w, "the first two segments are not base64url of serialised JSON"):
            for n in ("alg", "ppt", "typ"):
                x = fieldof(H, (n,))
                ctx.check(x is mk("str", WIRE_H[n][1]), f"header.{n}", w, f"the header member {n} is not {WIRE_H[n][1]!r}")
            ctx.check(fieldof(H, ("x5u",)) is F(P, "x5u"), "header.x5u", w, "the header member x5u is not the caller's")
            for path, f in ((("iat",), "iat"), (("dest", "tn"), "dest_tns"), (("orig", "tn"), "orig_tn"), (("origid",), "origid")):
                x = fieldof(C, path)
                ctx.check(x is not None and unopt(x) is F(P, f), "claims." + ".".join(path), w, f"the claim {'.'.join(path)} is not the caller's {f}: " + (show(x, 0, 3)[:80] if x is not None else "absent"))
            x = fieldof(C, ("attest",))
            ok = x is not None
            if ok:
                for y, fs in leaves(q, x, g):
                    k = q.close(fs)
                    if k is not None:
                        y = q.resolve(y, q.full(k))
                        ok = ok and (y.op == "str" and holds(q, k, lambda f: (is_(F(P, "attest"), y.a[0]), True) in f) or y.op == "call" and y.a[0].endswith("AttestationLevel::as_str") and y.a[1] is F(P, "attest"))
            ctx.check(ok, "claims.attest", w, "the claim attest is not the caller's attestation level")
            for t, want, nm in ((H, ["alg", "ppt", "typ", "x5u"], "header"), (C, ["attest", "dest", "iat", "orig", "origid"], "claims")):
                ctx.check(order(t) == want, f"order:{nm}", w, f"the JSON members of the {nm} are written as {order(t)}, not {want}")
        ctx.check(conv(q.resolve(F(r, "x5u"), q.full(g))) is F(P, "x5u"), "x5u", w, "the signed PASSporT's x5u is not the one in its header")
    ctx.check(nok > 0, "none", w, "nothing is ever signed")
    f2 = q.one("sign::SignedPassport::identity_header_value", CR)
    me = mk("arg", 1)
    for o in q.e.summary(f2).outcomes:
        ctx.count("header values analysed")
        ps = byte_pieces(q.resolve(o.ret, q.full(o.facts)))
        ctx.check(ps == (("T", F(me, "token")), ("L", ";info=<"), ("T", F(me, "x5u")), ("L", ">;alg=ES256;ppt=shaken")), "header", where(f2), "the Identity header value is " + show_pieces(ps)[:160])
    ctx.floor("signing runs analysed", 1)


def unopt(x):
    while x.op == "call" and len(x.a) == 2 and x.a[0].split("::")[-1] in ("as_deref", "as_ref", "as_slice", "as_str"):
        x = x.a[1]
    return x


# ------------------------------------------------------------------ JOSE signature -> DER
def vec_ways(q, t, fs, depth=12):
    """[(bytes and byte ranges in order, facts)]"""
    k = q.close(fs)
    if k is None or depth == 0:
        return []
    t = conv(q.resolve(t, q.full(k)))
    if t.op == "call" and t.a[0].split("::")[-1] == "concat" and t.a[1].op in ("array", "tuple"):
        ways = [((), fs)]
        for x in t.a[1].a:
            ways = [(p + r, g2) for p, g in ways for r, g2 in vec_ways(q, x, g, depth - 1)]
        return ways
    if t.op == "phi" and q.is_head(q.site(t)):
        # a loop that appends every element of a range
        base, elem = [], set()
        for x, gs in q.e.phi_inputs(t).items():
            if not q.carried(x, t):
                base += [w for w in vec_ways(q, x, fs | frozenset(gs), depth - 1)]
            elif x.op == "post" and x.a[0].endswith("::push") and x.a[2] is t:
                e = loop_elem(q, x.a[3], fs)
                elem.add(iter_base(e[0]) if e is not None and not e[1] else None)
            else:
                elem.add(None)
        if len(elem) == 1 and None not in elem and not q.e.phi_kept(t):
            return [(p + (("S", next(iter(elem))),), g) for p, g in base]
        return [((("S", t),), fs)]
    if t.op == "phi" and not q.is_head(q.site(t)):
        return [w for x, gs in leaves(q, t, fs) for w in vec_ways(q, x, gs, depth - 1)]
    if t.op == "post" and t.a[1] == 0:
        n = t.a[0].split("::")[-1]
        base = vec_ways(q, t.a[2], fs, depth - 1)
        if n == "push":
            return [(p + (("B", t.a[3]),), g) for p, g in base]
        if n in ("extend", "extend_from_slice", "append"):
            return [(p + r, g2) for p, g in base for r, g2 in vec_ways(q, t.a[3], g, depth - 1)]
        return [((("S", t),), fs)]
    if t.op == "call" and t.a[0].split("::")[-1] in ("new", "with_capacity"):
        return [((), fs)]
    if t.op == "array" and all(isinstance(x, T) for x in t.a):
        return [(tuple(("B", x) for x in t.a), fs)]
    return [((("S", t),), fs)]


def num(q, t, k):
    """t with the conditions the facts settle put in as 0 or 1"""
    while t.op == "call" and t.a[0].startswith("cast:"):
        t = t.a[1]
    for f, b in k:
        if f.op != "or":
            t = replace(replace(t, notop(f), mk("int", int(not b))), f, mk("int", int(b)))
    return t


def simp(t):
    """sums put in one form"""
    k, ts, st = 0, [], [(t, 1)]
    while st:
        x, sg = st.pop()
        if x.op == "bin" and x.a[0] in ("Add", "Sub"):
            st += [(x.a[1], sg), (x.a[2], sg if x.a[0] == "Add" else -sg)]
        elif x.op == "int":
            k += sg * x.a[0]
        elif x.op == "bool":
            k += sg * int(x.a[0])
        elif x.op == "call" and x.a[0] == "len" and cut(x.a[1])[0] is not None and cut(x.a[1])[2].op == "none":
            b, lo, _ = cut(x.a[1])
            st += [(simp_len(b), sg), (lo, -sg)]
        else:
            ts.append((x.id, sg, x))
    return mk("sum", k, *(mk("term", sg, x) for _, sg, x in sorted(ts, key=lambda z: z[:2])))


def high_bit(k, v):
    """1/0/None: what the facts say about the top bit of v[0]"""
    x = mk("idx", v, mk("int", 0))
    for n, m in ((binop("Eq", binop("BitAnd", x, mk("int", 128)), mk("int", 0)), 0), (binop("Lt", x, mk("int", 128)), 0), (binop("Le", x, mk("int", 127)), 0), (binop("Lt", mk("int", 127), x), 1), (binop("Le", mk("int", 128), x), 1),
                 (binop("Eq", binop("BitAnd", x, mk("int", 128)), mk("int", 128)), 1)):
        for b in (True, False):
            if (n, b) in k:
                return m if b else 1 - m
    return None


def stripped(q, v, be, k):
    """v is be without leading zero bytes, but at least its last byte"""
    one, zero = mk("int", 1), mk("int", 0)

    def single(x):
        return binop("Eq", binop("Sub", simp_len(x), one), zero)
    if v.op == "phi" and q.is_head(q.site(v)):
        for x, fs in q.e.phi_inputs(v).items():
            g = q.close(fs)
            if g is None:
                continue
            x = conv(q.resolve(x, q.full(g)))
            if x is be:
                continue
            b, lo, hi = cut(x)
            if not (b is v and lo is one and hi.op == "none"):
                return False
            if not ((q.P.le(one, simp_len(v), q.full(g), -1) or q.P.le(one, simp_len(v), q.full(g), 0) and (single(v), False) in q.full(g)) and q.holds(g, lambda f: eq(f, mk("idx", v, zero), zero))):
                return False
        return holds(q, k, lambda f: q.P.le(simp_len(v), one, q.full(f), 0) or (single(v), True) in f or (binop("Eq", mk("idx", v, zero), zero), False) in f)
    b0, lo, hi = cut(v)
    if b0 is be and hi.op == "none" and lo.op == "phi" and q.is_head(q.site(lo)):
        at = [mk("idx", be, lo)] + [proj(mk("call", "Iterator::next", it), ("v", "Some", "0")) for _, c, it in q.e.elemmap.get(lo, ()) if c is be]
        for x, fs in q.e.phi_inputs(lo).items():
            g = q.close(fs)
            if g is None or q.resolve(x, q.full(g)) is zero:
                continue
            if not (q.resolve(x, q.full(g)) is binop("Add", lo, one) and q.P.le(lo, simp_len(be), q.full(g), -2) and q.holds(g, lambda f: any(eq(f, x, zero) for x in at))):
                return False
        return holds(q, k, lambda f: q.P.le(simp_len(be), lo, q.full(f), 1) or any((binop("Eq", x, zero), False) in f for x in at))
    if b0 is be and hi.op == "none":
        n = 0
        for x, fs in leaves(q, lo, k):
            g = q.close(fs)
            if g is None:
                continue
            n += 1
            x = q.resolve(x, q.full(g))
            pos = x.a[0] if x.op == "vf" and x.a[1] == "Some" else None
            if pos is not None and pos.op == "call" and pos.a[0] == "Iterator::position":
                c = pos.a[2]
                b = mk("unk", "byte")
                ws = closure_cases(q, c, [b], True)
                if not ws or not all((binop("Eq", b, zero), False) in w for w in ws) or iter_base(pos.a[1]) is not be:
                    return False
            elif not (x is binop("Sub", simp_len(be), one) or x is mk("int", 31)):
                return False
        return n > 0
    return False


def i06(ctx):
    q = Q(ctx, only={CR})
    ctx.rule("the signature verify_with_chain hands to the certificate's verifier: only when the PASSporT's signature has 64 bytes, a DER SEQUENCE (0x30, its length) of two INTEGERs made of its first and last 32 bytes; an INTEGER is 0x02, its length, a zero byte exactly when the top bit of the first remaining byte is set, and the bytes without leading zeros (one byte at least).")
    top = q.one("chain::<impl sip_identity::passport::Passport>::verify_with_chain", CR)
    if top is None:
        return
    S0 = F(mk("arg", 1), "signature")
    enc = [f for f in q.p.fns.values() if f.crate == CR and f.argc == 1 and "u8" in str(f.lty(1)) and any(ps[:1] == (("B", mk("int", 2)),) for o in q.e.summary(f).outcomes for ps, _ in vec_ways(q, o.ret, o.facts))]
    ctx.check(len(enc) >= 1, "integer", where(top), "no function encoding a DER INTEGER was found")
    for f in enc:
        be = mk("arg", 1)
        got = set()
        for o in q.e.summary(f).outcomes:
            for ps, fs in vec_ways(q, o.ret, o.facts):
                k = q.close(fs)
                if k is None:
                    continue
                ctx.count("encodings of an INTEGER analysed")
                pad = len(ps) == 4 and ps[2] == ("B", mk("int", 0))
                ok = (pad or len(ps) == 3) and ps[0] == ("B", mk("int", 2)) and ps[1][0] == "B" and ps[-1][0] == "S"
                if not ctx.check(ok, "integer:form", where(f), "an INTEGER is not encoded as 0x02, length, optional zero, bytes"):
                    continue
                v = ps[-1][1]
                got.add(pad)
                n = num(q, ps[1][1], q.full(k))
                want = binop("Add", simp_len(v), mk("int", 1)) if pad else simp_len(v)
                n = simp(n)
                ctx.check(n is simp(want), "integer:length", where(f), "the length byte of an INTEGER is not the number of bytes that follow: " + show(n, 0, 4)[:80])
                ctx.check(high_bit(q.full(k), v) == int(pad), "integer:pad", where(f), "the zero byte of an INTEGER does not go with the top bit of its first byte")
                ctx.check(stripped(q, v, be, k), "integer:strip", where(f), "the bytes of an INTEGER are not the input without its leading zeros")
        ctx.check(got == {True, False}, "integer:both", where(f), "an INTEGER is always or never padded")
    ids = {f.id for f in enc}
    q2 = Q(ctx, only={CR}, opaque=ids)
    n = 0
    for te in tree(q2, top, lambda e: e.kind == "call" and e.name.endswith("EndEntityCert::verify_signature")):
        for ps, fs in vec_ways(q2, te.args[3], te.facts):
            k = q2.close(fs)
            if k is None:
                continue
            n += 1
            ctx.count("encodings of the signature analysed")
            ctx.check(q2.holds(k, lambda f: eq(f, simp_len(S0), mk("int", 64))), "size", te.ev.where(), "a signature that need not have 64 bytes is converted")
            ok = len(ps) == 4 and ps[0] == ("B", mk("int", 0x30)) and ps[1][0] == "B" and all(p[0] == "S" and p[1].op == "call" and len(p[1].a) == 2 for p in ps[2:])
            ok = ok and half(ps[2][1].a[1], S0, 0) and half(ps[3][1].a[1], S0, 1) and ps[2][1].a[0] == ps[3][1].a[0] and any(i.endswith(ps[2][1].a[0]) for i in ids)
            ctx.check(ok, "sequence", te.ev.where(), "the signature is not handed over as a SEQUENCE of the INTEGERs of its two halves: " + " ".join(show(p[1], 0, 4)[:50] for p in ps)[:240])
            if ok:
                t = ps[1][1]
                while t.op == "call" and t.a[0].startswith("cast:"):
                    t = t.a[1]
                good = t.op == "call" and t.a[0] == "len" and [w[0] for w in vec_ways(q2, t.a[1], k)] == [ps[2:]] or t is binop("Add", simp_len(ps[2][1]), simp_len(ps[3][1]))
                ctx.check(good, "sequence:length", te.ev.where(), "the length byte of the SEQUENCE is not the length of its contents")
    ctx.check(n > 0, "none", where(top), "the certificate never verifies a signature")
    ctx.floor("encodings of an INTEGER analysed", 2)


def half(t, s, i):
    t = conv(t)
    b, lo, hi = cut(t)
    if b is s:
        return (lo.op == "none" or lo is mk("int", 0)) and hi is mk("int", 32) if i == 0 else lo is mk("int", 32) and (hi.op == "none" or hi is mk("int", 64) or hi is simp_len(s))
    if t.op == "field" and t.a[0].op == "call" and t.a[0].a[0].endswith("split_at") and t.a[0].a[1] is s and t.a[0].a[2] is mk("int", 32):
        return t.a[1] == str(i)
    return False


RULES = {"I01": i01, "I02": i02, "I03": i03, "I04": i04, "I05": i05, "I06": i06}
