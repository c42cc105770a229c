"""Dialogs and subscriptions: identifiers, creation, life cycle, sequence numbers."""
import re
from rules._util import *
from q import remk

D = "sip_dialog"
LIM = (1 << 31) - 1
GET1 = ("sip_parse::header", "Headers::get", "Headers::get_smol")
GETN = ("Headers::get_all", "Headers::get_all_smol")
CONV = {"to_string", "Into::into", "From::from", "as_str", "SmolStr::new", "to_owned", "ToOwned::to_owned", "SmolStr::as_str", "Clone::clone", "Deref::deref",
        "AsRef::as_ref", "clone", "String::as_str", "into", "borrow", "Borrow::borrow", "String::into_boxed_str", "str::to_string", "Option::cloned", "Iterator::cloned", "Iterator::copied"}


def dq(ctx):
    """the dialog crate with its public tag parser kept symbolic"""
    op = {f.id for f in ctx.prog.fns.values() if strip_generics(f.id) == D + "::extract_tag"}
    ctx.check(len(op) == 1, "anchor:extract_tag", "crates/sip-dialog/src/lib.rs", "extract_tag not found")
    return Q(ctx, only={D}, opaque=op)


def cname(t):
    return str(t.a[0]).split("!")[0] if t.op in ("call", "icall") else ""


def cargs(t):
    return [x for x in t.a if isinstance(x, T)]


def bare(t):
    while cname(t) in CONV and len(cargs(t)) == 1:
        t = cargs(t)[0]
    return t


def msg_hdr(t, get=GET1):
    """(message, name) when t is (the first value of) a header of a message"""
    t = bare(t)
    if t.op == "vf" and t.a[1] == "Some":
        t = t.a[0]
    t = bare(t)
    if cname(t) in get:
        a = cargs(t)
        if len(a) == 2 and cname(a[0]) in ("Request::headers", "Response::headers") and a[1].op == "str":
            return cargs(a[0])[0], a[1].a[0].lower()
    return None


def tag_of(t):
    """(message, name) when t is the tag of a message's header"""
    t = bare(t)
    if t.op == "vf" and t.a[1] == "Some" and cname(t.a[0]) == D + "::extract_tag":
        return msg_hdr(cargs(t.a[0])[0])
    return None


def sources(q, t):
    """what a value is computed from: headers of messages, fields of arguments, arguments"""
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        h = msg_hdr(x) or msg_hdr(x, GETN)
        if h:
            out.add(("hdr",) + h)
            continue
        if x.op == "field":
            path, y = [], x
            while y.op in ("field", "vf"):
                path.append(y.a[1] if y.op == "field" else y.a[1] + "." + y.a[2])
                y = y.a[0]
            if y.op == "arg":
                out.add(("fld", y, ".".join(path[::-1])))
                continue
        if x.op == "arg":
            out.add(("arg", x))
            continue
        if x.op == "closure":
            st += cargs(x)
            continue
        if x.op == "phi":
            st += list(q.e.phi_inputs(x))
        for y in x.a:
            for z in (y if isinstance(y, tuple) else (y,)):
                for w in (z if isinstance(z, tuple) else (z,)):
                    if isinstance(w, T):
                        st.append(w)
    return out


def orientation(q, t, name):
    """(message, reversed?) for every way values of the header get into the list t"""
    out, seen, st = set(), set(), [(t, False)]
    while st:
        x, p = st.pop()
        if (x, p) in seen:
            continue
        seen.add((x, p))
        h = msg_hdr(x, GETN) or msg_hdr(x)
        if h:
            out.add((h, p))
            continue
        n = x.a[0].split("!")[0].split("#")[0] if x.op in ("call", "icall", "post") else ""
        if n in ("slice::reverse", "Vec::reverse", "Iterator::rev", "DoubleEndedIterator::rev", "Iterator::rev"):
            p = not p
        a = [z for y in x.a for z in (y if isinstance(y, tuple) else (y,)) if isinstance(z, T)]
        if n == "Vec::insert" and x.op == "post" and len(a) == 3:
            st += [(a[0], p), (a[2], not p)]
            continue
        if n == "VecDeque::push_front" and x.op == "post" and len(a) == 2:
            st += [(a[0], p), (a[1], not p)]
            continue
        if x.op == "phi":
            a += list(q.e.phi_inputs(x))
        st += [(y, p) for y in a]
    return out


THIN = {"Vec::" + k for k in ("dedup", "dedup_by", "dedup_by_key", "retain", "retain_mut", "truncate", "pop", "remove", "drain", "swap_remove", "split_off", "clear")}


def thinned(q, t):
    """how the list t of parsed URIs can lack one of the values it is built from: an operation that takes entries out, or a round of the loop
    that builds it which leaves it as it is although its value has been parsed"""
    uri = lambda v: any(cname(x) == "SipUri::parse" for x in deep_subterms(q, v))
    bad = set()
    for x in deep_subterms(q, t):
        if x.op in ("post", "ipost") and x.a[0] in THIN and uri(x.a[2 if x.op == "post" else 3]):
            bad.add(x.a[0])
        if x.op != "phi":
            continue
        es = q.e.phi_edges(x) or []
        if not any(v.op == "post" and v.a[0] in ("Vec::push", "Vec::insert", "VecDeque::push_back", "VecDeque::push_front") and cargs(v)[0] is x and uri(v.a[-1]) for v, _ in es):
            continue
        for v, fs in es:
            def unusable(h):
                was = {(cname(y.a[0]), (y.a[1] in ("None", "Err")) == b) for y, b in q.full(h) if y.op == "is"}
                return ("SipUri::parse", False) not in was and any(failed for n, failed in was if n in ("SipUri::parse", "str::find", "str::split_once", "Iterator::next", "str::strip_prefix", "str::strip_suffix"))
            if v is x and not holds(q, fs, unusable):
                bad.add("a round of the loop without push")
    return bad


def id_parts(q, t, names, R):
    t = q.resolve(t, R)
    if t.op == "adt":
        return [q.resolve(proj(t, ("f", n)), R) for n in names]
    return None


def expect_id(ctx, q, t, R, spec, key, w, what):
    """t is an identifier whose fields are exactly the header and tags in spec: [(field, kind, message, header)]"""
    ps = id_parts(q, t, [s[0] for s in spec], R)
    if ps is None:
        ctx.violation(key + ":shape", w, f"{what}: the identifier is not built from the message: {show(t, 0, 4)[:120]}")
        return
    for (f, kind, m, h), v in zip(spec, ps):
        got = tag_of(v) if kind == "tag" else msg_hdr(v)
        ctx.check(got == (m, h), f"{key}:{f}", w, f"{what}: {f} is {show(v, 0, 5)[:120]}, not the {'tag of the ' if kind == 'tag' else ''}{h} header")


def somes(q, fn, cfg=()):
    """(payload, facts) of every Some / Ok / plain value a function can return"""
    s = q.under(fn, list(cfg)) if cfg else q.e.summary(fn)
    for o in s.outcomes:
        for v, fs in leaves(q, o.ret, o.facts):
            if v.op == "adt" and v.a[1] in ("None", "Err"):
                continue
            g = q.close(fs)
            if g is None:
                continue
            if v.op == "adt" and v.a[1] in ("Some", "Ok"):
                for x, f in leaves(q, v.a[3], fs):
                    yield x, f
            else:
                yield v, fs


def eqf(g, a, b, want=True):
    for t, bl in g:
        if bl == want and t.op == "bin" and t.a[0] == "Eq":
            x, y = bare(t.a[1]), bare(t.a[2])
            if (a(x) and b(y)) or (a(y) and b(x)):
                return True
        if bl != want and t.op == "bin" and t.a[0] == "Ne":
            x, y = bare(t.a[1]), bare(t.a[2])
            if (a(x) and b(y)) or (a(y) and b(x)):
                return True
    return False


DIALOG_ID = ("call_id", "local_tag", "remote_tag")


def did(m, local, remote):
    return [("call_id", "hdr", m, "call-id"), ("local_tag", "tag", m, local), ("remote_tag", "tag", m, remote)]


def d01(ctx):
    q = dq(ctx)
    a1, a2 = mk("arg", 1), mk("arg", 2)
    ctx.rule("Every dialog or subscription identifier taken from a message has the Call-ID header as Call-ID and the From and To tags on the side the role prescribes; a dialog created for a UAC has the From tag, "
             "one for a UAS the To tag of the response as local tag; a request matches a dialog exactly when its Call-ID equals the dialog's, its From tag the remote and its To tag the local tag; lookups use that "
             "identifier, and dialogs and subscriptions are stored under their own identifiers.")
    n = 0
    for sfx, l, r in (("DialogId::from_request", "from", "to"), ("DialogId::from_response_uac", "from", "to"), ("DialogId::from_response_uas", "to", "from")):
        for fn in q.fns(f"{D}::{sfx}", D):
            for v, fs in somes(q, fn):
                n += 1
                expect_id(ctx, q, v, q.full(fs), did(a1, l, r), sfx, where(fn), sfx)
    sid = [("call_id", "hdr", a1, "call-id"), ("from_tag", "tag", a1, "from"), ("to_tag", "tag", a1, "to"), ("event", "hdr", a1, "event")]
    for sfx, m in (("SubscriptionId::from_request", a1), ("SubscriptionId::from_request_response", a2)):
        for fn in q.fns(f"{D}::{sfx}", D):
            for v, fs in somes(q, fn):
                n += 1
                expect_id(ctx, q, v, q.full(fs), sid[:2] + [("to_tag", "tag", m, "to")] + sid[3:], sfx, where(fn), sfx)
    for sfx, l, r in (("Dialog::new_uac", "from", "to"), ("Dialog::new_uas", "to", "from")):
        for fn in q.fns(f"{D}::{sfx}", D):
            for v, fs in somes(q, fn):
                n += 1
                expect_id(ctx, q, proj(v, ("f", "id")), q.full(fs), did(a2, l, r), sfx, where(fn), sfx)
    for sfx in ("Subscription::new_notifier", "Subscription::new_subscriber"):
        for fn in q.fns(f"{D}::{sfx}", D):
            for v, fs in somes(q, fn):
                n += 1
                expect_id(ctx, q, proj(v, ("f", "id")), q.full(fs), sid[:2] + [("to_tag", "tag", a2, "to")] + sid[3:], sfx, where(fn), sfx)
    # constructors keep the order of their arguments
    for sfx, names in (("DialogId::new", DIALOG_ID), ("DialogId::unchecked_new", DIALOG_ID), ("SubscriptionId::new", ("call_id", "from_tag", "to_tag", "event")), ("SubscriptionId::unchecked_new", ("call_id", "from_tag", "to_tag", "event"))):
        for fn in q.fns(f"{D}::{sfx}", D):
            for v, fs in somes(q, fn):
                n += 1
                for i, f in enumerate(names):
                    ctx.check(bare(q.resolve(proj(v, ("f", f)), q.full(fs))) is mk("arg", i + 1), f"{sfx}:{f}", where(fn), f"{sfx} does not store its argument {i + 1} as {f}")
    # matching
    me = F(a1, "id")
    conds = [(lambda x: msg_hdr(x) == (a2, "call-id"), F(me, "call_id")), (lambda x: tag_of(x) == (a2, "from"), F(me, "remote_tag")), (lambda x: tag_of(x) == (a2, "to"), F(me, "local_tag"))]
    for fn in q.fns(f"{D}::Dialog::matches_request", D):
        for o in q.e.summary(fn).outcomes:
            for v, fs in leaves(q, o.ret, o.facts):
                for val in (True, False):
                    g = q.assume(fs, [(v, val)])
                    g = q.close(g) if g is not None else None
                    if g is None:
                        continue
                    n += 1
                    if val:
                        for (p, f), nm in zip(conds, ("Call-ID", "From tag", "To tag")):
                            ctx.check(holds(q, g, lambda h: eqf(h, p, lambda y: y is bare(f))), f"match:{nm}", where(fn), f"a request can match a dialog although its {nm} was not found equal to the dialog's")
                    else:
                        ctx.check(holds(q, g, lambda h: any(eqf(h, p, lambda y: y is bare(f), False) for p, f in conds) or lacks_id(h, a2)), "match:refused", where(fn), "a request of the dialog can be refused as not matching")
    # the manager
    for sfx, key in (("DialogManager::get", None), ("DialogManager::find_by_request", did(a2, "to", "from")), ("DialogManager::remove", None), ("SubscriptionManager::get", None), ("SubscriptionManager::remove", None)):
        op = "remove" if sfx.endswith("remove") else "get"
        for fn in q.fns(f"{D}::{sfx}", D):
            tes = [te for te in tree(q, fn, lambda ev: ev.kind == "call" and ev.name.split("!")[0] == "DashMap::" + op)]
            ctx.check(bool(tes), f"{sfx}:map", where(fn), f"{sfx} does not consult the map by identifier")
            for te in tes:
                n += 1
                R = q.full(te.facts)
                if key:
                    expect_id(ctx, q, te.args[1], R, key, sfx, te.where(), sfx)
                else:
                    ctx.check(bare(q.resolve(te.args[1], R)) is a2, f"{sfx}:key", te.where(), f"{sfx} does not use the identifier it was given")
            for v, fs in somes(q, fn):
                ctx.check(any(cname(x) == "DashMap::" + op for x in deep_subterms(q, v)), f"{sfx}:value", where(fn), f"{sfx} returns something other than what the map holds under the identifier")
    for sfx, obj in (("DialogManager::insert", a2), ("SubscriptionManager::insert", a2), ("InMemoryDialogStore as sip_dialog::storage::DialogStore>::put::{closure#0}", F(a1, "1"))):
        fn = q.one(sfx, D)
        if fn is None:
            continue
        ins = [te for te in tree(q, fn, lambda ev: ev.kind == "call" and ev.name.split("!")[0] == "DashMap::insert") if bare(te.args[2]) is obj]
        ctx.check(bool(ins), f"stored:{sfx}", where(fn), "the dialog or subscription given is not stored")
        for te in ins:
            n += 1
            ctx.check(bare(q.resolve(te.args[1], q.full(te.facts))) is F(obj, "id"), f"stored-under:{sfx}", te.where(), "a dialog or subscription is stored under an identifier other than its own")
    ctx.count("identifiers analysed", n)
    ctx.floor("identifiers analysed", 24)


def lacks_id(g, m):
    """facts say the message has no complete dialog identifier"""
    for t, b in g:
        if t.op == "is" and (t.a[1] == "None") == b and (msg_hdr(t.a[0]) or (cname(t.a[0]) == D + "::extract_tag" and msg_hdr(cargs(t.a[0])[0]))):
            h = msg_hdr(t.a[0]) or msg_hdr(cargs(t.a[0])[0])
            if h[0] is m and h[1] in ("call-id", "from", "to"):
                return True
    return False


def known_in(g, t, val=True):
    return any(x is t and b == val for x, b in g)


def between(q, g, t, lo, hi):
    P = q.P
    return P.le(mk("int", lo), t, g) and P.le(t, mk("int", hi), g)


def code_class(q, g, resp, lo, hi):
    c = simp_call("Response::code", (resp,))
    return any(between(q, g, x, lo, hi) for x in {c} | {y for t, _ in g for y in subterms(t) if cname(y) == "Response::code" and cargs(y)[0] is resp})


def is_cseq(q, t, m):
    t = bare(t)
    return t.op == "vf" and t.a[1] == "Ok" and cname(t.a[0]).startswith("parse:u32") and sources(q, t) == {("hdr", m, "cseq")}


def is_contact(q, t, m):
    t = bare(t)
    return t.op == "vf" and t.a[1] == "Ok" and cname(t.a[0]) == "SipUri::parse" and sources(q, t) == {("hdr", m, "contact")}


def no_contact(q, g, m):
    """facts say the message has no usable Contact"""
    for t, b in g:
        if t.op == "is" and (t.a[1] in ("None", "Err")) == b and sources(q, t.a[0]) == {("hdr", m, "contact")}:
            return True
    return False


def d02(ctx):
    q = dq(ctx)
    a1, a2, a3, a4 = (mk("arg", i) for i in range(1, 5))
    ctx.rule("Every dialog built by the UAC or UAS constructor: state Early only from a 1xx, Confirmed only from a 2xx response and none from any other; remote target from the peer's Contact (the response's for a UAC, the request's for a UAS), "
             "or the remote URI when there is none; route set only from the Record-Route values of that same message, reversed for a UAC, in order for a UAS; the request's CSeq number (1 to 2^31-1) as local (UAC) or remote (UAS) number and 0 as the other; "
             "the URIs given; secure exactly when one of them is sips; the role; and a session interval of 90 to 86400 seconds from the response, or none.")
    n = 0
    for sfx, uac in (("Dialog::new_uac", True), ("Dialog::new_uas", False)):
        fn = q.one(f"{D}::{sfx}", D)
        if fn is None:
            continue
        w = where(fn)
        peer = a2 if uac else a1
        for d, fs in somes(q, fn):
            n += 1
            for v, f in leaves(q, proj(d, ("f", "state")), fs):
                ok = v.op == "adt" and (v.a[1] == "Early" and holds(q, f, lambda g: code_class(q, g, a2, 100, 199)) or v.a[1] == "Confirmed" and holds(q, f, lambda g: code_class(q, g, a2, 200, 299)))
                ctx.check(ok, f"{sfx}:state", w, f"a dialog gets state {show(v, 0, 3)} without the response being of the matching class")
            for v, f in leaves(q, proj(d, ("f", "remote_target")), fs):
                if bare(v) is a4:
                    ctx.check(holds(q, f, lambda g: no_contact(q, g, peer)), f"{sfx}:target-default", w, "the remote URI is used as remote target although the peer's Contact may be present")
                else:
                    ctx.check(is_contact(q, v, peer), f"{sfx}:target", w, f"the remote target is {show(v, 0, 5)[:120]}, not the peer's Contact")
            o = orientation(q, proj(d, ("f", "route_set")), "record-route")
            ctx.check(o == {((peer, "record-route"), uac)}, f"{sfx}:route-set", w, f"the route set is not the {'reversed ' if uac else ''}Record-Route list of the {'response' if uac else 'request'}: {[(h[1], 'reversed' if r else 'in order') for h, r in o]}")
            thin = thinned(q, proj(d, ("f", "route_set")))
            ctx.check(not thin, f"{sfx}:route-set-thinned", w, f"the route set can lack a Record-Route value ({', '.join(sorted(thin))})")
            mine, other = ("local_cseq", "remote_cseq") if uac else ("remote_cseq", "local_cseq")
            for v, f in leaves(q, proj(d, ("f", mine)), fs):
                ctx.check(is_cseq(q, v, a1), f"{sfx}:{mine}", w, f"{mine} is {show(v, 0, 4)[:100]}, not the number of the request's CSeq")
                ctx.check(holds(q, f, lambda g: between(q, g, v, 1, LIM)), f"{sfx}:{mine}-range", w, f"{mine} is not known to be between 1 and 2^31-1")
            for v, f in leaves(q, proj(d, ("f", other)), fs):
                ctx.check(v.op == "int" and v.a[0] == 0, f"{sfx}:{other}", w, f"{other} of a new dialog is {show(v, 0, 4)[:100]}, not 0")
            for name, want in (("local_uri", a3), ("remote_uri", a4)):
                ctx.check(all(bare(v) is want for v, _ in leaves(q, proj(d, ("f", name)), fs)), f"{sfx}:{name}", w, f"{name} is not the one given")
            ctx.check(all(v.op == "bool" and v.a[0] == uac for v, _ in leaves(q, proj(d, ("f", "is_uac")), fs)), f"{sfx}:role", w, "the dialog is created with the wrong role")
            ctx.check(all(v.op == "adt" and v.a[1] == "None" for v, _ in leaves(q, proj(d, ("f", "last_ack_cseq")), fs)), f"{sfx}:ack", w, "a new dialog already has an acknowledged CSeq")
            sips = [simp_call("SipUri::is_sips", (u,)) for u in (a3, a4)]
            for v, f in leaves(q, proj(d, ("f", "secure")), fs):
                for val in (True, False):
                    g = q.assume(f, [(v, val)])
                    g = q.close(g) if g is not None else None
                    if g is None:
                        continue
                    if val:
                        ctx.check(holds(q, g, lambda h: any(q.e.known(h, s) is True for s in sips)), f"{sfx}:secure", w, "a dialog is marked secure although neither URI is sips")
                    else:
                        ctx.check(holds(q, g, lambda h: all(q.e.known(h, s) is False for s in sips)), f"{sfx}:insecure", w, "a dialog is not marked secure although one of its URIs may be sips")
            interval(ctx, q, proj(d, ("f", "session_expires")), fs, a2, sfx, w)
            for v, f in leaves(q, proj(d, ("f", "refresher")), fs):
                ctx.check(v.op == "adt" and v.a[1] == "None" or sources(q, v) == {("hdr", a2, "session-expires")}, f"{sfx}:refresher", w, "the refresher is not the one of the response's Session-Expires")
    ctx.count("dialogs analysed", n)
    ctx.floor("dialogs analysed", 2)


def interval(ctx, q, t, fs, m, key, w):
    for v, f in leaves(q, t, fs):
        if v.op == "adt" and v.a[1] == "None":
            ctx.ok()
            continue
        ctx.check(sources(q, v) == {("hdr", m, "session-expires")}, key + ":session-source", w, f"the session interval is {show(v, 0, 4)[:100]}, not the one of the response's Session-Expires")
        s = as_seconds(v.a[3] if v.op == "adt" and v.a[1] == "Some" else proj(v, ("v", "Some", "0")))
        ctx.check(holds(q, f, lambda g: between(q, q.full(g), q.resolve(s, q.full(g)), 90, 86400)), key + ":session-range", w, "a session interval is stored that may be below 90 or above 86400 seconds")


def as_seconds(d):
    return simp_call("Duration::as_secs", (d,))


def mutators(q, ty):
    """public functions that take the type by mutable reference as first argument"""
    return [f for f in q.p.fns.values() if f.crate == D and f.reach and not f.derived and f.argc and str(f.lty(1)).replace(" ", "") == "&mut" + ty]


def finals(q, fn, field):
    """(value of the field when the function returns, facts, returned value)"""
    for o in q.e.summary(fn).outcomes:
        d = o.mem.get(("A", 1), mk("arg", 1))
        for r, rf in leaves(q, o.ret, o.facts):
            for v, fs in leaves(q, proj(d, ("f", field)), rf, heads=False):
                g = q.close(fs)
                if g is not None and q.possible(g):
                    yield q.resolve(v, q.full(g)) if v.op == "phi" else v, g, r


def variants_all(q, ty):
    return enum_variants(q, ty)


def failed(r):
    return r.op == "adt" and r.a[1] == "Err"


def is_state(g, t, v, q):
    return q.e.known(g, is_(t, v)) is True


FIXED = ("id", "local_uri", "remote_uri", "secure", "is_uac")


def d03(ctx):
    q = dq(ctx)
    a1, a2 = mk("arg", 1), mk("arg", 2)
    ctx.rule("Over every public operation that changes a dialog: its identifier, URIs, secure flag and role never change; its state stays, becomes Terminated, or becomes Confirmed out of Early; a 2xx response always confirms an early dialog and no other response changes the state; "
             "the route set changes only when a 2xx confirms an early dialog, to the reversed Record-Route list of that response; the remote target changes only to the Contact of the message being processed, and does whenever that Contact is usable and the message is accepted; "
             "the session interval stays between 90 and 86400 seconds. A terminated subscription stays terminated. Clean-up removes exactly the terminated ones.")
    ms = mutators(q, "sip_dialog::Dialog")
    n = 0
    for fn in ms:
        w, nm = where(fn), strip_generics(fn.id).split("::")[-1]
        msg = [i for i in range(2, fn.argc + 1) if str(fn.lty(i)).replace(" ", "") in ("&sip_core::msg::Request", "&sip_core::msg::Response")]
        m = mk("arg", msg[0]) if msg else None
        resp = bool(msg) and str(fn.lty(msg[0])).endswith("Response")
        ctx.count("operations that change a dialog")
        old = F(a1, "state")
        for f in FIXED:
            for v, g, r in finals(q, fn, f):
                n += 1
                ctx.check(v is F(a1, f), f"{nm}:{f}", w, f"{nm} changes the dialog's {f}")
        for v, g, r in finals(q, fn, "state"):
            n += 1
            if v is old:
                if nm == "terminate":
                    ctx.check(holds(q, g, lambda h: is_state(h, old, "Terminated", q)), f"{nm}:noop", w, "terminate can leave the dialog as it was")
                if resp or nm == "confirm":
                    ctx.check(holds(q, g, lambda h: q.e.known(h, is_(old, "Early")) is False or any(is_state(h, old, x, q) for x in ("Confirmed", "Terminated")) or resp and not_2xx(q, h, m)), f"{nm}:unconfirmed", w,
                              "an early dialog can stay early although it is to be confirmed (2xx response)")
            elif v.op == "adt" and v.a[1] == "Terminated":
                ctx.check(nm == "terminate", f"{nm}:terminates", w, f"{nm} terminates the dialog")
            elif v.op == "adt" and v.a[1] == "Confirmed":
                ctx.check(holds(q, g, lambda h: is_state(h, old, "Early", q)), f"{nm}:confirms", w, f"{nm} can confirm a dialog that is not early (a terminated one would come back to life)")
                if msg:
                    ctx.check(resp and holds(q, g, lambda h: code_class(q, h, m, 200, 299)), f"{nm}:confirms-2xx", w, f"{nm} confirms a dialog without a 2xx response")
            else:
                ctx.violation(f"{nm}:state", w, f"{nm} can set the state to {show(v, 0, 4)[:80]}")
        for v, g, r in finals(q, fn, "route_set"):
            n += 1
            if v is F(a1, "route_set"):
                ctx.ok()
                continue
            if empty(v) and not_empty_of(q, g, v):
                continue
            ok = resp and holds(q, g, lambda h: is_state(h, old, "Early", q) and code_class(q, h, m, 200, 299))
            ctx.check(ok, f"{nm}:route-set", w, f"{nm} changes the route set although no 2xx response confirms an early dialog")
            if resp:
                ctx.check(orientation(q, v, "record-route") == {((m, "record-route"), True)}, f"{nm}:route-order", w, "the new route set is not the reversed Record-Route list of the response")
                thin = thinned(q, v)
                ctx.check(not thin, f"{nm}:route-set-thinned", w, f"the new route set can lack a Record-Route value ({', '.join(sorted(thin))})")
        for v, g, r in finals(q, fn, "remote_target"):
            n += 1
            if v is F(a1, "remote_target"):
                if m is not None and not failed(r):
                    ctx.check(holds(q, g, lambda h: no_contact(q, h, m)), f"{nm}:target-kept", w, f"{nm} can ignore the Contact of an accepted message")
            else:
                ctx.check(m is not None and is_contact(q, v, m) and not failed(r), f"{nm}:target", w, f"{nm} sets the remote target to {show(v, 0, 4)[:80]}" + (" although it refuses the message" if failed(r) else ""))
        for v, g, r in finals(q, fn, "session_expires"):
            n += 1
            if v is F(a1, "session_expires"):
                ctx.ok()
                continue
            s = as_seconds(v.a[3] if v.op == "adt" and v.a[1] == "Some" else proj(v, ("v", "Some", "0")))
            none = v.op == "adt" and v.a[1] == "None"
            ctx.check(none or holds(q, g, lambda h: between(q, q.full(h), q.resolve(s, q.full(h)), 90, 86400) or session_header(q, q.resolve(s, q.full(h)), m)), f"{nm}:interval", w, f"{nm} can store a session interval below 90 or above 86400 seconds")
            if m is not None:
                ctx.check(resp and not none and sources(q, v) == {("hdr", m, "session-expires")}, f"{nm}:interval-source", w, f"{nm} sets the session interval to something other than the response's Session-Expires")
    ctx.count("field changes analysed", n)
    ctx.floor("operations that change a dialog", 6)
    for fn in mutators(q, "sip_dialog::Subscription"):
        w, nm = where(fn), strip_generics(fn.id).split("::")[-1]
        ctx.count("operations that change a subscription")
        old = F(a1, "state")
        for f in ("id", "local_uri", "remote_uri"):
            for v, g, r in finals(q, fn, f):
                ctx.check(v is F(a1, f), f"subscription:{nm}:{f}", w, f"{nm} changes the subscription's {f}")
        for v, g, r in finals(q, fn, "state"):
            if v is old:
                if nm == "update_state":
                    ctx.check(holds(q, g, lambda h: is_state(h, old, "Terminated", q) or eqf(h, lambda x: x is old, lambda y: y is a2)), "subscription:update-ignored", w, "update_state can ignore the new state of a live subscription")
            else:
                ctx.check(v.op == "adt" and v.a[1] == "Terminated" or holds(q, g, lambda h: q.e.known(h, is_(old, "Terminated")) is False or any(is_state(h, old, x, q) for x in ("Active", "Pending"))
                          or eqf(h, lambda x: x is old, lambda y: y.op == "adt" and y.a[1] == "Terminated", False)), f"subscription:{nm}:revive", w, f"{nm} can bring a terminated subscription back to life")
    ctx.floor("operations that change a subscription", 3)
    cleanup(ctx, q)


def empty(v):
    return cname(v) in ("Vec::new", "Default::default", "Vec::with_capacity", "vec::from_elem")


def not_empty_of(q, g, v):
    """facts say the joined value v may have come from is not empty, so it was not v"""
    for t, b in g:
        if t.op == "bin" and t.a[0] in ("Eq", "Le") and not b or t.op == "bin" and t.a[0] == "Lt" and b:
            for x in t.a[1:]:
                if x.op == "len" or cname(x) == "len":
                    y = cargs(x)[0]
                    if y.op == "phi" and any(z is v for z, _ in leaves(q, y)):
                        return True
    return False


def not_2xx(q, g, m):
    c = {y for t, _ in g for y in subterms(t) if cname(y) == "Response::code" and cargs(y)[0] is m}
    return any(q.P.le(x, mk("int", 199), g) or q.P.le(mk("int", 300), x, g) for x in c)


def session_header(q, s, m):
    """the seconds of a parsed Session-Expires, which property N01 keeps within 90 and 86400"""
    return m is not None and s.op == "call" and s.a[0].split("::")[-1] == "delta_seconds" and sources(q, s) == {("hdr", m, "session-expires")}


def cleanup(ctx, q):
    """cleanup_terminated removes the terminated entries and no other"""
    for sfx in ("DialogManager::cleanup_terminated", "SubscriptionManager::cleanup_terminated"):
        fn = q.one(f"{D}::{sfx}", D)
        if fn is None:
            continue
        n = 0
        for te in tree(q, fn, lambda ev: ev.kind == "call" and ev.name.split("!")[0].startswith("DashMap::")):
            op = te.ev.name.split("!")[0].split("::")[1]
            if op == "retain":
                n += 1
                ent = mk("bound", 0), mk("bound", 1)
                for val in (True, False):
                    for f in closure_cases(q, te.args[1], ent, val) or [frozenset()]:
                        k = is_(F(ent[1], "state"), "Terminated")
                        ctx.check(holds(q, f, lambda h: q.e.known(h, k) is (not val) or (not val and eqt(h, F(ent[1], "state"), True)) or (val and eqt(h, F(ent[1], "state"), False))), f"{sfx}:{'keeps' if val else 'drops'}", te.where(),
                                  f"{sfx} {'keeps a terminated entry' if val else 'drops an entry that is not terminated'}")
            elif op == "remove":
                n += 1
                R = q.full(te.facts)
                ctx.check(from_terminated(q, te.args[1], R), f"{sfx}:drops", te.where(), f"{sfx} removes an entry that was not found terminated")
            elif op == "remove_if":
                n += 1
                v = mk("bound", 1)
                cs = closure_cases(q, te.args[2], [mk("bound", 0), v], True)
                term = lambda h: q.e.known(h, is_(F(v, "state"), "Terminated")) is True or eqt(h, F(v, "state"), True)
                ctx.check(cs is not None and all(holds(q, h, term) for h in cs) or from_terminated(q, te.args[1], q.full(te.facts)) and cs is not None, f"{sfx}:drops", te.where(), f"{sfx} removes an entry that was not found terminated")
            elif op in ("clear", "alter_all", "alter", "insert"):
                ctx.violation(f"{sfx}:{op}", te.where(), f"{sfx} uses {op} on the map")
        ctx.check(n > 0, f"{sfx}:none", where(fn), f"{sfx} removes nothing")


def eqt(g, t, want):
    return eqf(g, lambda x: x is t, lambda y: y.op == "adt" and y.a[1] == "Terminated", want)


def from_terminated(q, k, R):
    """the key comes out of a traversal that kept only terminated entries"""
    for x in deep_subterms(q, k):
        if cname(x) == "Iterator::filter":
            clo = cargs(x)[1]
            el = mk("bound", 0)
            cs = closure_cases(q, clo, [el], True)
            if cs and all(any(t.op == "is" and t.a[1] == "Terminated" and b or t.op == "bin" and t.a[0] == "Eq" and b and any(y.op == "adt" and y.a[1] == "Terminated" for y in t.a[1:]) for t, b in f) for f in cs):
                return True
    return any(t.op == "is" and t.a[1] == "Terminated" and b for t, b in R)


def d04(ctx):
    q = dq(ctx)
    a1, a2 = mk("arg", 1), mk("arg", 2)
    ctx.rule("Over every public operation that changes a dialog: the local CSeq number changes only in next_local_cseq, to its successor, which is what that returns; the remote CSeq number changes only when a request is accepted, to the number of its CSeq, "
             "and then this is between 1 and 2^31-1 and, unless it is the first, above the previous one by at most 1000; an accepted request that leaves the number has it as its own CSeq number and is an ACK; a refused request changes nothing. Subscriptions count their local CSeq the same way.")
    n = 0
    for ty in ("sip_dialog::Dialog", "sip_dialog::Subscription"):
        for fn in mutators(q, ty):
            w, nm = where(fn), strip_generics(fn.id).split("::")[-1]
            ctx.count("operations analysed")
            old = F(a1, "local_cseq")
            for v, g, r in finals(q, fn, "local_cseq"):
                n += 1
                if nm == "next_local_cseq":
                    ctx.check(succ(q, g, v, old) and bare(r) is v, f"{ty}:{nm}", w, f"next_local_cseq stores {show(v, 0, 4)[:80]} and returns {show(r, 0, 4)[:80]}, not the successor of the last number")
                else:
                    ctx.check(v is old, f"{ty}:{nm}:local", w, f"{nm} changes the local CSeq number")
            old = F(a1, "remote_cseq")
            msg = [i for i in range(2, fn.argc + 1) if str(fn.lty(i)).replace(" ", "") == "&sip_core::msg::Request"]
            m = mk("arg", msg[0]) if msg else None
            for v, g, r in finals(q, fn, "remote_cseq"):
                n += 1
                if v is old:
                    if m is not None and not failed(r):
                        ctx.check(holds(q, g, lambda h: eqf(h, lambda x: is_cseq(q, x, m), lambda y: y is old)), f"{nm}:ack", w, "a request can be accepted that neither advances the remote CSeq number nor repeats it")
                        ctx.check(holds(q, g, lambda h: ack(h, m, True)), f"{nm}:repeat", w, "a request other than ACK can be accepted with a CSeq number already seen")
                        ctx.check(holds(q, g, lambda h: q.P.le(mk("int", 1), old, q.full(h)) or eqf(h, lambda x: x is old, lambda y: y.op == "int" and y.a[0] == 0, False)), f"{nm}:ack-first", w, "an ACK can be accepted before any request set the CSeq number")
                    continue
                ctx.check(m is not None and is_cseq(q, v, m) and not failed(r), f"{nm}:remote", w, f"{nm} sets the remote CSeq number to {show(v, 0, 4)[:80]}" + (" although it refuses the request" if failed(r) else ""))
                ctx.check(holds(q, g, lambda h: between(q, q.full(h), v, 1, LIM)), f"{nm}:range", w, "a CSeq number outside 1 to 2^31-1 can be accepted")
                ctx.check(holds(q, g, lambda h: first(q, h, old) or q.P.le(old, v, q.full(h), -1) or lt(q, h, old, v)), f"{nm}:order", w, "a request can be accepted whose CSeq number is not above the last one (replay)")
                ctx.check(holds(q, g, lambda h: first(q, h, old) or jump(q, q.full(h), v, old)), f"{nm}:jump", w, "a request can be accepted whose CSeq number jumps by more than 1000")
            if ty.endswith("::Dialog"):
                for f in ("last_ack_cseq", "remote_target", "session_expires", "route_set", "state"):
                    for v, g, r in finals(q, fn, f):
                        n += 1
                        if failed(r):
                            ctx.check(v is F(a1, f), f"{nm}:{f}-on-error", w, f"{nm} changes {f} although it returns an error")
                        if f == "last_ack_cseq" and v is not F(a1, f):
                            ctx.check(m is not None and v.op == "adt" and v.a[1] == "Some" and (is_cseq(q, v.a[3], m) or v.a[3] is old) and holds(q, g, lambda h: ack(h, m, True)), f"{nm}:ack-recorded", w, f"{nm} records an acknowledged CSeq number that is not that of an ACK")
    ctx.count("changes analysed", n)
    ctx.floor("operations analysed", 9)


def succ(q, g, v, old):
    if v.op == "int" and v.a[0] >= 2**32 - 1:
        return q.e.known(g, mk("ovf", "Add", old, mk("int", 1))) is True
    return cname(v) in ("saturating_add", "u32::saturating_add") and cargs(v) == [old, mk("int", 1)] or v is binop("Add", old, mk("int", 1))


def first(q, g, old):
    return q.P.le(old, mk("int", 0), q.full(g)) or q.e.known(g, binop("Eq", old, mk("int", 0))) is True


def jump(q, g, v, old):
    for t, b in g:
        for x in subterms(t):
            if (cname(x) in ("saturating_sub", "u32::saturating_sub", "wrapping_sub", "u32::abs_diff", "abs_diff") and cargs(x) == [v, old]) or x is binop("Sub", v, old):
                if q.P.le(x, mk("int", 1000), g):
                    return True
    return q.P.le(v, old, g, 1000)


def ack(g, m, want):
    """facts say the request's method is ACK (or say it is not)"""
    for t, b in g:
        if t.op == "bin" and t.a[0] == "Eq" and b == want:
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if any(cname(z) == "Request::method" and cargs(z)[0] is m for z in subterms(x)) and (cstr(y) == "ACK" or y.op == "adt" and y.a[1] == "Ack"):
                    return True
        if t.op == "is" and t.a[1] == "Ack" and b == want and any(cname(z) == "Request::method" and cargs(z)[0] is m for z in subterms(t.a[0])):
            return True
    return False


# ------------------------------------------------------------------ D05: caps
def grows(ev):
    return ev.kind == "call" and ev.name in ("DashMap::insert", "DashMap::entry")


def base(t):
    """the argument and fields a map is reached by"""
    p = []
    while True:
        if t.op == "field":
            p.append(str(t.a[1]))
            t = t.a[0]
        elif cname(t) in ("Arc::clone", "Deref::deref", "AsRef::as_ref", "Clone::clone") and len(cargs(t)) == 1:
            t = cargs(t)[0]
        else:
            return t, p[::-1]


def below(q, g, m, lim):
    """facts bound the number of entries of the map before the insertion"""
    for t, b in g:
        for x in subterms(t):
            if cname(x) == "DashMap::len" and same(cargs(x)[0], m) and q.P.le(x, mk("int", lim - 1), g):
                return True
    return False


def unneg(t, b):
    while t.op == "not":
        t, b = t.a[0], not b
    return t, b


def same(a, b):
    return a is b or base(a) == base(b)


def has_key(q, g, m, k):
    for t, b in g:
        u, b = unneg(t, b)
        if cname(u) == "DashMap::contains_key" and same(cargs(u)[0], m) and bare(cargs(u)[1]) is bare(k) and b:
            return True
        if u.op == "is" and cname(u.a[0]) in ("DashMap::get", "DashMap::get_mut") and same(cargs(u.a[0])[0], m) and bare(cargs(u.a[0])[1]) is bare(k) and (u.a[1] == "Some") == b:
            return True
    return False


def early_bounded(q, g, m, d, lim):
    """facts: not early, or fewer than lim other early dialogs of the Call-ID are in the map"""
    if q.e.known(g, is_(F(d, "state"), "Early")) is False:
        return True
    over = lambda z: cname(z) == "DashMap::iter" and same(cargs(z)[0], m)
    for t, b in g:
        for x in subterms(t):
            if x.op in ("call", "icall") and cname(x) == "Iterator::count" and q.P.le(x, mk("int", lim - 1), g):
                f = cargs(x)[0]
                if cname(f) != "Iterator::filter" or not any(over(z) for z in subterms(cargs(f)[0])):
                    continue
                it = mk("bound", 0)
                cs = closure_cases(q, cargs(f)[1], [it], False)
                if cs is not None and all(holds(q, h, lambda h: skipped(q, h, lambda x: x is it, d)) for h in cs):
                    return True
            if x.op == "phi" and q.is_head(q.site(x)) and q.P.le(x, mk("int", lim - 1), g):
                el = lambda y: cname(y).endswith("next") and any(over(z) for z in deep_subterms(q, y))
                ok = n = 0
                for v, h in increments(q, x):
                    n += 1
                    ok += v.op == "int" and v.a[0] >= 0 or v is binop("Add", x, mk("int", 1)) or cname(v).endswith("saturating_add") and cargs(v) == [x, mk("int", 1)] or v is x and holds(q, h, lambda h: skipped(q, h, el, d))
                if n and ok == n:
                    return True
    return False


def increments(q, x):
    """what a loop-carried value is set to, with the facts of each way"""
    st = list(q.e.phi_inputs(x).items())
    while st:
        v, h = st.pop()
        if v.op == "phi" and v is not x and not q.is_head(q.site(v)):
            st += [(y, frozenset(h) | frozenset(k)) for y, k in q.e.phi_inputs(v).items()]
        else:
            yield v, h


def skipped(q, h, el, d):
    """an entry left out of the count is not early, has another Call-ID, or is the dialog itself"""
    from_it = lambda x: any(el(y) for y in subterms(x))
    for t, b in h:
        if t.op == "is" and t.a[1] == "Early" and not b and from_it(t.a[0]):
            return True
        if t.op == "is" and t.a[1] in ("Confirmed", "Terminated") and b and from_it(t.a[0]):
            return True
        if t.op == "bin" and t.a[0] == "Eq":
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if from_it(x) and not b and bare(y) is F(d, "id", "call_id") and "call_id" in show(x, 0, 6):
                    return True
                if from_it(x) and b and bare(y) is F(d, "id"):
                    return True
    return False


CAPS = {"DialogManager": (D + "::Dialog", 10000), "SubscriptionManager": (D + "::Subscription", 10000), "InMemoryDialogStore": (D + "::Dialog", 100000)}


def d05(ctx):
    import guards as gd
    ctx.rule("Every operation that inserts into a table of dialogs or subscriptions does so under facts that the table has fewer entries than the cap or already has the key, and, for an early dialog, that fewer than 100 others "
             "of its Call-ID were counted; in the managers one exclusive guard, taken from a lock that clones share, is held from the check to the insertion. An insertion is skipped only under facts that the cap is reached.")
    q = dq(ctx)
    g = gd.Guards(ctx.prog)
    seen = {}
    n = 0
    for fn in sorted(q.p.fns.values(), key=lambda f: f.id):
        if fn.crate != D or fn.kind != "fn" or not (fn.reach or fn.trait) or fn.argc == 0:
            continue
        body = entry_body(q, fn)
        for te in tree(q, body, grows):
            m = te.args[0]
            b, path = base(m)
            own = fn.lty(1).peel().d or ""
            cap = next((v for k, v in CAPS.items() if own.endswith("::" + k)), None)
            if cap is None or b.op != "arg" or b.a[0] != 1:
                continue
            ty, lim = cap
            mt = map_type(q, own, [x for x in path if not x.isdigit()])
            if mt is None or mt[1] != ty:
                continue
            name = strip_generics(fn.id).split(">::")[-1] if fn.id.startswith("<") else "::".join(strip_generics(fn.id).split("::")[-2:])
            n += 1
            w = te.ev.where()
            k = te.args[1]
            ctx.check(holds(q, te.facts, lambda h: below(q, q.full(h), m, lim) or has_key(q, h, m, k)), f"{own}:{name}:cap", w, f"an entry can be added although the table already has {lim} entries")
            seen.setdefault(own, []).append((fn, body))
            if own.endswith("DialogManager"):
                d = te.args[2] if len(te.args) > 2 else None
                ctx.check(d is not None and holds(q, te.facts, lambda h: early_bounded(q, q.full(h), m, d, 100)), f"{own}:{name}:early", w, "an early dialog can be added although its Call-ID already has 100 early dialogs")
            if own.endswith("Manager"):
                ok, f, line = gd.atomic(g, body, ("map", mt[0], mt[1]))
                ctx.check(ok is True, f"{own}:{name}:atomic", where(f, line), "the check of the cap and the insertion are not made under one exclusive lock: two concurrent insertions can exceed the cap")
                lock_shared(ctx, q, own, f, name)
    for own in CAPS:
        full = [k for k in seen if k.endswith("::" + own)]
        ctx.check(len(full) == 1, f"anchor:{own}", "crates/sip-dialog/src", f"no insertion into the table of {own} found")
        for k in full:
            for fn, body in {id(b): (f, b) for f, b in seen[k]}.values():
                q2, cut, outs = avoiding(q, body, lambda ev: grows(ev) and (base(ev.args[0])[1][-1:] or [""])[0] not in ("by_call_id",))
                lim = CAPS[own][1]
                for o in outs:
                    n += 1
                    w = where(fn, fn.lo)
                    if own == "InMemoryDialogStore" or failed(o.ret):
                        ctx.check(holds(q2, o.facts, lambda h: refusal(q2, h, lim, own)), f"{k}:{strip_generics(fn.id).split('::')[-1]}:refused", w, "an insertion is refused although the table has room or already has the key")
                    else:
                        ctx.violation(f"{k}:{strip_generics(fn.id).split('::')[-1]}:dropped", w, "success is reported without an insertion into the table")
    ctx.count("insertions and refusals analysed", n)
    ctx.floor("insertions and refusals analysed", 6)


def entry_body(q, fn):
    """the code a public function runs: its own, or the body of the future it returns"""
    for c in q.p.children.get(fn.id, ()):
        if c.endswith("{closure#0}") and q.p.fn(c).lty(1).k in ("coroutine", "mutref", "adt") and (fn.isasync or "Future" in fn.lty(0).s or "Future" in str(fn.lty(0))):
            return q.p.fn(c)
    return fn


def map_type(q, own, path):
    a = q.p.adts.get(own)
    if a is None or not path:
        return None
    t = q.p.field_ty(own, None, path[0])
    while t is not None and t.k == "adt" and t.d in ("alloc::rcs::arc::Arc", "alloc::sync::Arc", "alloc::rc::Rc", "alloc::boxed::Box"):
        t = t.a[0]
    return (t.a[0].s, t.a[1].s) if t is not None and t.k == "adt" and t.d == "dashmap::DashMap" else None


def lock_shared(ctx, q, own, f, name):
    """the lock comes from the manager, and a clone of the manager has the same one"""
    ls = [ev for ev in q.e.summary(f).events if ev.kind == "call" and ev.name.endswith(("Mutex::lock", "RwLock::write"))]
    ls = [base(ev.args[0]) for ev in ls]
    ok = any(b.op == "arg" and b.a[0] == 1 and p for b, p in ls)
    ctx.check(ok, f"{own}:{name}:lock", where(f, f.lo), "the lock held is not the manager's own: every caller locks a different one")
    for c in q.p.fns.values():
        if strip_generics(c.id) == f"<{own} as core::clone::Clone>::clone":
            for b, p in ls:
                if b.op == "arg" and p:
                    for o in q.e.summary(c).outcomes:
                        v = proj(o.ret, ("f", p[0]))
                        ctx.check(base(v) == (mk("arg", 1), [p[0]]), f"{own}:clone:{p[0]}", where(c, c.lo), "a clone shares the table but not the lock that guards its cap")


def refusal(q, h, lim, own):
    """the table is full and lacks the key, or its Call-ID has 100 early dialogs"""
    g = q.full(h)
    full = lack = False
    for t, b in g:
        u, b = unneg(t, b)
        if cname(u) == "DashMap::contains_key" and not b:
            lack = True
        if u.op == "is" and cname(u.a[0]) in ("DashMap::get", "DashMap::get_mut") and (u.a[1] == "None") == b:
            lack = True
        for x in subterms(t):
            if cname(x) == "DashMap::len" and q.P.le(mk("int", lim), x, g):
                full = True
            if own == "DialogManager" and (cname(x) == "Iterator::count" or x.op == "phi" and q.is_head(q.site(x))) and q.P.le(mk("int", 100), x, g):
                return True
    return full and lack


# ------------------------------------------------------- D08: the store's index
def d08(ctx):
    ctx.rule("In the in-memory store, a dialog that is put is inserted under its identifier and its identifier is in its Call-ID's index list afterwards, pushed only when the list lacks it; remove takes the dialog out and its "
             "identifier, and only it, out of the list; a list leaves the index only through remove_if on being empty; a listing consists of the stored dialogs for the identifiers in that Call-ID's list.")
    q = dq(ctx)
    ms = {}
    for f in q.p.fns.values():
        m = re.match(r"<sip_dialog::storage::InMemoryDialogStore as .*DialogStore>::(\w+)$", strip_generics(f.id))
        if m:
            ms[m.group(1)] = entry_body(q, f)
    for k in ("put", "remove", "list_by_call_id"):
        if not ctx.check(k in ms, f"anchor:{k}", "crates/sip-dialog/src/storage.rs", f"InMemoryDialogStore::{k} not found"):
            return
    arg = lambda i: F(mk("arg", 1), str(i))

    def on(t, i):
        """t is a reference into the map whose keys are Call-IDs (i=1) or dialog identifiers (i=0) of this store"""
        b, p = base(t)
        mt = map_type(q, "sip_dialog::storage::InMemoryDialogStore", [x for x in p if not x.isdigit()])
        return b is mk("arg", 1) and mt is not None and ("DialogId" in mt[0]) == (i == 0)

    def index_list(t, k):
        """t is the index list of Call-ID k"""
        while t.op == "vf" and t.a[1] == "Some" or cname(t).startswith(("Entry::or", "Ref::value", "RefMut::value", "Deref", "Option::")) or t.op == "iter":
            t = t.a[0] if t.op in ("vf", "iter") else cargs(t)[0]
        return cname(t) in ("DashMap::entry", "DashMap::get_mut", "DashMap::get") and on(cargs(t)[0], 1) and bare(cargs(t)[1]) is k
    n = 0
    # put
    f, d = ms["put"], arg(1)
    did, cid = F(d, "id"), F(d, "id", "call_id")
    w = where(f, f.lo)
    push = lambda ev: ev.kind == "call" and ev.name in ("Vec::push", "Vec::insert", "Vec::extend", "Vec::extend_from_slice", "Vec::append")
    for te in tree(q, f, push):
        n += 1
        ok = index_list(te.args[0], cid) and bare(te.args[-1]) is did
        ctx.check(ok, "put:what", te.ev.where(), "put records something other than the dialog's identifier under its Call-ID")
        ctx.check(holds(q, te.facts, lambda h: listed(q, h, did, index_list, cid) is False), "put:twice", te.ev.where(), "an identifier already in the index list is listed again")
    for te in tree(q, f, lambda ev: ev.kind == "call" and ev.name == "DashMap::insert"):
        n += 1
        if on(te.args[0], 0):
            ctx.check(bare(te.args[1]) is did and bare(te.args[2]) is d, "put:key", te.ev.where(), "the dialog is stored under another identifier")
    q2, cut, outs = avoiding(q, f, push)
    for o in outs:
        n += 1
        ctx.check(holds(q2, o.facts, lambda h: listed(q2, h, did, index_list, cid) is True or refusal(q2, h, 100000, "InMemoryDialogStore")), "put:unlisted", w, "a dialog can be stored without its identifier being in the index list of its Call-ID")
    # remove
    f, i = ms["remove"], arg(1)
    w = where(f, f.lo)
    gone = lambda ev: ev.kind == "call" and ev.name in ("DashMap::remove", "DashMap::remove_if") and on(ev.args[0], 0)
    for te in tree(q, f, gone):
        n += 1
        ctx.check(te.ev.name == "DashMap::remove" and bare(te.args[1]) is i, "remove:which", te.ev.where(), "another dialog is removed")
    q2, cut, outs = avoiding(q, f, gone)
    ctx.check(not outs, "remove:kept", w, "a dialog can stay stored after its removal")
    unlist = lambda ev: ev.kind == "call" and ev.name in ("Vec::retain", "Vec::retain_mut", "Vec::remove", "Vec::swap_remove")

    def place(t):
        """the search of the Call-ID's list for the identifier, when t is one"""
        if cname(t) in ("Iterator::position", "Iterator::rposition") and index_list(iter_base(cargs(t)[0]), F(i, "call_id")):
            el = mk("bound", 0)
            cs = closure_cases(q, cargs(t)[1], [el], True)
            return cs is not None and all(holds(q, h, lambda h: eqf(h, lambda x: bare(x) is el, lambda y: bare(y) is i, True)) for h in cs)
        return False
    for te in tree(q, f, unlist):
        n += 1
        ctx.check(index_list(te.args[0], F(i, "call_id")), "remove:list", te.ev.where(), "the identifier is taken out of another Call-ID's list")
        if te.ev.name in ("Vec::remove", "Vec::swap_remove"):
            at = te.args[1]
            ctx.check(at.op == "vf" and at.a[1] == "Some" and place(at.a[0]), "remove:which-listed", te.ev.where(), "removal takes another identifier out of the index list")
            continue
        el = mk("bound", 0)
        for keep in (True, False):
            cs = closure_cases(q, te.args[1], [el], keep)
            ctx.check(cs is not None and all(holds(q, h, lambda h: eqf(h, lambda x: bare(x) is el, lambda y: bare(y) is i, not keep)) for h in cs), f"remove:retain-{keep}", te.ev.where(), "removal keeps the identifier in the index list, or drops another one")
    q2, cut, outs = avoiding(q, f, unlist)
    for o in outs:
        n += 1
        ctx.check(cut > 0 and holds(q2, o.facts, lambda h: any(t.op == "is" and (index_list(t.a[0], F(i, "call_id")) or place(t.a[0])) and (t.a[1] == "None") == b for t, b in q2.full(h))), "remove:still-listed", w, "an identifier can stay in the index after its dialog is removed")
    for te in tree(q, f, lambda ev: ev.kind == "call" and ev.name.startswith("DashMap::remove") and on(ev.args[0], 1)):
        n += 1
        ok = te.ev.name == "DashMap::remove_if"
        if ok:
            v = mk("bound", 1)
            cs = closure_cases(q, te.args[2], [mk("bound", 0), v], True)
            ok = cs is not None and all(any(b and cname(t).endswith("is_empty") and bare(cargs(t)[0]) is v or t.op == "bin" and t.a[0] in ("Eq",) and b and "len" in cname(t.a[1]) for t, b in h) for h in cs)
        ctx.check(ok, "remove:index-race", te.ev.where(), "the index list of a Call-ID is dropped without checking, under its own lock, that it is empty: dialogs put meanwhile are no longer listed")
    # listing
    f = ms["list_by_call_id"]
    for o in q.e.summary(f).outcomes:
        for v, h in leaves(q, o.ret, o.facts, heads=False):
            n += 1
            xs = list(deep_subterms(q, v))
            cut = {cname(x) for x in xs} & {"Iterator::" + k for k in ("take", "skip", "step_by", "filter", "nth", "take_while", "skip_while", "last", "next_back", "map_while", "find")} | {cname(x) for x in xs} & {"slice::first", "slice::last", "slice::get", "Vec::truncate", "Vec::pop"}
            ctx.check(not cut, "list:partial", where(f, f.lo), f"a listing leaves dialogs out ({', '.join(sorted(cut))})")
            clo = [z for x in xs if x.op == "closure" for te in tree(q, q.p.fn(x.a[0]), lambda ev: ev.kind == "call" and ev.name == "DashMap::get") for z in [te.args[0]] if q.p.fn(x.a[0]) is not None]
            from_index = any(cname(x) == "DashMap::get" and on(cargs(x)[0], 1) and bare(cargs(x)[1]) is arg(1) for x in xs)
            none = any(t.op == "is" and index_list(t.a[0], arg(1)) and (t.a[1] == "None") == b for t, b in q.full(h))
            ctx.check(from_index or none, "list:source", where(f, f.lo), "a listing is not taken from the index list of the Call-ID asked for")
            ctx.check(none or bool(clo) or any(cname(x) == "DashMap::get" and on(cargs(x)[0], 0) for x in xs), "list:stored", where(f, f.lo), "a listing does not consist of the stored dialogs")
    ctx.count("events and outcomes analysed", n)
    ctx.floor("events and outcomes analysed", 8)


def listed(q, h, did, index_list, cid):
    """True / False when facts say the identifier is / is not in the Call-ID's list"""
    for t, b in q.full(h):
        t, b = unneg(t, b)
        if cname(t).endswith("contains") and len(cargs(t)) == 2 and bare(cargs(t)[1]) is did and index_list(cargs(t)[0], cid):
            return b
        if cname(t) == "Iterator::any" and index_list(iter_base(cargs(t)[0]), cid):
            el = mk("bound", 0)
            cs = closure_cases(q, cargs(t)[1], [el], True)
            if cs is not None and all(eqf(x, lambda x: bare(x) is el, lambda y: bare(y) is did) for x in cs):
                return b
        if cname(t) == "Iterator::all" and index_list(iter_base(cargs(t)[0]), cid):
            el = mk("bound", 0)
            cs = closure_cases(q, cargs(t)[1], [el], False)
            if cs is not None and all(eqf(x, lambda x: bare(x) is el, lambda y: bare(y) is did) for x in cs):
                return not b
    return None


# ------------------------------------------------------------- D06: PRACK
PV = D + "::prack_validator::"
PEND = PV + "PendingReliable"
FINDERS = ("Iterator::find", "Iterator::position", "Iterator::rfind", "Iterator::rposition")


def found(q, facts, E):
    """the facts together with what the search that found the list element E says about it, as alternatives"""
    t = E
    if t.op == "idx":
        t = t.a[1]
    if t.op == "vf" and t.a[1] == "Some" and cname(t.a[0]) in FINDERS:
        cs = closure_cases(q, cargs(t.a[0])[1], [E], True)
        if cs:
            out = []
            for c in cs:
                h = frozenset(facts)
                for u, b in c:
                    h = q.e.add_fact(h, u, b) if h is not None else None
                if h is not None:
                    out.append(h)
            return out
    if E.op == "idx":
        # an index found by a counting loop: what was seen of the element at that index
        out = []
        for v, h in leaves(q, E.a[1], facts):
            el = None
            if v.op == "field" and v.a[1] == "0" and v.a[0].op == "vf" and cname(v.a[0].a[0]).endswith("next") and any(cname(x) == "Iterator::enumerate" and iter_base(cargs(x)[0]) is E.a[0] for x in deep_subterms(q, v)):
                el = F(v.a[0], "1")
            out.append(h if el is None else frozenset((replace(t, el, E), b) for t, b in h) | h)
        return out
    return [frozenset(facts)]


def in_list(E, m, k):
    """E is taken out of the entry of map m under key k"""
    return any(cname(x) in ("DashMap::get_mut", "DashMap::get", "DashMap::entry") and same(cargs(x)[0], m) and bare(cargs(x)[1]) is k for x in subterms(E))


def equal(g, a, b):
    return eqf(g, lambda x: x is a or bare(x) is bare(a), lambda y: y is b or bare(y) is bare(b))


def late(q, fn, E, R):
    """whether the element was acknowledged already is looked at after marking it: what was accepted then had not been, and a refusal of the
    response named says that it had"""
    was = lambda h: q.e.known(q.full(h), F(E, "pracked"))
    for o in q.e.summary(fn).outcomes:
        if not failed(o.ret):
            if not holds(q, o.facts, lambda h: was(h) is False):
                return False
        elif not holds(q, o.facts, lambda h: was(h) is True or not all(equal(q.full(h), F(E, f), F(R, f)) for f in ("rseq", "cseq", "method"))):
            return False
    return True


def d06(ctx):
    ctx.rule("validate_prack succeeds only through marking, as acknowledged, an element of that dialog's list under facts that its RSeq, CSeq number and method equal those of the parsed RAck header and that it was not acknowledged; it returns that RAck. "
             "Nothing else marks or unmarks an element. Registration appends exactly the given numbers, unacknowledged, to the dialog's list, which then has at most ten elements; clean-up drops only acknowledged elements or ones older than 300 s, "
             "remove_pracked only an acknowledged one with that RSeq. RSeq numbers start at a random value from 1 to 2^31-1 and grow by one.")
    op = {f.id for f in ctx.prog.fns.values() if strip_generics(f.id) == PV + "RAck::parse"}
    ctx.check(len(op) == 1, "anchor:RAck::parse", "crates/sip-dialog/src/prack_validator.rs", "RAck::parse not found")
    q = Q(ctx, only={D}, opaque=op)
    A = lambda i: mk("arg", i)
    pend = F(A(1), "pending")
    fns = {strip_generics(f.id).rsplit("::", 1)[-1]: f for f in q.p.fns.values() if strip_generics(f.id).startswith(PV + "PrackValidator::") and f.kind == "fn" and f.reach}
    for k in ("validate_prack", "register_reliable_provisional", "remove_dialog"):
        if not ctx.check(k in fns, f"anchor:{k}", "crates/sip-dialog/src/prack_validator.rs", f"PrackValidator::{k} not found"):
            return
    n = 0
    isrt = lambda t: cname(t).endswith("RAck::parse")

    def rack_of(t):
        """t is the RAck parsed from the request's header"""
        return t.op == "vf" and t.a[1] == "Ok" and isrt(t.a[0]) and msg_hdr(cargs(t.a[0])[0]) == (A(3), "rack")
    mark = lambda ev: ev.kind == "wr" and ev.name == PEND
    for nm, fn in sorted(fns.items()):
        for te in tree(q, fn, mark):
            n += 1
            fld, val = te.ev.extra[0], te.args[0]
            w = te.ev.where()
            if not ctx.check(nm == "validate_prack" and fld == "pracked" and val.op == "bool" and val.a[0], f"mark:{nm}:{fld}", w, f"{nm} changes {fld} of a registered provisional"):
                continue
            E = te.args[1]
            E = E.a[0] if E.op == "field" and E.a[1] == "pracked" else E
            ctx.check(in_list(E, pend, A(2)), "mark:dialog", w, "a provisional of another dialog is marked as acknowledged")
            racks = [x for t, b in q.full(te.facts) for x in subterms(t) if rack_of(x)]
            if not ctx.check(bool(racks), "mark:rack", w, "a provisional is marked as acknowledged without a parsed RAck header"):
                continue
            R = racks[0]
            for f in ("rseq", "cseq", "method"):
                ctx.check(all(holds(q, h, lambda h: equal(q.full(h), F(E, f), F(R, f))) for h in found(q, te.facts, E)), f"mark:{f}", w, f"a PRACK can be accepted for a provisional with another {f}")
            fresh = lambda h: q.e.known(q.full(h), F(E, "pracked")) is False
            ctx.check(all(holds(q, h, fresh) for h in found(q, te.facts, E)) or late(q, fn, E, R), "mark:twice", w, "a PRACK can be accepted for a provisional already acknowledged")
    fn = fns["validate_prack"]
    q2, cut, outs = avoiding(q, fn, mark)
    ctx.check(cut > 0, "anchor:mark", where(fn, fn.lo), "validate_prack never marks a provisional as acknowledged")
    for o in outs:
        n += 1
        ctx.check(failed(o.ret), "accept:unmarked", where(fn, fn.lo), "a PRACK can be accepted without marking the provisional as acknowledged")
    for o in q.e.summary(fn).outcomes:
        if not failed(o.ret):
            n += 1
            ctx.check(o.ret.op == "adt" and o.ret.a[1] == "Ok" and rack_of(o.ret.a[3]), "accept:value", where(fn, fn.lo), "the value returned for an accepted PRACK is not its RAck")
    # registration
    lists = lambda ev: ev.kind == "call" and ev.name.startswith(("Vec::", "VecDeque::")) and ev.args and any(cname(x) in ("DashMap::get_mut", "DashMap::entry") and same(cargs(x)[0], pend) for x in deep_subterms(q, ev.args[0]))
    GROW = {"Vec::push", "VecDeque::push_back", "Vec::insert", "Vec::extend"}
    FREE = {"Vec::len", "Vec::is_empty", "Vec::iter", "Vec::iter_mut", "Vec::first", "Vec::get", "Vec::get_mut", "Vec::deref", "Vec::deref_mut"}
    for nm, fn in sorted(fns.items()):
        for te in tree(q, fn, lambda ev: ev.kind == "call" and ev.name.startswith(("Vec::", "VecDeque::", "DashMap::"))):
            ev, w = te.ev, te.ev.where()
            if ev.name.startswith("DashMap::remove") or ev.name in ("DashMap::clear", "DashMap::retain", "DashMap::insert", "DashMap::alter"):
                if same(te.args[0], pend):
                    n += 1
                    ctx.check(nm == "remove_dialog" and ev.name == "DashMap::remove" and bare(te.args[1]) is A(2), f"drop:{nm}", w, f"{nm} drops the provisionals of a dialog")
                continue
            m = next((x for x in deep_subterms(q, te.args[0]) if cname(x) in ("DashMap::get_mut", "DashMap::entry") and same(cargs(x)[0], pend)), None) if te.args else None
            if m is None or ev.name in FREE:
                continue
            n += 1
            ctx.check(bare(cargs(m)[1]) is A(2), f"list:{nm}", w, f"{nm} works on another dialog's provisionals")
            if ev.name in GROW:
                v = te.args[-1]
                ok = nm == "register_reliable_provisional" and v.op == "adt" and all(proj(v, ("f", f)) is A(i) for f, i in (("rseq", 3), ("cseq", 4), ("method", 5), ("code", 6))) and proj(v, ("f", "pracked")) is mk("bool", False)
                ctx.check(ok, f"register:{nm}", w, "what is registered is not the given provisional, unacknowledged")
                ctx.check(holds(q, te.facts, lambda h: all(room(q, q.full(g), x) for x, g in leaves(q, te.args[0], h, heads=False))), "register:cap", w, "a dialog can get more than ten provisionals")
            elif ev.name in ("Vec::retain", "Vec::retain_mut"):
                el = mk("bound", 0)
                cs = closure_cases(q, te.args[1], [el], False)
                ok = cs is not None and all(holds(q, h, lambda h: q.e.known(q.full(h), F(el, "pracked")) is True and (nm != "remove_pracked" or equal(q.full(h), F(el, "rseq"), A(3))) or nm != "remove_pracked" and aged(q, q.full(h), el)) for h in cs)
                ctx.check(ok, f"retain:{nm}", w, f"{nm} can drop a provisional that still awaits its PRACK")
            else:
                ctx.check(nm == "register_reliable_provisional" and (ev.name == "Vec::drain" and len(te.args) == 2 and te.args[1].op == "adt" and proj(te.args[1], ("f", "start")) is mk("int", 0) or ev.name in ("Vec::remove", "VecDeque::pop_front") and (len(te.args) < 2 or te.args[1] is mk("int", 0))),
                          f"list-op:{nm}:{ev.name}", w, f"{nm} drops provisionals other than the oldest ({ev.name})")
    fn = fns["register_reliable_provisional"]
    q2, cut, outs = avoiding(q, fn, lambda ev: ev.kind == "call" and ev.name in GROW and any(same(cargs(x)[0], pend) for x in deep_subterms(q, ev.args[0]) if cname(x) in ("DashMap::get_mut", "DashMap::entry")))
    ctx.check(cut > 0 and not outs, "register:skipped", where(fn, fn.lo), "a reliable provisional can go unregistered")
    n += rseq_numbers(ctx, q)
    ctx.count("changes and outcomes analysed", n)
    ctx.floor("changes and outcomes analysed", 10)


def room(q, g, x):
    """the list has fewer than ten elements, or is what remains after dropping all but nine"""
    if q.P.le(call("len", x), mk("int", 9), g):
        return True
    if x.op == "post" and x.a[0].split("#")[0] == "Vec::drain":
        a = [z for y in x.a for z in (y if isinstance(y, tuple) else (y,)) if isinstance(z, T)]
        l, r = a[0], a[1]
        if r.op == "adt" and proj(r, ("f", "start")) is mk("int", 0):
            return q.P.le(binop("Sub", call("len", l), mk("int", 9)), proj(r, ("f", "end")), g) or proj(r, ("f", "end")) in (binop("Sub", binop("Add", call("len", l), mk("int", 1)), mk("int", 10)), binop("Sub", call("len", l), mk("int", 9)))
    return False


def aged(q, g, el):
    """facts say the element is older than 300 s"""
    for t, b in g:
        if t.op == "bin" and t.a[0] in ("Le", "Lt"):
            old, lim = (t.a[2], t.a[1]) if b and t.a[0] == "Lt" or b else (t.a[1], t.a[2])
            strict = (t.a[0] == "Lt") == b
            if cname(lim) == "Duration::from_secs" and cargs(lim)[0] is mk("int", 300) and any(x is F(el, "created_at") for x in subterms(old)) and strict:
                return True
    return False


def rseq_numbers(ctx, q):
    fn = q.one("RSeqManager::next_rseq", D)
    n = 0
    seq = F(mk("arg", 1), "sequences")
    w = where(fn, fn.lo)
    new = old = 0
    for te in tree(q, fn, lambda ev: ev.kind == "write" or ev.kind == "call" and ev.name.startswith(("Entry::or", "VacantEntry::insert", "DashMap::insert", "OccupiedEntry::insert"))):
        ev = te.ev
        if ev.kind == "write" or ev.name == "OccupiedEntry::insert":
            o, v = (te.args[1], te.args[2]) if ev.kind == "write" else (next((x for x in subterms(te.args[-1]) if cname(x).startswith("OccupiedEntry::get")), te.args[0]), te.args[-1])
            if o.op in ("int", "none"):
                continue
            n += 1
            old += 1
            ctx.check(succ(q, te.facts, v, o), "rseq:next", ev.where(), f"the next RSeq number is {show(v, 0, 3)[:80]}, not the successor of the last")
            continue
        v = te.args[-1]
        vs = [(v, te.facts)]
        if v.op == "closure" or v.op == "fn":
            g = q.p.fn(v.a[0])
            vs = [(x, h) for o in q.e.summary(g).outcomes for x, h in leaves(q, o.ret, o.facts)] if g is not None else []
        ctx.check(bool(vs), "rseq:first-shape", ev.where(), "how the first RSeq number is made could not be determined")
        for x, h in vs:
            n += 1
            new += 1
            ctx.check(between(q, q.full(h), x, 1, LIM), "rseq:first-range", ev.where(), "the first RSeq number of a dialog can lie outside 1 to 2^31-1")
            ctx.check(any("Rng" in cname(y) or "random" in cname(y).lower() for y in subterms(x)), "rseq:first-random", ev.where(), "the first RSeq number of a dialog is not random")
    ctx.check(new > 0 and old > 0, "anchor:rseq", w, "next_rseq neither starts nor advances the sequence of a dialog")
    for o in q.e.summary(fn).outcomes:
        for x, h in leaves(q, o.ret, o.facts):
            ctx.check(any(same(y, seq) for y in deep_subterms(q, x)) or x.op == "call" and succ(q, h, x, cargs(x)[0]) or any("Rng" in cname(y) for y in deep_subterms(q, x)), "rseq:value", w, "the number returned is not the one recorded")
    return n


# ---------------------------------------------------- D07: session timers
STM = D + "::session_timer_manager::"


def d07(ctx):
    ctx.rule("Over all outcomes: validate_session_expires accepts the interval itself, only at or above the minimum (90 s when none is given), and refuses it with that minimum only below it; negotiate_session_expires refuses only requests below the larger minimum, with it, and otherwise "
             "returns the larger of preference and minimum when that is below the request, else the request; the refresher is the UAS side exactly when the parameter says so. Every start of a timer stops the dialog's old one first and inserts only below 10000 timers; "
             "the task announces a refresh only for the refresher, sleeps half and half or the whole interval, then announces expiry and removes only its own entry.")
    q = Q(ctx, only={D})
    A = lambda i: mk("arg", i)
    one = lambda n: q.one("session_timer_manager::" + n, D)
    n = 0
    # validate
    fn = one("validate_session_expires")
    w = where(fn, fn.lo)
    for cfg, ms in ((("Some"), [mk("vf", A(2), "Some", "0")]), (("None"), [q_min(q)])):
        s = q.under(fn, [(is_(A(2), cfg), True)])
        for o in s.outcomes:
            for r, g in leaves(q, o.ret, o.facts):
                n += 1
                if failed(r):
                    for v, g in leaves(q, r.a[3], g):
                        ctx.check(isin(v, ms) and below_min(q, g, A(1), v), f"validate:{cfg}:err", w, "an interval is refused although it meets the minimum, or with another minimum")
                else:
                    ctx.check(r.op == "adt" and r.a[3] is A(1), f"validate:{cfg}:value", w, "the interval accepted is not the one given")
                    ctx.check(holds(q, g, lambda h: any(at_least(q, h, A(1), m) for m in ms)), f"validate:{cfg}:min", w, "an interval below the minimum can be accepted")
    # negotiate
    fn = one("negotiate_session_expires")
    w = where(fn, fn.lo)
    req, loc, rem, pref = A(1), A(2), mk("vf", A(3), "Some", "0"), mk("vf", A(4), "Some", "0")
    for c3 in ("Some", "None"):
        for c4 in ("Some", "None"):
            s = q.under(fn, [(is_(A(3), c3), True), (is_(A(4), c4), True)])
            key = f"negotiate:{c3}:{c4}"
            vs = [req, loc] + ([rem] if c3 == "Some" else []) + ([pref] if c4 == "Some" else [])
            for ranks in orders(len(vs)):
                rk = dict(zip(vs, ranks))
                cs = Cases(q, lambda t: {rk[t]} if t in rk else {t.a[1] == (c3 if t.a[0] is A(3) else c4)} if t.op == "is" and t.a[0] in (A(3), A(4)) else None)
                low = max(rk[loc], rk.get(rem, 0))
                want = ("Err", low) if rk[req] < low else ("Ok", min(rk[req], max(rk[pref], low)) if c4 == "Some" else rk[req])
                m = 0
                for o in s.outcomes:
                    if not cs.feasible(o.facts):
                        continue
                    for r, g in leaves(q, o.ret, o.facts):
                        if not cs.feasible(g):
                            continue
                        m += 1
                        n += 1
                        got = (r.a[1], cs.val(r.a[3])) if r.op == "adt" else (show(r, 0, 2)[:40], None)
                        ctx.check(got == (want[0], {want[1]}), f"{key}:{'refused' if want[0] == 'Err' else 'accepted'}", w,
                                  "a request below the larger minimum is not refused with that minimum" if want[0] == "Err" else "an acceptable request is not answered with the larger of preference and minimum or, if that is not shorter, the requested interval")
                ctx.check(m > 0, key + ":covered", w, "no outcome for some order of the intervals")
    # refresher
    fn = one("determine_refresher_role")
    w = where(fn, fn.lo)
    p = mk("vf", A(1), "Some", "0")
    s = q.e.summary(fn)
    for who in (None, "uas", "other"):
        for uac in (True, False):
            def env(t):
                if t is A(2):
                    return {uac}
                if t.op == "is" and t.a[0] is A(1):
                    return {(t.a[1] == "None") == (who is None)}
                if t.op == "bin" and t.a[0] == "Eq" or t.op == "call" and t.a[0] == "eq_ignore_ascii_case":
                    for x, y in (t.a[-2:], t.a[:-3:-1]):
                        if y.op == "str" and strip_case(x) is p:
                            if y.a[0].lower() != "uas":
                                return {True, False} if who == "other" else {False}
                            return {False} if who == "other" else {True} if t.op == "call" or x is not p else {True, False}
                return None
            cs = Cases(q, env)
            for o in s.outcomes:
                if cs.feasible(o.facts):
                    for v, g in leaves(q, o.ret, o.facts):
                        if cs.feasible(g):
                            n += 1
                            ctx.check(cs.val(v) == {uac != (who == "uas")}, f"refresher:{who or 'absent'}", w, "the side that refreshes is not the one the parameter names (case-insensitively; the UAC by default)")
    # timers
    st = one("SessionTimerManager::start_timer")
    tasks = F(A(1), "tasks")
    rm = lambda ev: ev.kind == "call" and ev.name == "DashMap::remove"
    ins = lambda ev: ev.kind == "call" and ev.name in ("DashMap::insert", "DashMap::entry")
    removes = [te for te in tree(q, st, rm) if same(te.args[0], tasks) and bare(te.args[1]) is A(2)]
    inserts = [te for te in tree(q, st, ins) if same(te.args[0], tasks)]
    w = where(st, st.lo)
    ctx.check(len(inserts) > 0, "anchor:track", w, "start_timer tracks no timer")
    q2, cut, outs = avoiding(q, st, rm)
    ctx.check(cut > 0 and not outs, "start:stop-old", w, "a timer can be started without stopping the dialog's earlier one")
    for te in inserts:
        n += 1
        ctx.check(bare(te.args[1]) is A(2), "start:key", te.ev.where(), "the timer is tracked under another dialog")
        ctx.check(any(may_follow(q, r, te) for r in removes) and not any(may_follow(q, te, r) for r in removes), "start:order", te.ev.where(), "the earlier timer is stopped after the new one is tracked")
        ctx.check(holds(q, te.facts, lambda h: below(q, q.full(h), tasks, 10000)), "start:cap", te.ev.where(), "a timer can be started although 10000 are tracked")
    for te in removes:
        n += 1
        x = te.ret
    spawn = [te for te in tree(q, st, lambda ev: ev.kind == "call" and ev.name.endswith(("spawn::spawn", "task::spawn", "spawn")))]
    ctx.check(len(spawn) == 1, "anchor:spawn", w, "start_timer does not run one task")
    q2, cut, outs = avoiding(q, st, lambda ev: ev.kind == "call" and ev.name.endswith("spawn"))
    for o in outs:
        n += 1
        ctx.check(holds(q2, o.facts, lambda h: any(cname(x) == "DashMap::len" and q2.P.le(mk("int", 10000), x, q2.full(h)) for t, b in q2.full(h) for x in subterms(t))), "start:not-run", w, "a timer can be tracked without a task that ends it, or silently not started")
    # stopping signals the task
    stop = one("SessionTimerManager::stop_timer")
    sig = lambda ev: ev.kind == "call" and ev.name.endswith(("Sender::try_send", "Sender::send", "Sender::blocking_send", "JoinHandle::abort", "AbortHandle::abort", "CancellationToken::cancel"))
    q2, cut, outs = avoiding(q, stop, sig)
    for o in outs:
        n += 1
        ctx.check(cut > 0 and holds(q2, o.facts, lambda h: any(t.op == "is" and (t.a[1] == "None") == b and (cname(t.a[0]) == "DashMap::remove" or t.a[0].op == "field" and t.a[0].a[1] == "cancel_tx") for t, b in q2.full(h))), "stop:silent", where(stop, stop.lo), "a stopped timer's task is not told to end")
    for te in spawn:
        n += 1
        co = te.args[0]
        body = q.p.fn(co.a[0]) if co.op in ("closure", "coroutine") else None
        if not ctx.check(body is not None, "anchor:task", te.ev.where(), "the task of a timer could not be found"):
            continue
        n += timer_task(ctx, q, te, co, body)
    ctx.count("outcomes and events analysed", n)
    ctx.floor("outcomes and events analysed", 24)


def timer_task(ctx, q, te, co, body):
    """the task of a started timer, over the values it captures"""
    n = 0
    sub = q.e.substituter({1: co, 2: mk("carg", "task", 2)}, (("task", body.id),))
    se, refresher, did = mk("arg", 3), mk("arg", 4), mk("arg", 2)
    half = call("Div::div", se, mk("int", 2))
    sl = send = rem = 0
    for t in tree(q, body, lambda ev: ev.kind == "call" and (ev.name.endswith(("sleep", "Sender::send", "sleep_until", "Sender::try_send", "timeout")) or ev.name.startswith("DashMap::"))):
        n += 1
        w = t.ev.where()
        g0 = frozenset()
        for u, b in t.facts:
            g0 = q.e.add_fact(g0, sub(settle(q, u)), b) if g0 is not None else None
        if g0 is None:
            continue
        args = [sub(settle(q, x)) for x in t.args]
        nm = t.ev.name
        if nm.endswith("sleep"):
            sl += 1
            for v, g in leaves(q, settle(q, t.args[0])):
                v, g = norm_dur(sub(settle(q, v))), frozenset((sub(settle(q, u)), b) for u, b in g)
                known = lambda want: holds(q, frozenset(g) | g0, lambda h: q.e.known(q.full(h), refresher) is want)
                if v is se:
                    ctx.check(known(False), "task:whole", w, "the refresher's timer waits the whole interval")
                else:
                    ctx.check(v in (half, call("Sub::sub", se, half)) and known(True), "task:half", w, f"the timer waits {show(v, 0, 3)[:60]} instead of half the interval (refresher) or the whole (otherwise)")
        elif "Sender" in nm:
            send += 1
            v = args[-1]
            if not ctx.check(v.op == "adt" and v.a[0].endswith("SessionTimerEvent") and all(sub_is(q, x, did, g0) for x in v.a[3:]), "task:event", w, "the timer announces something other than its dialog"):
                continue
            if v.a[1] == "RefreshNeeded":
                ctx.check(holds(q, g0, lambda h: q.e.known(q.full(h), refresher) is True), "task:refresh", w, "a refresh is announced although the other side refreshes")
        elif nm in ("DashMap::remove", "DashMap::remove_if", "DashMap::clear", "DashMap::retain"):
            rem += 1
            ok = nm == "DashMap::remove_if" and sub_is(q, args[1], did, g0)
            if ok:
                v = mk("bound", 1)
                cs = closure_cases(q, args[2], [mk("bound", 0), v], True)
                ok = cs is not None and all(any(b and u.op == "bin" and u.a[0] == "Eq" and any(x is F(v, f) or bare(x) is F(v, f) for x in u.a[1:] for f in ("expiry_time", "id", "generation", "cancel_tx")) for u, b in q.full(h)) or any(b and cname(u).endswith(("eq", "same_channel")) and any(y is v for y in subterms(u)) for u, b in h) for h in cs)
            ctx.check(ok, "task:untrack", w, "an expired timer stops tracking a timer that replaced it")
    for nm, extra in (("SessionExpired", None), ("RefreshNeeded", False)):
        q2, cut, outs = avoiding(q, body, lambda ev: ev.kind == "call" and "Sender" in ev.name and ev.args[-1].op == "adt" and ev.args[-1].a[1] == nm)
        for o in outs:
            n += 1
            ok = cut > 0 and holds(q2, o.facts, lambda h: cancelled(q2, h) or extra is not None and any(b is extra and sub(settle(q2, t)) is refresher for t, b in q2.full(h)))
            ctx.check(ok, f"task:{nm}", where(body, body.lo), f"{nm} can go unannounced although the timer ran its time" + (" and this side refreshes" if extra is not None else ""))
    ctx.check(sl >= 1 and send >= 2 and rem >= 1, "task:parts", where(body, body.lo), "the timer's task does not wait, announce and clean up")
    return n


def cancelled(q, h):
    """facts say a select took the branch of a channel being received from (the timer was stopped)"""
    for t, b in q.full(h):
        if t.op == "is" and b and re.match(r"_\d+$", t.a[1]) and t.a[0].op in ("call", "icall") and "await" in cname(t.a[0]):
            for x in subterms(t.a[0]):
                if x.op == "tuple" and len(x.a) > int(t.a[1][1:]) and cname(x.a[int(t.a[1][1:])]).endswith(("recv", "cancelled")):
                    return True
    return False


def settle(q, t, memo=None):
    """t with every field of a joined value replaced by the value all ways agree on"""
    memo = {} if memo is None else memo
    if t not in memo:
        memo[t] = t
        r = t
        if t.op == "field":
            b = t.a[0]
            while b.op in ("field", "vf"):
                b = b.a[0]
            if b.op == "phi":
                vs = {v for v, _ in leaves(q, t)}
                if len(vs) == 1:
                    r = vs.pop()
        if r is t and t.op not in ("phi",):
            r = remk(t, lambda x: settle(q, x, memo))
        memo[t] = r if r is t else settle(q, r, memo)
    return memo[t]


def sub_is(q, v, want, g):
    return all(bare(x) is want for x, _ in leaves(q, v, g))


def norm_dur(v):
    if cname(v) in ("calculate_refresh_time",):
        return call("Div::div", cargs(v)[0], mk("int", 2))
    if cname(v) in ("saturating_sub", "Duration::saturating_sub", "Sub::sub"):
        return call("Sub::sub", *[norm_dur(x) for x in cargs(v)])
    return v


def q_min(q):
    return call("Duration::from_secs", mk("int", 90))


def orders(n):
    """all orders with ties of n values, as ranks"""
    import itertools
    return sorted({tuple(sorted(set(r)).index(x) + 1 for x in r) for r in itertools.product(range(n), repeat=n)})


def isin(v, ms):
    return any(v is m or secs(v) is not None and secs(v) == secs(m) for m in ms)


def secs(v):
    if cname(v) == "Duration::from_secs" and cargs(v)[0].op == "int":
        return cargs(v)[0].a[0]
    if v.op == "const" and "MIN_SESSION_EXPIRES" in str(v.a[0]):
        return 90
    return None


def at_least(q, g, a, b):
    """a >= b"""
    if a is b or secs(a) is not None and secs(b) is not None and secs(a) >= secs(b):
        return True
    if a.op == "call" and a.a[0] == "max" and any(at_least(q, g, x, b) for x in cargs(a)):
        return True
    if b.op == "call" and b.a[0] == "max" and all(at_least(q, g, a, x) for x in cargs(b)):
        return True
    if q.P.le(b, a, q.full(g)):
        return True
    # a known lower bound of a
    for t, bl in g:
        if t.op == "bin" and t.a[0] in ("Lt", "Le"):
            lo, hi = (t.a[1], t.a[2]) if bl else (t.a[2], t.a[1])
            if hi is a and lo is not a and (lo is b or lo.op == "call" and lo.a[0] == "max" and any(x is b or x.op == "call" and x.a[0] == "max" and b in cargs(x) for x in cargs(lo))):
                return True
    return False


def less(q, g, a, b):
    return lt(q, g, a, b) or q.P.le(a, b, q.full(g), -1)


def below_min(q, g, a, m):
    return holds(q, g, lambda h: less(q, h, a, m))


RULES = {"D01": d01, "D02": d02, "D03": d03, "D04": d04, "D05": d05, "D06": d06, "D07": d07, "D08": d08}
