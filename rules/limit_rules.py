"""Token-bucket rate limiting (sip-ratelimit)."""
from rules._util import *
from rules.identity_rules import conv
from q import remk

CR = "sip_ratelimit"
BUCKET = "sip_ratelimit::TokenBucket"
MAXKEYS = 100000


def val(t):
    """t without conversions, unwrapping and guards around the same value"""
    while True:
        u = conv(t)
        if u.op == "vf" and u.a[1] in ("Some", "Ok") and u.a[0].op in ("call", "icall"):
            u = u.a[0]
        if u is t:
            return t
        t = u


def short(t):
    return t.a[0] if t.op in ("call", "icall") else ""


def cargs(t):
    return t.a[1:] if t.op == "call" else t.a[2:]


def own_bucket(t, limiter, key):
    """t is the write-locked bucket that the limiter's table holds under exactly this key"""
    t = val(t)
    if short(t) not in ("RwLock::write", "Mutex::lock", "RwLock::get_mut"):
        return False
    t = val(cargs(t)[0])
    if short(t).split("::")[-1].startswith("or_"):
        t = val(cargs(t)[0])
    return short(t) in ("DashMap::entry", "DashMap::get", "DashMap::get_mut") and cargs(t)[0] is F(limiter, "buckets") and conv(cargs(t)[1]) is key


def flt(x):
    return mk("float", x)


def one(t):
    return t.op == "float" and str(t.a[0]) in ("1.0", "1", "1f64")


def at_least_one(facts, t):
    for f, b in facts:
        if f.op == "bin" and f.a[0] in ("FGe", "FGt", "FLt", "FLe"):
            op, x, y = f.a[0], f.a[1], f.a[2]
            if x is t and one(y) and ((op in ("FGe", "FGt") and b) or (op == "FLt" and not b)):
                return True
            if y is t and one(x) and ((op in ("FLe", "FLt") and b) or (op == "FGt" and not b)):
                return True
    return False


def swap(t, x, y):
    """t with y for x, evaluated again"""
    memo = {x: y}

    def rec(z):
        r = memo.get(z)
        if r is None:
            r = memo[z] = remk(z, rec)
        return r
    return rec(t)


def states(q, t, facts, lim=64):
    """the values a joined object can have, all its fields of the same run: [(value, facts)]"""
    out, st = [], [(t, frozenset(facts))]
    while st:
        x, fs = st.pop()
        ph = None
        for s in subterms(x):
            if s.op == "phi" and q.e.phi_inputs(s) and not any(q.carried(y, s) for y in q.e.phi_inputs(s)):
                ph = s
                break
        if ph is None or len(out) + len(st) > lim:
            out.append((x, fs))
            continue
        for y, gs in q.e.phi_inputs(ph).items():
            st.append((swap(x, ph, y), frozenset((swap(f, ph, y), b) for f, b in fs) | frozenset(gs)))
    for x, fs in out:
        g = q.close(fs)
        if g is not None:
            yield x, g


def verdicts(q, fn, outs=None):
    """(outcome, returned bool, facts) of every run"""
    for o in q.e.summary(fn).outcomes if outs is None else outs:
        for v, fs in leaves(q, o.ret, o.facts):
            g = q.close(fs)
            if g is None:
                continue
            v = q.resolve(v, q.full(g))
            for b in (True, False):
                if v.op == "bool":
                    if v.a[0] == b:
                        yield o, b, g
                    continue
                h = q.e.add_fact(g, v, b)
                h = q.close(h) if h is not None else None
                if h is not None:
                    yield o, b, h


def tokens_after(q, o, g, want):
    """(bucket reference, its old token count, its new token count, facts) for the buckets a run leaves behind"""
    for k, v in o.mem.items():
        if k[0] != "O" or not want(k[1]):
            continue
        for x, fs in states(q, v, g):
            yield k[1], F(k[1], "tokens"), x, fs


def spent(q, fs, t):
    """t is a token count of at least one with one taken off: the count it was taken off"""
    if t.op == "bin" and t.a[0] == "FSub" and one(t.a[2]) and at_least_one(q.full(fs), t.a[1]):
        return t.a[1]
    return None


def no_controls(q, g, key):
    el = mk("bound", 0)
    for f, b in q.full(g):
        if not b and short(f) in ("str::contains", "String::contains") and conv(cargs(f)[0]) is key:
            pat = cargs(f)[1]
            if pat.op == "fn" and pat.a[0].startswith("core::char::") and pat.a[0].endswith("::is_control"):
                return True
            cs = apply_fn(q, pat, [el]) or []
            # whatever the pattern does not match is no control character
            no = [h for fs, v in cs for h in [q.assume(fs, [(v, False)])] if h is not None]
            if no and all(any(not c and t.op == "call" and short(t).endswith("char::is_control") and t.a[1] is el for t, c in h) for h in no):
                return True
    for coll, ways, it in each(q, q.full(g)):
        c = coll.a[1] if short(coll) == "str::chars" else coll
        if conv(c) is key and ways and all(any(not b and f.op == "call" and short(f).endswith("char::is_control") and f.a[1] is it for f, b in a) for a in ways):
            return True
    return False


def l01(ctx):
    q = Q(ctx, only={CR})
    ctx.rule("RateLimiter::check_rate_limit, every run: true only for a key of at most 256 bytes without control characters and either with config.enabled false or leaving the write-locked bucket stored under exactly that key with one token less than a count that was at least 1.0; a run that returns false leaves no bucket a token shorter. check_by_ip asks about the textual form of exactly the given address.")
    fn = q.one("RateLimiter::check_rate_limit", CR)
    if fn is None:
        return
    me, key, w = mk("arg", 1), mk("arg", 2), where(fn)
    en = F(F(me, "config"), "enabled")
    for o, b, g in verdicts(q, fn):
        ctx.count("runs analysed")
        if b:
            ctx.check(q.P.le(simp_call("len", (key,)), mk("int", 256), q.full(g), 0), "keylen", w, "a request is let through under a key that may be longer than 256 bytes")
            ctx.check(no_controls(q, g, key), "keychars", w, "a request is let through under a key that may hold control characters")
            if (en, False) in q.full(g):
                ctx.ok()
                continue
            got = False
            for r, old, x, fs in tokens_after(q, o, g, lambda t: own_bucket(t, me, key)):
                if holds(q, fs, lambda k: (en, False) in k):
                    continue
                got = True
                ctx.check(spent(q, fs, F(x, "tokens")) is not None, "spend", w, "a request is let through on a run that does not take one token from a bucket holding at least one")
            ctx.check(got or holds(q, g, lambda k: (en, False) in k), "bucket", w, "a request is let through although limiting is enabled, without the bucket of its own key under its write lock")
        else:
            for r, old, x, fs in tokens_after(q, o, g, lambda t: True):
                ctx.check(not any(s.op == "bin" and s.a[0] == "FSub" for s in subterms(F(x, "tokens"))), "refused", w, "a refused request takes tokens")
    ctx.floor("runs analysed", 2)
    by = q.one("RateLimiter::check_by_ip", CR)
    if by is not None:
        n = 0
        for te in tree(q, by, lambda ev: ev.kind == "call" and ev.name.endswith("RateLimiter::check_rate_limit")):
            n += 1
            k = conv(te.args[1])
            if k.op == "fmt" and len(k.a[0]) == 1:
                k = conv(k.a[0][0])
            while k.op == "call" and k.a[0] in ("format", "disp") and len(k.a) == 2:
                k = conv(k.a[1])
            ctx.check(te.args[0] is mk("arg", 1) and k is mk("arg", 2), "ip", te.where(), "check_by_ip asks about something other than the given address")
        ctx.check(n == 1, "ipcall", where(by), "check_by_ip does not ask check_rate_limit once")


def roots(q):
    """the crate's public functions and its closures"""
    for f in q.p.by_crate(CR) if hasattr(q.p, "by_crate") else [f for f in q.p.fns.values() if f.crate == CR]:
        if f.reach or "{closure" in f.id:
            yield f


def bare(t):
    """t without numeric casts"""
    while t.op == "call" and (t.a[0].startswith("cast:") or t.a[0] in CASTS) and len(t.a) == 2:
        t = t.a[1]
    return t


CASTS = ("From::from", "Into::into", "f64::from", "u128::from", "u64::from")


def factors(t):
    t = bare(t)
    if t.op == "bin" and t.a[0] in ("Mul", "FMul"):
        return factors(t.a[1]) + factors(t.a[2])
    return [t]


def elapsed_of(t, bucket):
    """(now, or None when it is read by elapsed()) when t is the time since the bucket's last_refill"""
    last = F(bucket, "last_refill")
    if short(t) in ("Instant::duration_since", "Instant::saturating_duration_since", "Sub::sub") and cargs(t)[1] is last and short(cargs(t)[0]) == "Instant::now":
        return True, cargs(t)[0]
    if short(t) == "Instant::elapsed" and cargs(t)[0] is last:
        return True, None
    return False, None


def credit(q, t, bucket, facts):
    """(config, elapsed, now) when t is floor(time since last_refill / refill interval) * tokens per refill"""
    fs = factors(t)
    for i, x in enumerate(fs):
        y = fs[1 - i] if len(fs) == 2 else None
        if y is None or x.op != "bin" or x.a[0] != "Div" or y.op != "field" or y.a[1] != "tokens_per_refill":
            continue
        cfg = y.a[0]
        ms, iv = bare(x.a[1]), bare(x.a[2])
        if short(ms) != "Duration::as_millis" or iv is not F(cfg, "refill_interval_ms"):
            continue
        el = cargs(ms)[0]
        ok, now = elapsed_of(el, bucket)
        if ok and (q.P.le(mk("call", "Duration::from_millis", iv), el, facts, 0) or q.P.le(iv, x.a[1], facts, 0) or q.P.le(iv, ms, facts, 0) or q.P.le(mk("int", 1), x, facts, 0)
                   or holds(q, facts, lambda k: (binop("Eq", x, mk("int", 0)), False) in k or any(b == (f.a[0] == "Le") and f.op == "bin" and short(f.a[1 if b else 2]) == "Duration::from_millis" and cargs(f.a[1 if b else 2])[0] is iv and f.a[2 if b else 1] is el
                                                    for f, b in k if f.op == "bin" and f.a[0] in ("Le", "Lt")))):
            return cfg, el, now
    return None


def capped(q, t, bucket, facts):
    """(config, elapsed, now) when t is the bucket's old count plus a credit, or the burst capacity if that is less"""
    pairs = []
    if short(t) in ("f64::min", "Ord::min", "f64::clamp") and len(cargs(t)) == 2:
        a, b = cargs(t)
        pairs = [(a, b), (b, a)]
    elif t.op == "bin" and t.a[0] == "FAdd":
        for f, b in facts:
            if f.op == "bin" and f.a[0] in ("FLt", "FLe", "FGt", "FGe"):
                lo, hi = (f.a[1], f.a[2]) if (f.a[0] in ("FLt", "FLe")) == b else (f.a[2], f.a[1])
                if lo is t:
                    pairs.append((t, hi))
    for s, cap in pairs:
        c = bare(cap)
        if not (s.op == "bin" and s.a[0] == "FAdd" and c.op == "field" and c.a[1] == "burst_capacity"):
            continue
        old = F(bucket, "tokens")
        for x, y in ((s.a[1], s.a[2]), (s.a[2], s.a[1])):
            if x is old:
                r = credit(q, y, bucket, facts)
                if r is not None and r[0] is c.a[0]:
                    return r
    return None


def l02(ctx):
    q = Q(ctx, only={CR})
    ctx.rule("Every token bucket starts with config.burst_capacity tokens. Whatever a public function of sip-ratelimit (or a closure it hands on) leaves in a bucket: the count is the old one, or min(old + floor(time since last_refill / refill interval) * tokens per refill, burst capacity) on a run where at least one interval has passed, less one spent token at most; last_refill is the moment that credit was computed to when there was one, and untouched otherwise.")
    nnew = 0
    for fn in roots(q):
        if "{closure" in fn.id:
            continue
        for te in tree(q, fn, lambda ev: ev.kind == "new" and ev.name == BUCKET):
            nnew += 1
            # fields in declaration order
            fs = [f["name"] for f in q.e.adt_variants[BUCKET]["variants"][0]["fields"]] if BUCKET in q.e.adt_variants else []
            i = fs.index("tokens") if "tokens" in fs else 0
            c = bare(te.args[i])
            ctx.check(c.op == "field" and c.a[1] == "burst_capacity", "initial", te.where(), "a bucket is created with a count other than the configured burst capacity")
    ctx.count("bucket constructions", nnew)
    ctx.floor("bucket constructions", 1)
    ncred = 0
    for fn in roots(q):
        for o in q.e.summary(fn).outcomes:
            for k, v in o.mem.items():
                if k[0] == "O":
                    r = k[1]
                elif k[0] == "A":
                    r = mk("arg", k[1])
                else:
                    continue
                if not any(s.op == "upd" and s.a[1] in (("f", "tokens"), ("f", "last_refill")) for s in deep_subterms(q, v)):
                    continue
                for x, g in states(q, v, o.facts):
                    ctx.count("bucket states analysed")
                    fs = q.full(g)
                    t, lr = F(x, "tokens"), F(x, "last_refill")
                    b = spent(q, g, t)
                    t = t if b is None else b
                    w = where(fn)
                    old = F(r, "tokens")
                    if t is old:
                        ctx.check(lr is F(r, "last_refill"), "lost", w, "last_refill moves on without the time being credited")
                        continue
                    c = capped(q, t, r, fs)
                    if c is None and bare(t).op == "field" and bare(t).a[1] == "burst_capacity":
                        # the capacity itself, when old + credit is no less
                        for f, bb in fs:
                            if f.op == "bin" and f.a[0] in ("FLt", "FLe", "FGt", "FGe"):
                                lo, hi = (f.a[1], f.a[2]) if (f.a[0] in ("FLt", "FLe")) == bb else (f.a[2], f.a[1])
                                if lo is t and hi.op == "bin" and hi.a[0] == "FAdd":
                                    c = c or capped(q, mk("call", "f64::min", hi, t), r, fs)
                    if not ctx.check(c is not None, "credit", w, "a bucket is left with a count that is neither its old one nor min(old + whole intervals passed * tokens per refill, burst capacity), less one spent token"):
                        continue
                    ncred += 1
                    ctx.check(lr is c[2] if c[2] is not None else short(lr) == "Instant::now", "twice", w, "time is credited without last_refill becoming the moment it was credited to, so it is credited again")
    ctx.count("credits analysed", ncred)
    ctx.floor("bucket states analysed", 4)
    ctx.floor("credits analysed", 2)


def l03(ctx):
    q = Q(ctx, only={CR})
    ctx.rule("Every run of a public function of sip-ratelimit that may add a key to RateLimiter.buckets has found that key there already or fewer than 100000 keys, and the key has at most 256 bytes. A bucket is removed only by retain with a predicate that refuses only buckets whose last_access is longer ago than idle_timeout_secs, or by reset and clear; every check that reaches a bucket sets its last_access to the current time.")
    CH = {"insert", "entry", "try_entry", "insert_or_update", "extend", "alter", "_insert", "_entry"}
    RM = {"remove", "remove_if", "remove_if_mut", "retain", "clear", "drain", "shrink_to"}
    bf = lambda t: t.op == "field" and t.a[1] == "buckets"
    want = lambda ev: ev.kind == "call" and ev.name.startswith("DashMap::") and ev.name.split("::")[-1] in CH | RM and ev.args and bf(conv(ev.args[0]))
    for fn in roots(q):
        for te in tree(q, fn, want):
            op = te.ev.name.split("::")[-1]
            tab = conv(te.args[0])
            if op in CH:
                ctx.count("insertions analysed")
                key = conv(te.args[1])
                room = lambda k: any(short(f) in ("DashMap::contains_key",) and b and conv(cargs(f)[0]) is tab and conv(cargs(f)[1]) is key for f, b in k) \
                    or any(f.op == "is" and f.a[1] == "Some" and b and short(f.a[0]) in ("DashMap::get", "DashMap::get_mut") and conv(cargs(f.a[0])[0]) is tab and conv(cargs(f.a[0])[1]) is key for f, b in k) \
                    or any(short(n) == "DashMap::len" and conv(cargs(n)[0]) is tab and q.P.le(n, mk("int", MAXKEYS), frozenset(k), -1) for f, b in k for n in subterms(f))
                ctx.check(holds(q, q.close(te.facts) or frozenset(), room), "room", te.where(), "a key is added to the table although it may be new and the table full (100000 keys)")
                ctx.check(any(q.P.le(simp_call("len", (z,)), mk("int", 256), q.full(q.close(te.facts) or frozenset()), 0) for z in (key, te.args[1])), "keylen", te.where(), "a key that may be longer than 256 bytes is stored")
            elif op == "remove_if":
                ctx.count("removals analysed")
                v = mk("bound", 1)
                cl = outer(q, te.args[2], fn)
                cs = closure_cases(q, cl, [mk("bound", 0), v], True)
                cfgs = [F(outer(q, tab.a[0], fn), "config")]
                ctx.check(cs is not None and all(holds(q, q.close(f) or frozenset(), lambda k: any(idle(k, v, c) for c in cfgs)) for f in cs), "idle", te.where(), "a bucket is removed although it need not have been idle longer than the configured timeout")
            elif op == "retain":
                ctx.count("removals analysed")
                lim = None
                val_ = mk("bound", 1)
                cs = closure_cases(q, te.args[1], [mk("bound", 0), val_], False)
                if not ctx.check(cs is not None, "retain", te.where(), "cannot tell which buckets the cleanup removes"):
                    continue
                for f in cs:
                    ctx.check(holds(q, q.close(f) or frozenset(), lambda k: idle(k, val_, F(tab.a[0], "config"))), "idle", te.where(), "a bucket is removed although it need not have been idle longer than the configured timeout")
            else:
                ctx.count("removals analysed")
                nm = fn.id.split("::")[-1]
                ctx.check(nm in ("reset", "clear"), "remove", te.where(), "buckets are removed (and with them spent tokens) outside cleanup, reset and clear")
                if nm == "reset":
                    ctx.check(op == "remove" and conv(te.args[1]) is mk("arg", 2), "reset", te.where(), "reset removes more than the named key")
    ctx.floor("insertions analysed", 1)
    ctx.floor("removals analysed", 3)
    fn = q.one("RateLimiter::check_rate_limit", CR)
    if fn is None:
        return
    n = 0
    for o in q.e.summary(fn).outcomes:
        for r, old, x, g in tokens_after(q, o, o.facts, lambda t: own_bucket(t, mk("arg", 1), mk("arg", 2))):
            if x is r or (F(x, "last_access") is F(r, "last_access") and holds(q, g, lambda k: (F(F(mk("arg", 1), "config"), "enabled"), False) in k)):
                continue
            n += 1
            ctx.check(short(F(x, "last_access")) == "Instant::now", "access", where(fn), "a check uses a bucket without marking it as just used")
    ctx.count("bucket uses analysed", n)
    ctx.floor("bucket uses analysed", 2)


def outer(q, t, clo):
    """t, which the closure clo computes, with what the function around it lets it capture"""
    if "{closure" not in clo.id:
        return t
    up = q.p.fn(clo.id.rsplit("::{closure", 1)[0])
    me = mk("arg", 1)
    for ev in q.e.summary(up).events if up is not None else ():
        for a in ev.args:
            for x in deep_subterms(q, a):
                if x.op == "closure" and x.a[0] == clo.id:
                    for i, c in enumerate(x.a[1:]):
                        t = swap(t, F(me, str(i)), c)
                    return t
    return t


def idle(k, bucket, cfg):
    def since(t):
        if short(t) == "Instant::elapsed":
            last = cargs(t)[0]
        elif short(t) in ("Instant::duration_since", "Instant::saturating_duration_since", "Sub::sub") and short(cargs(t)[0]) == "Instant::now":
            last = cargs(t)[1]
        else:
            return False
        return last.op == "field" and last.a[1] == "last_access" and any(s is bucket for s in subterms(last))
    lim = lambda t: short(t) == "Duration::from_secs" and cargs(t)[0] is F(cfg, "idle_timeout_secs")
    for f, b in k:
        if f.op == "bin" and f.a[0] in ("Lt", "Le"):
            lo, hi = (f.a[1], f.a[2]) if b else (f.a[2], f.a[1])
            strict = (f.a[0] == "Lt") == b
            if lim(lo) and since(hi) and strict:
                return True
    return False


def l04(ctx):
    q = Q(ctx, only={CR})
    ctx.rule("Every run of RateLimiter::check_rate_limit that returns true adds one to metrics.allowed_requests, every run that returns false adds one to metrics.blocked_requests, and no run adds twice or to both.")
    fn = q.one("RateLimiter::check_rate_limit", CR)
    if fn is None:
        return
    w = where(fn)
    seen, cuts = [], {"allowed_requests": set(), "blocked_requests": set()}
    for te in tree(q, fn, lambda ev: ev.kind == "call" and ev.name in ("Atomic::fetch_add", "AtomicU64::fetch_add")):
        g = q.close(te.facts)
        names = {x.a[1] for x, fs in leaves(q, te.args[0], te.facts) if x.op == "field" and (g is None or q.close(fs) is not None)}
        if not names & set(cuts):
            continue
        seen.append(te)
        ctx.count("counter updates analysed")
        ctx.check(te.args[1] is mk("int", 1) and all(x.op == "field" and x.a[0] is F(mk("arg", 1), "metrics") for x, fs in leaves(q, te.args[0], te.facts)), "one", te.where(), "a counter is not raised by one, or not this limiter's")
        if len(names) == 1:
            # where it is known which counter is meant: at the update itself, or at the call from check_rate_limit
            cuts[names.pop()].add((te.ev.fn.id, te.ev.bb) if te.ev.args[0].op == "field" else chain(te)[0])
    for name, b in (("allowed_requests", True), ("blocked_requests", False)):
        q2, n, outs = avoiding(q, fn, lambda ev: False, cuts[name])
        f2 = q2.p.fn(fn.id)
        ctx.check(not any(v == b for o, v, g in verdicts(q2, f2, outs)), f"{name}:missed", w, f"a check can answer {str(b).lower()} without counting in {name}")
    for x in seen:
        for y in seen:
            ctx.check(x is y or not may_follow(q, x, y), "twice", y.where(), "one check is counted twice, or both as allowed and as blocked")
    ctx.floor("counter updates analysed", 2)


def l05(ctx):
    q = Q(ctx, only={CR})
    ctx.rule("Every RateLimitConfig that RateLimitConfig::new returns gives back one token per refill, at an interval of at least window_secs*1000/max_requests milliseconds rounded up and never zero: its tokens_per_refill is 1 and its refill_interval_ms is that quotient, or at least one.")
    fn = q.one("RateLimitConfig::new", CR)
    if fn is None:
        return
    n = 0
    for o, v, g in okays(q, fn):
        c = proj(v, ("v", "Ok", "0")) if v.op != "adt" else v.a[3]
        for x, fs in states(q, c, g):
            n += 1
            f = q.full(fs)
            w = where(fn)
            ctx.check(F(x, "tokens_per_refill") is mk("int", 1), "per", w, "a configuration gives back more than one token per refill interval")
            iv = F(x, "refill_interval_ms")
            ctx.check(ceil_div(q, iv, F(x, "window_secs"), F(x, "max_requests")), "rate", w, "tokens come back faster than max_requests per window: the refill interval is not the window divided by max_requests, rounded up")
            ctx.check(F(x, "enabled") is mk("bool", True), "enabled", w, "new returns a disabled limiter")
            ctx.check(q.P.le(mk("int", 1), iv, f, 0) or (binop("Eq", iv, mk("int", 0)), False) in f or nonzero(q, f, iv, F(x, "window_secs"), F(x, "max_requests")), "zero", w, "the refill interval may be zero, and then the bucket never refills")
    ctx.count("configurations analysed", n)
    ctx.floor("configurations analysed", 1)


def okays(q, fn):
    from rules.identity_rules import ok_outcomes
    return ok_outcomes(q, fn)


def is_ms(t, secs):
    t = bare(t)
    return t.op == "bin" and t.a[0] == "Mul" and any(bare(a) is secs and b is mk("int", 1000) for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])))


def ceil_div(q, t, secs, n):
    t = bare(t)
    if short(t).split("::")[-1] == "max" and len(cargs(t)) == 2:
        return any(ceil_div(q, x, secs, n) for x in cargs(t))
    if short(t).split("::")[-1] == "div_ceil":
        return is_ms(cargs(t)[0], secs) and bare(cargs(t)[1]) is n
    if t.op != "bin":
        return False
    over = lambda x: x.op == "bin" and x.a[0] == "Rem" and is_ms(x.a[1], secs) and bare(x.a[2]) is n
    if t.a[0] == "Div" and bare(t.a[2]) is n:
        # (ms + n - 1) / n
        k, rest = 0, []
        todo = [(bare(t.a[1]), 1)]
        while todo:
            x, sg = todo.pop()
            if x.op == "int":
                k += sg * x.a[0]
            elif x.op == "bin" and x.a[0] in ("Add", "Sub"):
                todo += [(bare(x.a[1]), sg), (bare(x.a[2]), sg if x.a[0] == "Add" else -sg)]
            else:
                rest.append((x, sg))
        return k == -1 and len(rest) == 2 and all(sg == 1 for _, sg in rest) and any(is_ms(a[0], secs) and b[0] is n for a, b in (rest, rest[::-1]))
    if t.a[0] == "Add":
        for a, b in ((bare(t.a[1]), bare(t.a[2])), (bare(t.a[2]), bare(t.a[1]))):
            if a.op == "bin" and a.a[0] == "Div" and is_ms(a.a[1], secs) and bare(a.a[2]) is n:
                # ms / n, plus one unless it comes out even
                return all(v_is_over(q, bare(v), f, over) for v, f in leaves(q, b))
    return False


def v_is_over(q, v, facts, over):
    """v is 1 exactly when the division leaves a rest"""
    zero = lambda t: t.op == "bin" and t.a[0] == "Eq" and any(over(bare(x)) for x in t.a[1:]) and any(x is mk("int", 0) for x in t.a[1:])
    if v.op == "not" and zero(v.a[0]):
        return True
    if v.op == "bin" and v.a[0] == "Ne":
        return any(over(bare(x)) for x in v.a[1:]) and any(x is mk("int", 0) for x in v.a[1:])
    some = lambda t: t.op == "bin" and t.a[0] == "Lt" and t.a[1] is mk("int", 0) and over(bare(t.a[2])) or t.op == "bin" and t.a[0] == "Le" and t.a[1] is mk("int", 1) and over(bare(t.a[2]))
    if some(v):
        return True
    rest = {b != zero(t) for t, b in q.full(facts) if zero(t) or some(t)}
    return v.op == "int" and rest == {v.a[0] == 1} and v.a[0] in (0, 1)


def nonzero(q, f, t, secs, n):
    """a rounded-up quotient of something positive"""
    t = bare(t)
    if short(t).split("::")[-1] == "max" and len(cargs(t)) == 2:
        return any(q.P.le(mk("int", 1), x, f, 0) or nonzero(q, f, x, secs, n) for x in cargs(t))
    return ceil_div(q, t, secs, n) and holds(q, f, lambda k: q.P.le(mk("int", 1), secs, frozenset(k), 0) or (binop("Eq", secs, mk("int", 0)), False) in k)


RULES = {"L01": l01, "L02": l02, "L03": l03, "L04": l04, "L05": l05}
