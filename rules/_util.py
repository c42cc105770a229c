"""Shared helpers of behaviour rules: canonical views of terms and facts."""
from term import *
from absint import occurs, replace
from q import Q, rebuild, flat, map_flat, show_flat, tree, cat, chain, may_follow
from ir import strip_generics
from ctx import where


def cstr(t):
    return t.a[0] if t.op == "str" else None


def subterms(t, memo=None):
    memo = memo if memo is not None else set()
    if t in memo:
        return
    memo.add(t)
    yield t
    for x in t.a:
        if isinstance(x, T):
            yield from subterms(x, memo)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield from subterms(y, memo)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield from subterms(z, memo)


CASE = {"str::to_ascii_lowercase", "str::to_lowercase", "str::to_ascii_uppercase", "str::to_uppercase", "str::trim"}


def strip_case(t):
    while t.op == "call" and t.a[0] in CASE:
        t = t.a[1]
    return t


def str_is(facts, t, lit):
    """facts say the string t equals lit, ASCII case and surrounding blanks aside"""
    for f, b in facts:
        if not b:
            continue
        if f.op == "bin" and f.a[0] == "Eq":
            for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                if y.op == "str" and y.a[0].lower() == lit.lower() and strip_case(x) is t:
                    return True
        if f.op == "call" and f.a[0] == "eq_ignore_ascii_case":
            for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                if y.op == "str" and y.a[0].lower() == lit.lower() and strip_case(x) is t:
                    return True
    return False


def eq(facts, a, b):
    if a is b:
        return True
    t = binop("Eq", a, b)
    if t.op == "bool":
        return t.a[0]
    return (t, True) in facts or (t.op == "is" and (t, True) in facts)


def ct_pairs(facts, q=None):
    """pairs of byte strings that a constant-time comparison found equal"""
    for f, b in facts:
        for x in peel_bool(f, b):
            yield x


CT = ("ConstantTimeEq::ct_eq", "constant_time_eq", "verify_slices_are_equal", "fixed_time_eq")


def peel_bool(f, b):
    """ct_eq(..) known to be true, through the usual Choice-to-bool conversions"""
    if f.op == "not":
        yield from peel_bool(f.a[0], not b)
        return
    if f.op == "bin" and f.a[0] == "Eq" and b:
        for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
            if y.op == "int" and y.a[0] == 1 and x.op == "call" and x.a[0] in ("Choice::unwrap_u8", "cast:u8"):
                yield from peel_bool(x.a[1], True)
        return
    if f.op == "bin" and f.a[0] == "Eq" and not b:
        for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
            if y.op == "int" and y.a[0] == 0 and x.op == "call" and x.a[0] in ("Choice::unwrap_u8", "cast:u8"):
                yield from peel_bool(x.a[1], True)
        return
    if not b:
        return
    if f.op == "call" and f.a[0] in ("Into::into", "From::from") and len(f.a) == 2:
        yield from peel_bool(f.a[1], True)
    elif f.op == "call" and (f.a[0] in CT or f.a[0].endswith("::ct_eq")) and len(f.a) == 3:
        yield f.a[1], f.a[2]


def plain_eq_pairs(facts):
    for f, b in facts:
        if b and f.op == "bin" and f.a[0] == "Eq":
            yield f.a[1], f.a[2]


def hdr_get(t):
    """(headers, name) when t reads a header value by name"""
    if t.op == "call" and t.a[0] in ("Headers::get_smol", "Headers::get") and len(t.a) == 3:
        return t.a[1], t.a[2]
    return None


def param_of(t):
    """(header value term, parameter name) for AuthorizationHeader::param(parse_authorization_header(h), name)@Some"""
    if t.op == "vf" and t.a[1] == "Some":
        t = t.a[0]
        if t.op == "call" and t.a[0].endswith("::param") and len(t.a) == 3 and t.a[2].op == "str":
            p = t.a[1]
            if p.op == "vf" and p.a[1] == "Some" and p.a[0].op == "call" and p.a[0].a[0].endswith("parse_authorization_header"):
                return p.a[0].a[1], t.a[2].a[0]
    return None


def ok_true(q, o):
    """facts under which the outcome returns Ok(true); None when it does not"""
    r = o.ret
    while r.op == "adt" and r.a[1] in ("Ready", "Ok") and len(r.a) == 4:
        r = r.a[3]
    if r.op == "adt":
        return None
    f = q.close(o.facts)
    if f is None:
        return None
    if r.op == "bool":
        return f if r.a[0] else None
    return q.e.add_fact(f, r, True)


def enum_variants(q, path):
    a = q.e.adt_variants.get(path)
    return [v["name"] for v in a["variants"]] if a else []


# ------------------------------------------------------------------ header lists of a message under construction
ITERS = {"IntoIterator::into_iter", "slice::iter", "Vec::iter", "Iterator::cloned", "Iterator::copied", "Vec::into_iter", "iter", "Iterator::by_ref"}


def iter_base(t):
    while t.op == "call" and t.a[0] in ITERS and len(t.a) == 2:
        t = t.a[1]
    return t


def next_source(q, t, R):
    """the collection a loop variable runs over: t is Iterator::next(i)@Some.0"""
    if t.op == "vf" and t.a[1] == "Some":
        t = t.a[0]
    if t.op in ("call", "icall") and t.a[0] in ("Iterator::next", "next"):
        it, seen = t.a[-1], set()
        while True:
            if it.op == "phi" and it not in seen:
                seen.add(it)
                ins = [x for x in q.e.phi_inputs(it) if not q.carried(x, it)]
                if not ins:
                    # every way in comes from another state of the same loop
                    ins = [x for x in q.e.phi_inputs(it) if x not in seen and not (x.op in ("post", "ipost") and x.a[2 if x.op == "post" else 3] in seen)]
                if ins:
                    # another state of the same loop comes last
                    it = min(ins, key=lambda x: (x.op == "phi" or x.op in ("post", "ipost"), x.id))
                    continue
            if it.op in ("post", "ipost") and it.a[0] == "Iterator::next" and seen:
                it = it.a[2] if it.op == "post" else it.a[3]
                continue
            return iter_base(q.resolve(it, R))
    return None


ADDH = {"Headers::push", "Headers::append", "Headers::add"}


def hlist(q, t, R):
    """headers pushed into a collection under the facts: [(name flat, value term, loop source or None)], or None when the value is
    not understood or depends on more than the facts say"""
    l = hentries(q, t, R)
    if l is None or any(m for _, _, _, m in l):
        return None
    return [x[:3] for x in l]


def hentries(q, t, R, stop=None, depth=0):
    """headers pushed after `stop` (or from an empty collection): [(name flat, value term, loop source or None, only on some paths)]"""
    t = q.resolve(t, R)
    if t is stop:
        return []
    if depth > 120:
        return None
    if t.op == "post" and t.a[1] == 0:
        base = hentries(q, t.a[2], R, stop, depth + 1)
        if base is None:
            return None
        if t.a[0] in ADDH:
            return base + [(flat(q.resolve(t.a[3], R)), q.resolve(t.a[4], R), None, False)]
        return base if t.a[0] in ("Headers::reserve",) else None
    if t.op == "call" and t.a[0] in ("Headers::new", "Headers::with_capacity", "Default::default"):
        return []
    if t.op == "phi":
        ins = q.e.phi_inputs(t)
        outs = []
        for x in ins:
            if q.carried(x, t) or not Rcons(q, ins[x], R):
                continue
            y = hentries(q, x, R, stop, depth + 1)
            if y is None:
                return None
            if y not in outs:
                outs.append(y)
        if not outs:
            return None
        out = merge_entries(outs)
        loop, R0, ways = [], None, []
        for x in ins:
            if q.carried(x, t):
                if R0 is None:
                    R0 = q.loopfree(R, t)
                y = hentries(q, x, R0, t, depth + 1)
                if y is None:
                    return None
                ways.append((ins[x], y))
                if y not in loop:
                    loop.append(y)
        for fs in q.e.phi_kept(t):
            if loop and q.close(fs) is not None:
                ways.append((fs, []))
                if [] not in loop:
                    loop.append([])
        un = unrolled(q, t, ways, R, stop) if loop else None
        if un is not None:
            return out + un
        for n, v, src, m in merge_entries(loop) if loop else []:
            if src is None:
                for z in deep_subterms(q, v):
                    if z.op == "vf" and src is None:
                        src = next_source(q, z, R)
            out = out + [(n, v, src if src is not None else mk("unk", "loop"), m)]
        return out
    return None


def at_element(q, t, z, el):
    """t in the iteration whose element is el; a joined value becomes the joined values of that iteration"""
    if t.op == "phi" and any(z in set(deep_subterms(q, x)) for x in q.e.phi_inputs(t)) and not q.is_head(q.site(t)):
        new = mk("phi", t.a[0] + (("element", el.id, 0),), t.a[1])
        q.e.phi_in[new] = {at_element(q, x, z, el): frozenset((rebuild(replace(u, z, el)), b) for u, b in fs) for x, fs in q.e.phi_inputs(t).items()}
        return new
    return rebuild(replace(t, z, el))


def unrolled(q, ph, ways, R, stop):
    """what the iterations over a fixed array push, one after the other; None when the loop is not over a fixed array"""
    srcs, site = {}, q.site(ph)
    for fs, y in ways:
        for t in [u for u, _ in fs] + [e[1] for e in y] + [z[1] for e in y for z in e[0] if z[0] == "T"]:
            for z in deep_subterms(q, t):
                if z.op == "vf" and z.a[1] == "Some" and z.a[0].op in ("call", "icall"):
                    it = z.a[0].a[-1]
                    s = next_source(q, z, R) if isinstance(it, T) and it.op == "phi" and q.site(it) == site else None
                    if s is not None and s.op == "array":
                        srcs[z] = s
    if len(srcs) != 1:
        return None
    (z, arr), = srcs.items()
    if len(arr.a) > 16:
        return None
    out = []
    al = phi_alts(q, ph, R, stop, 0, True)
    lp = [p[-1] for _, p in al or () if p and p[-1][0] == "LOOP"]
    if not lp:
        return None
    R = q.loopfree(R, ph)
    for el in arr.a:
        lists = []
        for fs, y in lp[0][2]:
            if any(p[0] != "E" or p[1].op != "tuple" for p in y):
                return None
            g = frozenset()
            for t, b in fs:
                u = rebuild(replace(t, z, el))
                if u.op == "not":
                    u, b = u.a[0], not b
                g = q.e.add_fact(g, u, b) if g is not None else None
            if g is None or not Rcons(q, g, R):
                continue
            l = []
            for p in y:
                n, v = (at_element(q, x, z, el) for x in p[1].a)
                l.append((flat(q.resolve(n, R)), q.resolve(v, g | R), None, False))
            if l not in lists:
                lists.append(l)
        if not lists:
            return None
        out += merge_entries(lists)
    return out


def deep_subterms(q, t):
    """subterms, also of the values that can flow into joined ones"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == "phi":
            st += list(q.e.phi_inputs(x))
        for y in x.a:
            for z in (y if isinstance(y, tuple) else (y,)):
                for w in (z if isinstance(z, tuple) else (z,)):
                    if isinstance(w, T):
                        st.append(w)


def merge_entries(ls):
    if len(ls) == 1:
        return ls[0]
    n = 0
    while all(len(l) > n for l in ls) and all(l[n] == ls[0][n] for l in ls):
        n += 1
    out = list(ls[0][:n])
    for l in ls:
        for e in l[n:]:
            e = e[:3] + (True,)
            if e not in out[n:]:
                out.append(e)
    return out


def Rcons(q, fs, R):
    from q import Resolver
    return Resolver(q, R).consistent(fs)


def lit(fl):
    """the text of a flat string that is one literal"""
    if len(fl) == 0:
        return ""
    return fl[0][1] if len(fl) == 1 and fl[0][0] == "L" else None


def occurs_any(t, pred):
    return any(pred(x) for x in subterms(t))


RNGS = ("thread::rng", "rand::rng", "rng", "thread_rng", "rand::thread_rng", "OsRng", "SysRng", "rand::random")


def random_token(t):
    """length of a token drawn from the thread's CSPRNG over alphanumerics, or None"""
    n, rng, alpha = None, False, False
    for x in subterms(t):
        if x.op in ("call", "icall"):
            nm = x.a[0]
            if nm in RNGS or nm.endswith("::rng") or nm.endswith("thread_rng"):
                rng = True
            if nm == "Iterator::take" and x.a[-1].op == "int":
                n = x.a[-1].a[0]
            if nm.endswith("SampleString::sample_string") and x.a[-1].op == "int":
                n = x.a[-1].a[0]
        if x.op in ("adt", "const", "fn") and str(x.a[0]).endswith("Alphanumeric"):
            alpha = True
    return n if rng and alpha else None


def tauto(q, dnf):
    """a disjunction of fact conjunctions that covers every case"""
    dnf = [tuple(d) for d in dnf]
    if any(not d for d in dnf):
        return True
    if not dnf or len(dnf) > 40:
        return False
    # flatten nested disjunctions
    for i, d in enumerate(dnf):
        for t, b in d:
            if t.op == "or" and b:
                rest = tuple(x for x in d if x[0] is not t)
                return tauto(q, dnf[:i] + [rest + tuple(e) for e in t.a] + dnf[i + 1:])
    t, b = dnf[0][0]
    if t.op == "is":
        subj, names = t.a[0], {x.a[1] for d in dnf for x, bb in d if x.op == "is" and x.a[0] is t.a[0]}
        total = names == {"Some", "None"} or names == {"Ok", "Err"} or any({v["name"] for v in a["variants"]} == names for a in q.e.adt_variants.values())
        for v in sorted(names) + ([] if total else ["?"]):
            sub = []
            for d in dnf:
                nd, dead = [], False
                for x, bb in d:
                    if x.op == "is" and x.a[0] is subj:
                        dead = dead or (x.a[1] == v) != bb
                    else:
                        nd.append((x, bb))
                if not dead:
                    sub.append(tuple(nd))
            if not tauto(q, sub):
                return False
        return True
    nt = None
    if t.op == "bin" and t.a[0] == "Lt":
        nt = binop("Le", t.a[2], t.a[1])
    elif t.op == "bin" and t.a[0] == "Le":
        nt = binop("Lt", t.a[2], t.a[1])
    for val in (True, False):
        sub = []
        for d in dnf:
            nd, dead = [], False
            for x, bb in d:
                if x is t:
                    dead = dead or bb != val
                elif x is nt:
                    dead = dead or bb == val
                else:
                    nd.append((x, bb))
            if not dead:
                sub.append(tuple(nd))
        if not tauto(q, sub):
            return False
    return True


def entails_path(q, have, want):
    """every path satisfying `have` satisfies `want` (facts, tautologies aside)"""
    have = frozenset(have)
    for t, b in want:
        if (t, b) in have or t.op == "or" and b and tauto(q, t.a) or t.op == "forall":
            continue
        return False
    return True


# ------------------------------------------------------------------ joined values, element facts
def leaves(q, t, facts=frozenset(), depth=24, heads=True):
    """values that can flow into t, each with the facts recorded along the way (loop-carried ones left out; with heads=False
    what a loop builds up is left as it is)"""
    ph, steps = t, []
    while ph.op in ("field", "vf"):
        steps.append(("f", ph.a[1]) if ph.op == "field" else ("v", ph.a[1], ph.a[2]))
        ph = ph.a[0]
    if ph.op == "phi" and depth > 0 and (heads or not any(q.carried(x, ph) for x in q.e.phi_inputs(ph))) and (not steps or not q.is_head(q.site(ph))):
        ins = q.e.phi_inputs(ph)
        if steps and not ins:
            yield t, frozenset(facts)
        for x, fs in ins.items():
            if not q.carried(x, ph):
                for e in steps[::-1]:
                    if x.op == "adt" and e[0] == "v" and x.a[1] != e[1]:
                        x = None
                        break
                    x = proj(x, e)
                if x is not None:
                    yield from leaves(q, x, frozenset(facts) | frozenset(fs), depth - 1, heads)
    else:
        yield t, frozenset(facts)


def closure_cases(q, clo, args, want):
    """fact sets under which the closure applied to args returns want (a bool); None when unknown"""
    if clo.op != "closure" or q.p.fn(clo.a[0]) is None:
        return None
    g = q.p.fn(clo.a[0])
    s = q.e.summary(g)
    sub = q.e.substituter({1: clo, **{i + 2: a for i, a in enumerate(args)}}, (("closure", g.id),))
    out = []
    for o in s.outcomes:
        f = frozenset()
        for t, b in o.facts:
            f = q.e.add_fact(f, sub(t), b) if f is not None else None
        if f is None:
            continue
        r = sub(o.ret)
        if r.op == "bool":
            if r.a[0] == want:
                out.append(f)
            continue
        f = q.e.add_fact(f, r, want)
        if f is not None:
            out.append(f)
    return out


def split_ors(q, facts, lim=24):
    """the facts as alternatives without disjunctions"""
    out = [frozenset()]
    for t, b in facts:
        ds = [d for d in t.a] if t.op == "or" and b else [((t, b),)]
        nxt = []
        for f in out:
            for d in ds:
                g = f
                for u, ub in d:
                    g = q.e.add_fact(g, u, ub) if g is not None else None
                if g is not None:
                    nxt.append(g)
        if len(nxt) > lim:
            return [frozenset(facts)]
        out = nxt
    if any(t.op == "or" and b for f in out for t, b in f) and any(t.op == "or" for t, _ in facts):
        out = [g for f in out for g in (split_ors(q, f, lim) if any(t.op == "or" and b for t, b in f) and f != frozenset(facts) else [f])]
    return out


def holds(q, facts, pred, lim=64):
    """pred holds on every case of the facts: goal-directed, else on all their disjunction-free alternatives"""
    facts = unroll(q, facts)
    if q.holds(facts, pred):
        return True
    gs = split_ors(q, q.full(facts), lim)
    if len(gs) == 1 and gs[0] == frozenset(q.full(facts)):
        return False
    for g in gs:
        g = q.close(g)
        if g is not None and not pred(g):
            return False
    return True


def unroll(q, facts):
    """with what any / all over a short list written out in the code says of its elements"""
    out = None
    for t, b in facts:
        if t.op in ("call", "icall") and t.a[0] in ("Iterator::any", "Iterator::all"):
            lst = iter_base(t.a[-2])
            if lst.op != "array" or not 0 < len(lst.a) <= 12:
                continue
            cs = [closure_cases(q, t.a[-1], [x], b) for x in lst.a]
            if any(c is None for c in cs):
                continue
            out = facts if out is None else out
            if b == (t.a[0] == "Iterator::any"):
                ds = tuple(tuple(sorted(c, key=lambda z: (z[0].id, z[1]))) for l in cs for c in l)
                g = q.e.add_fact(frozenset(out), mk("or", *ds), True) if ds and all(ds) else out
                out = out if g is None else g
            else:
                for l in cs:
                    if len(l) == 1:
                        g = join_facts(q, out, l[0])
                        out = out if g is None else g
    return facts if out is None else out


def each(q, facts):
    """universally quantified facts: (collection, alternatives on the element bound(0))"""
    it = mk("bound", 0)
    for t, b in facts:
        if t.op == "forall" and b:
            yield iter_base(t.a[0]), split_ors(q, t.a[1]), it
        u, want = t, None
        if u.op in ("call", "icall") and u.a[0] in ("Iterator::any", "Iterator::all") and b == (u.a[0] == "Iterator::all"):
            want = b
        elif u.op == "is" and u.a[1] == "None" and b and u.a[0].op in ("call", "icall") and u.a[0].a[0] in ("Iterator::find", "Iterator::position"):
            u, want = u.a[0], False
        if b and t.op == "is" and t.a[1] in ("Ok", "Some", "Continue") and t.a[0].op in ("call", "icall") and t.a[0].a[0] in ("Iterator::try_for_each", "try_for_each"):
            rs = apply_fn(q, t.a[0].a[-1], [it])
            cs = [q.e.add_fact(f, is_(v, t.a[1]), True) for f, v in rs] if rs is not None else None
            if cs is not None:
                yield iter_base(t.a[0].a[-2]), [f for f in cs if f is not None], it
        if want is not None:
            cs = closure_cases(q, u.a[2], [it], want)
            if cs is not None:
                yield iter_base(u.a[1]), cs, it


def derived_from(t, src):
    return any(x is src for x in subterms(t))


def F(b, *names):
    for n in names:
        b = proj(b, ("f", n))
    return b


def L(s):
    return (("L", s),) if s else ()


def S(n):
    return (("S", n),)


def lt(q, facts, a, b):
    t = binop("Lt", a, b)
    if q.e.known(facts, t) is True or (t.op == "bool" and t.a[0]):
        return True
    return q.e.known(facts, binop("Le", a, b)) is True and (q.e.known(facts, binop("Eq", a, b)) is False or q.e.known(facts, binop("Eq", b, a)) is False)


def to_with_tag(q, v, src, R):
    """every value v can have is src unchanged (when a tag was found in it) or src;tag=<random>"""
    vals = {}
    if v.op == "phi":
        vals = q.e.phi_inputs(v)
    else:
        vals = {v: frozenset()}
    for x, fs in vals.items():
        fl = flat(x)
        if fl == flat(src):
            if not any(b and any("tag" in (cstr(y) or "") for y in subterms(t)) for t, b in fs | R if any(z is src for z in subterms(t))):
                return False
        elif not (len(fl) == 3 and fl[:1] == flat(src) and fl[1] == ("L", ";tag=") and fl[2][0] == "T" and (random_token(fl[2][1]) or 0) >= 8):
            return False
    return bool(vals)


# ------------------------------------------------------------------ how strings and lists are put together
def alts(q, t, R, stop=None, depth=0, vec=False):
    """the ways a string (or, with vec, a list) can have been put together under the facts: [(facts, pieces)] with pieces
    ("L", text), ("T", term), ("E", element) and ("LOOP", collection, ways of one iteration); None when not understood"""
    if depth > 60:
        return None
    t = q.resolve(t, R)
    if t is stop:
        return [(frozenset(), ())]
    if vec:
        if t.op == "post" and t.a[1] == 0:
            base = alts(q, t.a[2], R, stop, depth + 1, True)
            if base is None:
                return None
            n = t.a[0].split("::")[-1]
            if t.a[0] in ADDH:
                return [(f, p + (("E", mk("tuple", t.a[3], t.a[4])),)) for f, p in base]
            if n in ("push", "push_back"):
                return [(f, p + (("E", t.a[3]),)) for f, p in base]
            if n in ("sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "reserve", "sort_unstable_by_key"):
                return base
            return None
        if t.op == "call" and t.a[0].split("::")[-1] in ("new", "with_capacity", "default") and len(t.a) <= 2:
            return [(frozenset(), ())]
        if t.op != "phi":
            return [(frozenset(), (("T", t),))] if stop is None else None
        parts = [("T", t)]
    else:
        parts = list(flat(t))
    out = [(frozenset(), ())]
    for i, p in enumerate(parts):
        if p[0] == "T" and p[1].op == "phi" or p[0] == "T" and p[1] is stop:
            sub = phi_alts(q, p[1], R, stop, depth, vec) if p[1] is not stop else [(frozenset(), ())]
            if sub is None:
                if i == 0 and stop is not None:
                    return None
                sub = [(frozenset(), (p,))]
        else:
            r = q.resolve(p[1], R) if p[0] == "T" else None
            if r is not None and r is not p[1]:
                sub = alts(q, r, R, stop, depth + 1, vec)
                if sub is None:
                    return None
            else:
                sub = [(frozenset(), (p,))]
        out = [(f | g, a + b) for f, a in out for g, b in sub]
        if len(out) > 200:
            return None
    return [(f, joinL(p)) for f, p in out]


def joinL(ps):
    out = []
    for p in ps:
        if p[0] == "L" and out and out[-1][0] == "L":
            out[-1] = ("L", out[-1][1] + p[1])
        elif not (p[0] == "L" and not p[1]):
            out.append(p)
    return tuple(out)


def phi_alts(q, ph, R, stop, depth, vec):
    ins = q.e.phi_inputs(ph)
    out, loop, src = [], [], None
    ways = list(ins.items())
    edges = [] if q.is_head(q.site(ph)) else list(q.e.phi_ways(ph))
    if len(edges) > len(ways) and {x for x, _ in edges} == set(ins):
        # the same value can come in under different conditions
        ways = edges
    for x, fs in ways:
        if q.carried(x, ph):
            R0 = q.loopfree(R, ph)
            y = alts(q, x, R0, ph, depth + 1, vec)
            if y is None:
                return None
            for f, p in y:
                g = q.close(frozenset(f) | frozenset(fs))
                if g is not None:
                    loop.append((g, p))
                    for t in [z[1] for z in p if z[0] in ("T", "E")] + [t for t, _ in g]:
                        for z in deep_subterms(q, t):
                            if src is None and z.op == "vf":
                                src = next_source(q, z, R)
        elif Rcons(q, fs, R):
            y = alts(q, x, R, stop, depth + 1, vec)
            if y is None:
                return None
            out += [(frozenset(f) | frozenset(fs), p) for f, p in y]
    for fs in q.e.phi_kept(ph):
        g = q.close(frozenset(fs))
        if g is not None:
            loop.append((g, ()))
    if loop and any(p for _, p in loop):
        out = [(f, p + (("LOOP", src if src is not None else mk("unk", "loop"), tuple(loop)),)) for f, p in out]
    return out or None


def show_pieces(p):
    return " ".join(repr(x[1]) if x[0] == "L" else "{" + show(x[1], 0, 5)[:60] + "}" if x[0] in "TE" else "LOOP[" + " | ".join(show_pieces(y) for _, y in x[2]) + "]" if x[0] == "LOOP" else str(x[0]) for x in p)


def loop_elem(q, t, R):
    """(collection, projection path) when t is a part of the element a loop is at"""
    path = []
    while True:
        s = next_source(q, t, R) if t.op == "vf" and t.a[1] == "Some" else None
        if s is not None:
            return s, tuple(path[::-1])
        if t.op == "field":
            path.append(t.a[1])
        elif t.op == "vf":
            path.append("@" + t.a[1])
        elif t.op == "call" and len(t.a) == 2 and t.a[0] in ("as_str", "AsRef::as_ref", "Deref::deref", "to_string", "SmolStr::as_str", "Into::into", "From::from", "Clone::clone"):
            t = t.a[1]
            continue
        else:
            return None
        t = t.a[0]


# ------------------------------------------------------------------ runs without an event
def avoiding(q, fn, want, cut=()):
    """(analysis, outcomes) of the runs of fn in which no event satisfying want occurs: every function is analysed with the
    blocks of those events (and those listed in cut, as (function id, block)) cut away"""
    import copy
    p2 = copy.copy(q.p)
    p2.fns = dict(q.p.fns)
    n = 0
    for fid, bb in [(te.ev.fn.id, te.ev.bb) for te in tree(q, fn, want)] + list(cut):
        g = p2.fns[fid]
        if g is q.p.fns[fid]:
            g = copy.copy(g)
            g.blocks = list(g.blocks)
            p2.fns[fid] = g
        g.blocks[bb] = dict(g.blocks[bb], t=["unreach"])
        n += 1
    q2 = copy.copy(q)
    q2.p = p2
    q2.e = type(q.e)(p2, opaque=q.e.opaque)
    q2.e.only, q2.e.also = q.e.only, q.e.also
    q2.P = type(q.P)(q2.e)
    q2._res, q2._full, q2._sites, q2._impossible = {}, {}, {}, set()
    return q2, n, q2.e.summary(p2.fns[fn.id]).outcomes


# ------------------------------------------------- values over a finite domain of cases
class Cases:
    """possible values of terms when atoms have the values env(t) gives (a set, or None when it does not know): comparisons, minima,
    maxima, boolean operators and joins are followed, everything else can be anything"""
    def __init__(self, q, env):
        self.q, self.env, self.memo = q, env, {}

    def val(self, t):
        if t not in self.memo:
            self.memo[t] = None
            self.memo[t] = self._val(t)
        return self.memo[t]

    def _val(self, t):
        r = self.env(t)
        if r is not None:
            return r
        op = t.op
        if op in ("int", "bool"):
            return {t.a[0]}
        if op == "not":
            x = self.val(t.a[0])
            return None if x is None else {not v for v in x}
        if op == "bin":
            o = t.a[0]
            x, y = self.val(t.a[1]), self.val(t.a[2])
            f = {"Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b, "Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "BitXor": lambda a, b: a != b}.get(o)
            if o in ("BitAnd", "BitOr") and (x is None or y is None):
                z = y if x is None else x
                return {o == "BitOr"} if z == {o == "BitOr"} else None
            if o in ("BitAnd", "BitOr"):
                f = (lambda a, b: a and b) if o == "BitAnd" else (lambda a, b: a or b)
            if f is None or x is None or y is None:
                return None
            return {f(a, b) for a in x for b in y}
        if op == "call" and t.a[0] in ("max", "min") and len(t.a) == 3:
            x, y = self.val(t.a[1]), self.val(t.a[2])
            if x is None or y is None:
                return None
            f = max if t.a[0] == "max" else min
            return {f(a, b) for a in x for b in y}
        if op == "phi" or op in ("field", "vf"):
            out = set()
            n = 0
            for v, fs in leaves(self.q, t):
                if v is t:
                    return None
                n += 1
                if self.feasible(fs):
                    y = self.val(v)
                    if y is None:
                        return None
                    out |= y
            return out if n else None
        return None

    def feasible(self, facts):
        return all(self.can(t, b) for t, b in facts)

    def can(self, t, b):
        if t.op == "or":
            if not b:
                return True
            return any(self.feasible(d) for d in t.a)
        x = self.val(t)
        return x is None or b in x


def assigned(q, t, facts=frozenset()):
    """values that can flow into t, also those set by earlier iterations of a loop, each with the facts recorded along the way"""
    seen, st, out = set(), [(t, frozenset(facts))], []
    while st:
        x, fs = st.pop()
        ph, steps = x, []
        while ph.op in ("field", "vf"):
            steps.append(("f", ph.a[1]) if ph.op == "field" else ("v", ph.a[1], ph.a[2]))
            ph = ph.a[0]
        if ph.op != "phi":
            out.append((x, fs))
            continue
        if (x, fs) in seen or len(seen) > 400:
            continue
        seen.add((x, fs))
        for y, gs in q.e.phi_inputs(ph).items():
            for e in steps[::-1]:
                if y.op == "adt" and e[0] == "v" and y.a[1] != e[1]:
                    y = None
                    break
                y = proj(y, e)
            if y is not None and y is not x:
                # facts of earlier iterations do not speak about this one
                st.append((y, frozenset(gs) if q.carried(y, ph) else fs | frozenset(gs)))
    return out


# ------------------------------------------------------------------ some element of a collection
def apply_fn(q, f, args, heads=True):
    """[(facts, value)] for every way a closure or function given as a value returns when applied; None when unknown"""
    if f.op not in ("closure", "fn") or q.p.fn(f.a[0]) is None:
        return None
    g = q.p.fn(f.a[0])
    n = 2 if f.op == "closure" else 1
    sub = q.e.substituter({**({1: f} if f.op == "closure" else {}), **{i + n: a for i, a in enumerate(args)}}, ((f.op, g.id),))
    out = []
    for o in q.e.summary(g).outcomes:
        h = frozenset()
        for t, b in o.facts:
            h = q.e.add_fact(h, sub(t), b) if h is not None else None
        if h is not None:
            out += [(y, x) for x, y in leaves(q, sub(o.ret), h, heads=heads)]
    return out


def join_facts(q, *fss):
    h = frozenset()
    for fs in fss:
        for t, b in fs:
            h = q.e.add_fact(h, t, b) if h is not None else None
    return h


MAPS = {"HashMap::values", "HashMap::iter", "BTreeMap::values", "BTreeMap::iter"}


def stream(q, t, it):
    """(base collection, [(facts, item)]): the items an iterator gives for the element `it` of the collection under it"""
    while t.op in ("call", "icall") and (short_name(t) in ITERS or short_name(t) in MAPS) and len(args_of(t)) == 1:
        t = args_of(t)[0]
    if t.op in ("call", "icall") and short_name(t) in ("Iterator::map", "Iterator::filter", "Iterator::filter_map"):
        a = args_of(t)
        base, items = stream(q, a[0], it)
        if items is None:
            return base, None
        out = []
        for fs, x in items:
            rs = apply_fn(q, a[1], [x])
            if rs is None:
                return base, None
            for gs, r in rs:
                n = short_name(t)
                if n == "Iterator::filter":
                    h, y = (join_facts(q, fs, gs) if r.op == "bool" and r.a[0] else None if r.op == "bool" else join_facts(q, fs, gs, [(r, True)])), x
                elif n == "Iterator::map":
                    h, y = join_facts(q, fs, gs), r
                elif r.op == "adt" and r.a[1] in ("Some", "None"):
                    h, y = (join_facts(q, fs, gs) if r.a[1] == "Some" else None), r.a[3] if r.a[1] == "Some" else None
                else:
                    h, y = join_facts(q, fs, gs, [(is_(r, "Some"), True)]), proj(r, ("v", "Some", "0"))
                if h is not None:
                    out.append((h, y))
        return base, out
    return t, [(frozenset(), it)]


def short_name(t):
    return t.a[0]


def args_of(t):
    return t.a[1:] if t.op == "call" else t.a[2:]


def some(q, f, b, it):
    """(collection, [facts]) when the fact says that some element `it` of the collection satisfies one of the fact sets"""
    t, clo = f, True
    if t.op == "is" and t.a[1] in ("Some", "None") and b == (t.a[1] == "Some") and t.a[0].op in ("call", "icall") and short_name(t.a[0]) in ("Iterator::find", "Iterator::position", "Iterator::find_map", "Iterator::next"):
        t = t.a[0]
    elif not (t.op in ("call", "icall") and (short_name(t) == "Iterator::any" and b or short_name(t) == "Iterator::all" and not b or b and short_name(t).split("::")[-1] == "contains" and len(args_of(t)) == 2)):
        return None
    n, a = short_name(t), args_of(t)
    base, items = stream(q, a[0], it)
    if items is None:
        return None
    out = []
    for fs, x in items:
        if n.endswith("::contains"):
            h = [join_facts(q, fs, [(binop("Eq", x, a[1]), True)])]
        elif n == "Iterator::next":
            h = [fs] if base is not a[0] else []
        else:
            rs = apply_fn(q, a[1], [x])
            if rs is None:
                return None
            h = []
            for gs, r in rs:
                if r.op == "bool":
                    h += [join_facts(q, fs, gs)] if r.a[0] == (n != "Iterator::all") else []
                elif n == "Iterator::find_map":
                    h += [join_facts(q, fs, gs, [(is_(r, "Some"), True)])] if not (r.op == "adt" and r.a[1] == "None") else []
                else:
                    h += [join_facts(q, fs, gs, [(r, n != "Iterator::all")])]
        out += [x for x in h if x is not None and q.close(x) is not None]
    return base, out


def exists(q, k, coll, pred, depth=0):
    """the facts k say that some element of coll (a predicate on terms) satisfies pred(element, facts); works on quantified facts
    (any, find, contains, ...) and on an element a search loop has stopped at"""
    it = mk("bound", depth)
    for f, b in k:
        s = some(q, f, b, it)
        if s is not None and s[1] and coll(s[0]) and all(holds(q, c, lambda j: pred(it, j | k)) for c in s[1]):
            return True
    cand = {x for f, b in k for x in subterms(f) if x.op == "vf" and x.a[1] == "Some"}
    for x in cand:
        e = next_source(q, x, frozenset())
        while e is not None and e.op in ("call", "icall") and short_name(e) in MAPS:
            e = args_of(e)[0]
        if e is not None and coll(e) and pred(x, k):
            return True
    return False
