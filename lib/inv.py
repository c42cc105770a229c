"""Type invariants: what every construction and every write of a field guarantees.

For a field F of type T the obligations are: each struct/variant literal of T, each
assignment to T.F, and each call that mutates T.F through `&mut` -- anywhere in the
analysed crates.  A claim (max length / max count / numeric range / excluded characters)
is proved at each obligation from the must-facts there, assuming the claims for already
existing objects (induction over construction order)."""
from term import *
from absint import strip_generics, Engine
from prove import *

STRT = ("str", "alloc::string::String", "smol_str::SmolStr", "alloc::boxed::Box<str>", "alloc::sync::Arc<str>")
NUMS = Engine.NUM
COLL = ("alloc::vec::Vec", "std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap", "std::collections::hash::set::HashSet",
        "alloc::collections::vec_deque::VecDeque", "alloc::collections::btree::set::BTreeSet", "smallvec::SmallVec")


def kind(ty):
    ty = ty.peel()
    if ty.s in STRT:
        return "str"
    if ty.s in NUMS:
        return "num"
    if ty.s == "bytes::bytes::Bytes" or ty.s == "alloc::vec::Vec<u8>":
        return "bytes"
    if ty.d in COLL:
        return "coll"
    if ty.d == OPTION and ty.a:
        k = kind(ty.a[0])
        return "opt:" + k if k and not k.startswith("opt") else None
    return None


class Obl:
    __slots__ = ("fn", "val", "facts", "how", "line", "var")

    def __init__(self, fn, val, facts, how, line, var=None):
        self.fn, self.val, self.facts, self.how, self.line, self.var = fn, val, facts, how, line, var


def obligations(prog, eng, crates, skip_fn=lambda f: False):
    """(adt, variant, field) -> [Obl]"""
    out = {}
    for f in list(prog.fns.values()):
        if f.crate not in crates or "__CALLSITE" in f.id or skip_fn(f):
            continue
        s = eng.summary(f)
        if s is None:
            continue
        if f.derived and f.trait and "Clone" in f.trait:
            continue
        for ev in s.events:
            if ev.kind == "new":
                var, names = ev.extra
                for n, v in zip(names, ev.args):
                    out.setdefault((ev.name, var, n), []).append(Obl(f, v, ev.facts, "new", ev.line, var))
            elif ev.kind == "wr":
                fld, rest, how = ev.extra
                out.setdefault((ev.name, "*", fld), []).append(Obl(f, ev.args[0], ev.facts, how if rest == 0 else how + "/sub", ev.line))
    return out


GROW = {"Vec::push", "VecDeque::push_back", "VecDeque::push_front", "SmallVec::push", "HashSet::insert", "BTreeSet::insert"}
SHRINK = {"Vec::remove", "Vec::swap_remove", "Vec::retain", "Vec::truncate", "Vec::clear", "Vec::pop", "Vec::sort", "Vec::sort_by", "Vec::sort_by_key", "Vec::dedup", "Vec::drain",
          "slice::sort", "slice::sort_by", "slice::sort_by_key", "slice::reverse", "slice::sort_unstable", "slice::swap", "slice::rotate_left", "slice::rotate_right",
          "BTreeMap::remove", "BTreeMap::clear", "BTreeMap::retain", "HashMap::remove", "HashMap::clear", "HashMap::retain", "HashSet::remove", "VecDeque::pop_front", "VecDeque::pop_back",
          "Vec::reserve", "Vec::shrink_to_fit", "BTreeMap::pop_first", "BTreeMap::pop_last", "BTreeSet::remove", "Vec::dedup_by_key", "Vec::reserve_exact", "HashMap::reserve", "Vec::swap"}
EMPTYC = {"Vec::new", "Vec::with_capacity", "BTreeMap::new", "HashMap::new", "HashMap::with_capacity", "Default::default", "BTreeSet::new", "HashSet::new", "VecDeque::new", "SmallVec::new"}
PASS = {"Iterator::rev", "Iterator::skip", "Iterator::take", "Iterator::cloned", "Iterator::copied", "Iterator::filter", "Iterator::skip_while", "Iterator::take_while", "Iterator::peekable",
        "iter", "Iterator::inspect", "slice::to_vec", "slice::iter", "Iterator::by_ref", "BTreeMap::iter", "HashMap::iter", "BTreeMap::into_iter", "Iterator::fuse", "Iterator::step_by"}


class Claims:
    """hypothesis oracle over field terms; claims are keyed (adt, field, role) with role
    "" (the field itself), "e" (collection elements), "k"/"v" (map keys / values)"""

    def __init__(self, prover):
        self.P = prover
        self.len = {}
        self.max = {}
        self.min = {}
        self.chars = {}
        self.off = None         # claim switched off while its own facts-only bound is computed
        prover.hyp = self.hyp

    def key(self, t):
        P = self.P
        while True:
            if t.op == "call" and t.a[0] in ("Option::as_deref", "Option::as_ref", "iter", "Option::cloned", "as_bytes"):
                t = t.a[1]
                continue
            if t.op == "vf" and t.a[1] == "Some" and t.a[2] == "0":
                b = P.ty(t.a[0])
                if b is not None and b.d == OPTION:
                    t = t.a[0]
                    continue
            break
        if t.op == "field":
            b = P.ty(t.a[0])
            if b is not None and b.d in P.p.adts:
                return (b.d, t.a[1], "")
        if t.op == "vf":
            b = P.ty(t.a[0])
            if b is not None and b.d in P.p.adts:
                return (b.d, t.a[2], "")
        return self.elkey(t)

    def elkey(self, t):
        """claim key of the collection role t is an element of"""
        role = None
        if t.op == "vf" and t.a[1] == "Some":
            t2 = t.a[0]
            if t2.op == "field":      # Some payload of a map value
                return self.elkey(t2)
        if t.op == "field" and t.a[1] in ("0", "1"):
            role = "k" if t.a[1] == "0" else "v"
            t = t.a[0]
        if t.op == "idx":
            k = self.key(t.a[0])
            b = self.P.ty(t.a[0])
            return (k[0], k[1], "v" if b is not None and b.d and b.d.endswith("Map") else "e") if k and k[2] == "" and role is None else None
        if t.op == "vf" and t.a[1] == "Some" and t.a[0].op in ("call", "icall"):
            n = t.a[0].a[0]
            x = t.a[0].a[1 if t.a[0].op == "call" else 2]
            if n in ("BTreeMap::get", "HashMap::get"):
                role = "v"
            elif n not in ("Iterator::next", "slice::get", "Vec::get", "slice::first", "slice::last", "Iterator::find", "Vec::pop", "Peekable::peek", "Iterator::last", "Iterator::max_by", "Iterator::nth"):
                return None
            if x.op == "phi":
                x = iter_source(self.P.e, x) or x
            while x.op == "call" and (x.a[0] in PASS or x.a[0] in ("BTreeMap::values", "BTreeMap::keys", "HashMap::values", "HashMap::keys")):
                if x.a[0].endswith("::values"):
                    role = "v"
                elif x.a[0].endswith("::keys"):
                    role = "k"
                x = x.a[1]
            if x.op == "call" and x.a[0] == "Iterator::enumerate":
                if role != "v":
                    return None
                role = None
                x = x.a[1]
                while x.op == "call" and x.a[0] in PASS:
                    x = x.a[1]
            k = self.key(x)
            return (k[0], k[1], role or "e") if k and k[2] == "" else None
        return None

    def hyp(self, t, kind):
        if kind == "max":
            if t.op == "call" and t.a[0] == "len":
                k = self.key(t.a[1])
                return self.len.get(k) if k and k != self.off else None
            k = self.key(t)
            return self.max.get(k) if k and k != self.off else None
        if kind == "chars":
            k = self.key(t)
            return self.chars.get(k) if k and k != self.off else None
        if kind == "elemchars":
            k = self.key(t)
            return self.chars.get((k[0], k[1], "e")) if k and k[2] == "" else None
        return None


class Unknown(Exception):
    def __init__(self, t):
        self.t = t


def leaves(C, v, facts, role, seen=frozenset(), depth=0):
    """(element term, facts) pairs covering every element of collection v; an element that
    provably comes from the collection claimed under `stop` is covered by the hypothesis"""
    P = C.P
    if depth > 40:
        raise Unknown(v)
    if v.op == "array":
        for x in v.a:
            if role == "e":
                yield x, facts
            elif x.op == "tuple":
                yield x.a[0 if role == "k" else 1], facts
            else:
                yield proj(x, ("f", "0" if role == "k" else "1")), facts
        return
    if v.op in ("call", "icall"):
        a = v.a[1:] if v.op == "call" else v.a[2:]
        n = v.a[0]
        if n in EMPTYC:
            return
        if n in ("Iterator::collect", "Vec::into_boxed_slice", "Vec::from", "From::from") or n in PASS:
            yield from leaves(C, a[0], facts, role, seen, depth + 1)
            return
        if n == "Iterator::map" and a[1].op == "closure":
            s = P.e.summary(P.p.fn(a[1].a[0]))
            if s is not None:
                old = P.fn
                for o in s.outcomes:
                    x = o.ret
                    if role != "e":
                        x = x.a[0 if role == "k" else 1] if x.op == "tuple" else proj(x, ("f", "0" if role == "k" else "1"))
                    yield x, o.facts
                return
        if n == "Iterator::map" and a[1].op == "fn":
            if strip_generics(a[1].a[0]).split("::")[-1] in ("to_string", "to_owned", "into", "from", "clone", "trim", "new") and role == "e":
                yield from leaves(C, a[0], facts, role, seen, depth + 1)
                return
        if n in P.SPLITS and role == "e":
            yield mk("vf", call("Iterator::next", v), "Some", "0"), facts
            return
        if n in ("BTreeMap::values", "HashMap::values", "BTreeMap::into_values") and role == "e":
            yield from leaves(C, a[0], facts, "v", seen, depth + 1)
            return
        if n in ("BTreeMap::keys", "HashMap::keys") and role == "e":
            yield from leaves(C, a[0], facts, "k", seen, depth + 1)
            return
        if n == "Iterator::chain":
            yield from leaves(C, a[0], facts, role, seen, depth + 1)
            yield from leaves(C, a[1], facts, role, seen, depth + 1)
            return
    if v.op in ("post", "ipost"):
        o = 2 if v.op == "post" else 3
        n, a = v.a[0], v.a[o:]
        if v.a[1] == 0:
            if n in GROW:
                yield from leaves(C, a[0], facts, role, seen, depth + 1)
                yield a[1], facts
                return
            if n == "Vec::insert":
                yield from leaves(C, a[0], facts, role, seen, depth + 1)
                yield a[2], facts
                return
            if n in ("BTreeMap::insert", "HashMap::insert"):
                yield from leaves(C, a[0], facts, role, seen, depth + 1)
                yield a[1 if role == "k" else 2], facts
                return
            if n in SHRINK:
                yield from leaves(C, a[0], facts, role, seen, depth + 1)
                return
            if n in ("Extend::extend", "Vec::extend_from_slice", "Vec::append", "Vec::extend"):
                yield from leaves(C, a[0], facts, role, seen, depth + 1)
                yield from leaves(C, a[1], facts, role, seen, depth + 1)
                return
    if v.op == "upd" and v.a[1][0] in ("i", "ci"):
        # one element is another one
        yield from leaves(C, v.a[0], facts, role, seen, depth + 1)
        b = P.ty(v.a[0])
        if role != "k" or b is None or not (b.d and b.d.endswith("Map")):
            yield v.a[2], facts
        return
    if v.op == "phi":
        if v in seen:
            return
        ins = P.e.phi_inputs(v)
        if ins:
            for x, fs in ins.items():
                yield from leaves(C, x, fs, role, seen | {v}, depth + 1)
            return
    if v.op in ("vf", "field") and v.a[0].op == "phi":
        ph = v.a[0]
        if (v,) in seen:
            return
        ins = P.e.phi_inputs(ph)
        if ins:
            for x, fs in ins.items():
                if v.op == "vf" and x.op == "adt" and x.a[1] != v.a[1]:
                    continue
                y = proj(x, ("v", v.a[1], v.a[2])) if v.op == "vf" else proj(x, ("f", v.a[1]))
                if y is not v:
                    yield from leaves(C, y, fs, role, seen | {(v,)}, depth + 1)
            return
    k = C.key(v)
    if k and k[2] == "":
        # an element of a claimed collection: stands for the hypothesis
        yield mk("elemof", v, role), facts
        return
    raise Unknown(v)


class Goal:
    """one claim: key, quantity ("len" | "max" | "min" | "chars") and bound"""

    def __init__(self, key, q, bound):
        self.key, self.q, self.bound = key, q, bound


def value_terms(C, o, key, k):
    """terms (with facts) the claim must hold for at obligation o"""
    role = key[2]
    v = o.val
    if k.startswith("opt:"):
        if v.op == "adt" and v.a[0] == OPTION:
            if v.a[1] != "Some":
                return
            v = v.a[3]
            fs0 = o.facts
        else:
            fs0 = C.P.e.add_fact(o.facts, mk("is", v, "Some"), True)
            if fs0 is None:
                return
            v = proj(v, ("v", "Some", "0"))
    else:
        fs0 = o.facts
    if role == "":
        yield v, fs0
        return
    for x, fs in leaves(C, v, fs0, role):
        if x.op == "adt" and x.a[0] == OPTION:
            if x.a[1] == "Some":
                yield x.a[3], fs
            continue
        t = C.P.ty(x)
        if t is not None and t.d == OPTION and x.op != "elemof":
            fs = C.P.e.add_fact(fs, mk("is", x, "Some"), True)
            if fs is None:
                continue
            x = proj(x, ("v", "Some", "0"))
        yield x, fs


def quantity(C, t, facts, q, key):
    """derived bound of term t (len/max: int or None; chars: CS)"""
    P = C.P
    if t.op == "elemof":
        k = C.key(t.a[0])
        k = (k[0], k[1], t.a[1])
        if q == "len":
            return C.len.get(k) if k != C.off else NINF
        return (C.chars.get(k, FULL) if k != C.off else EMPTY)
    if q == "len":
        return P.upper_c(call("len", t), facts)
    if q == "max":
        return P.upper_c(t, facts)
    if q == "chars":
        return P.charset_c(t, facts)
    if q in ("min", "minlen"):
        return lower_c(C, call("len", t) if q == "minlen" else t, facts, key)
    raise ValueError(q)


def lower(C, t, facts, key, seen=frozenset(), depth=0):
    """largest provable integer lower bound (at least 0)"""
    P = C.P
    if t.op in ("int", "char"):
        return t.a[0]
    best = 0
    tab = C.min
    k = C.key(t.a[1]) if t.op == "call" and t.a[0] == "len" else C.key(t)
    q = "minlen" if t.op == "call" and t.a[0] == "len" else "min"
    if k and (k, q) in tab:
        best = tab[(k, q)]
    idx = P.index(facts)
    # constants c with c <= t + d recorded by the facts, through difference chains
    for x in list(idx):
        if x == "facts" or x.op != "int":
            continue
        for y, c in idx[x]:
            # x <= y + c
            if y is t:
                best = max(best, x.a[0] - c)
    if t.op == "call" and t.a[0] == "len":
        x = t.a[1]
        for u, b in facts:
            if not b and u.op == "bin" and u.a[0] == "Eq" and u.a[1] is t and u.a[2].op == "int" and u.a[2].a[0] == 0:
                best = max(best, 1)
        if x.op == "str":
            return len(x.a[0].encode())
        if x.op == "call" and x.a[0] in ("str::to_ascii_lowercase", "str::to_ascii_uppercase", "to_string", "Clone::clone"):
            best = max(best, lower(C, call("len", x.a[1]), facts, key, seen, depth + 1))
        if x.op == "call" and x.a[0] in ("format", "fmt"):
            best = max(best, sum(len(y.a[0].encode()) for y in x.a[1:] if y.op == "str"))
        if x.op == "phi" and x not in seen and depth < 12:
            ins = P.e.phi_inputs(x)
            if ins:
                best = max(best, min(lower(C, call("len", y), fs, key, seen | {x}, depth + 1) for y, fs in ins.items()))
        elif x.op == "phi" and x in seen:
            return 1 << 60
        if x.op == "vf" and x.a[0].op == "phi" and x.a[1] in ("Some", "Ok") and x not in seen:
            ins = [(y, fs) for y, fs in P.e.phi_inputs(x.a[0]).items() if not (y.op == "adt" and y.a[1] != x.a[1])]
            if ins:
                best = max(best, min(lower(C, call("len", proj(y, ("v", x.a[1], "0"))), fs, key, seen | {x}, depth + 1) for y, fs in ins))
        elif x in seen:
            return 1 << 60
    if t.op == "phi":
        if t in seen:
            return 1 << 60
        if depth < 12:
            ins = P.e.phi_inputs(t)
            if ins:
                best = max(best, min(lower(C, y, fs, key, seen | {t}, depth + 1) for y, fs in ins.items()))
    if t.op == "bin" and t.a[0] == "Add" and t.a[2].op == "int":
        best = max(best, lower(C, t.a[1], facts, key, seen, depth + 1) + t.a[2].a[0])
    if t.op == "call" and t.a[0] in ("max",):
        best = max(best, lower(C, t.a[1], facts, key, seen, depth + 1), lower(C, t.a[2], facts, key, seen, depth + 1))
    if t.op == "call" and t.a[0] in ("min",):
        best = max(best, min(lower(C, t.a[1], facts, key, seen, depth + 1), lower(C, t.a[2], facts, key, seen, depth + 1)))
    return best


def lower_c(C, t, facts, key, depth=0):
    best = lower(C, t, facts, key)
    if depth < 2:
        for fs in C.P.split_facts(facts, t):
            m = min([lower(C, t, f, key) for f in fs] or [1 << 60])
            best = max(best, m)
    return best


def check_goal(C, obls, key, k, q, bound):
    """[(obligation, term, derived)] that fail"""
    bad = []
    P = C.P
    for o in obls:
        P.fn = o.fn
        try:
            for t, fs in value_terms(C, o, key, k):
                d = quantity(C, t, fs, q, key)
                ok = d is not None and (d.subset(bound) if q == "chars" else d >= bound if q in ("min", "minlen") else d <= bound)
                if not ok:
                    bad.append((o, t, d))
        except Unknown as u:
            bad.append((o, u.t, "unknown collection"))
    return bad


def infer(C, obls, key, k, q):
    """smallest inductive bound, or (None, obligation)"""
    P = C.P
    C.off = key
    r = NINF if q != "chars" else EMPTY
    for o in obls if q not in ("min", "minlen") else ():
        P.fn = o.fn
        try:
            for t, fs in value_terms(C, o, key, k):
                d = quantity(C, t, fs, q, key)
                if q == "chars":
                    if d != FULL:
                        r = r | d
                elif d is not None:
                    r = max(r, d)
        except Unknown as u:
            C.off = None
            return None, o
    C.off = None
    if q in ("min", "minlen"):
        r = 1 << 60
        for o in obls:
            P.fn = o.fn
            for t, fs in value_terms(C, o, key, k):
                r = min(r, lower_c(C, t if q == "min" else call("len", t), fs, key))
        return (r, None) if 0 < r < 1 << 60 else (None, None)
    tab = {"len": C.len, "max": C.max, "chars": C.chars}[q]
    if q != "chars":
        r = max(r, 0)
    old = tab.get(key)
    tab[key] = r
    bad = check_goal(C, obls, key, k, q, r)
    if bad:
        if old is None:
            del tab[key]
        else:
            tab[key] = old
        return None, bad[0][0]
    return r, None


def by_field(prog, eng, crates, skip_fn=lambda f: False):
    byf = {}
    for (a, v, f), l in obligations(prog, eng, crates, skip_fn).items():
        if a in prog.adts:
            byf.setdefault((a, f), []).extend(l)
    return byf


def roles(ty, k):
    """roles of string-like content inside a collection type"""
    if k.split(":")[-1] != "coll":
        return []
    t = ty.peel()
    if t.d == OPTION:
        t = t.a[0]
    def strish(x):
        x = x.peel()
        if x.d == OPTION and x.a:
            x = x.a[0]
        return kind(x) == "str"
    if "Map" in (t.d or ""):
        return [r for r, x in (("k", t.a[0]), ("v", t.a[1])) if strish(x)]
    return ["e"] if t.a and strish(t.a[0]) else []


if __name__ == "__main__":
    import sys
    from ir import Program
    prog = Program()
    eng = Engine(prog)
    P = Prover(eng)
    C = Claims(P)
    crates = set(prog.crates) - {"sip_testkit"}
    byf = by_field(prog, eng, crates)
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    for rnd in range(2):
        for (a, f), l in sorted(byf.items()):
            ty = prog.field_ty(a, None, f)
            if ty is None or "Error" in a:
                continue
            k = kind(ty)
            if k is None:
                continue
            base = k.split(":")[-1]
            out = []
            for role in [""] + roles(ty, k):
                qs = ["len", "chars"] if base == "str" or role else ["max"] if base == "num" else ["len"]
                for q in qs:
                    m, w = infer(C, l, (a, f, role), k, q)
                    if m is None:
                        out.append(f"{role}{q}:? [{strip_generics(w.fn.id)} {w.how}] ")
                    elif q == "chars" and m == FULL:
                        pass
                    else:
                        out.append(f"{role}{q}: {m}")
            if rnd == 1 and pat in a:
                print(a, f, k, "  ".join(out))
