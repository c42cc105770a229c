"""Models of the standard-library calls the analysed code is built from."""
from term import *
import absint

STR = {"str", "alloc::string::String", "smol_str::SmolStr"}


def stringish(t):
    if t is None:
        return False
    t = t.peel()
    return t.s in STR or t.s.startswith("alloc::borrow::Cow<") or t.s in ("alloc::boxed::Box<str>", "alloc::sync::Arc<str>")


def text_conversion(an, f, c):
    """the function given to map only turns one kind of text into another"""
    if f.op != "fn" or f.a[0] not in ("core::convert::From::from", "core::convert::Into::into") or not c:
        return False
    ga = [an.fn.tys[i] for i in c.get("ga") or ()]
    return len(ga) >= 2 and stringish(ga[0]) and stringish(ga[1])


def split_opt(an, st, v):
    return split(an, st, v, OPTION, ("Some", "None"))


def split_res(an, st, v):
    return split(an, st, v, RESULT, ("Ok", "Err"))


def split(an, st, v, path, vs):
    e = an.e
    v = e.deref(st, v)
    out = []
    for x in vs:
        f = e.add_fact(st.facts, is_(v, x), True)
        if f is None:
            continue
        f = an.inject(f, v, x)
        out.append((absint.St(dict(st.env), f), x, proj(v, ("v", x, "0")) if x != "None" else None))
    return out


def dty(an, c):
    if c is None:
        return None
    d = c.get("d")
    if isinstance(d, int):
        return an.fn.lty(d)
    return None


def is_opt(an, v, t):
    return False


def ctor(an, f, args):
    p = absint.strip_generics(f)
    last = p.split("::")[-1]
    if p in ("core::option::Option::Some",):
        return Some(args[0])
    if p == "core::result::Result::Ok":
        return Ok(args[0])
    if p == "core::result::Result::Err":
        return Err(args[0])
    a = an.e.adt_variants.get(p)
    if a is not None and a["kind"] == "struct":
        return adt(p, None, [str(i) for i in range(len(args))], args)
    par = "::".join(p.split("::")[:-1])
    a = an.e.adt_variants.get(par)
    if a is not None and a["kind"] == "enum" and any(v["name"] == last for v in a["variants"]):
        return adt(par, last, [str(i) for i in range(len(args))], args)
    return None


PANIC_UNWRAP = {"Option::unwrap": "None", "Option::expect": "None", "Result::unwrap": "Err", "Result::expect": "Err",
                "Result::unwrap_err": "Ok", "Result::expect_err": "Ok"}
PANICS = {"panicking::panic", "panicking::panic_fmt", "panicking::panic_display", "panicking::unreachable_display",
          "panicking::assert_failed", "rt::begin_panic", "panicking::panic_explicit", "panicking::panic_str_literal",
          "rt::panic_fmt", "panicking::assert_matches_failed", "panicking::panic_nounwind", "process::exit", "process::abort", "panicking::panic_str_2015",
          "panicking::unreachable_2015", "panicking::panic_2021"}


def model(an, st, b, name, f, rid, g, args, at, site, line, c):
    e = an.e
    n = name
    meth = n.split("::")[-1]
    own = n.split("::")[0]

    def val(i):
        return e.deep(st, args[i])

    # constructors used as functions
    if g is None and c is None or own in ("Option", "Result") and meth in ("Some", "Ok", "Err"):
        k = ctor(an, f, [a for a in args])
        if k is not None:
            return [(st, k)]
    if n in ("PartialEq::eq", "PartialEq::ne", "str::eq"):
        if g is not None and not g.derived:
            s = e.summary(g)
            if s is not None:
                an.record("call", name, st, b, args, line, rid=g.id)
                rs = an.instantiate(st, b, s, args, site)
                if n == "PartialEq::ne":
                    rs = [(s2, notop(v)) for s2, v in rs]
                return rs
        t = binop("Eq", val(0), val(1))
        return [(st, notop(t) if n == "PartialEq::ne" else t)]
    if n in ("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge") and (g is None or g.derived):
        t = at[0].peel().s if at and at[0] is not None else ""
        op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[meth]
        if t in ("f64", "f32"):
            return [(st, mk("bin", "F" + op, val(0), val(1)))]
        return [(st, binop(op, val(0), val(1)))]
    if n in ("Ord::max", "cmp::max", "Ord::min", "cmp::min"):
        return [(st, call("max" if meth == "max" else "min", val(0), val(1)))]
    if n == "Ord::clamp":
        return [(st, call("min", call("max", val(0), val(1)), val(2)))]
    if own in ("Add", "Sub", "Mul") and meth in ("add", "sub", "mul") and g is None:
        an.record("call", name, st, b, args, line, rid=rid)
        return [(st, mk("call", n, val(0), val(1)))]
    if n in ("ToString::to_string",):
        t = at[0].peel() if at and at[0] is not None else None
        if t is None or t.s in STR or t.s.startswith("alloc::borrow::Cow<"):
            return [(st, args[0] if args[0].op != "ref" else val(0))]
        v = val(0)
        if v.op == "char":
            return [(st, Str(chr(v.a[0])))]
        if v.op == "int":
            return [(st, Str(str(v.a[0])))]
        g2 = e.p.fn(f"<{t.s} as core::fmt::Display>::fmt")
        if g2 is not None:
            an.record("call", "Display::fmt", st, b, [args[0]], line, rid=g2.id, extra="to_string")
        return [(st, call("to_string", v))]
    if n in ("From::from", "Into::into", "str::into", "TryFrom::try_from", "TryInto::try_into", "str::parse") and g is None:
        src = at[0] if at else None
        dst = dty(an, c)
        ga = [an.fn.tys[i] for i in c["ga"]] if c else []
        g2 = None
        if n == "From::from" and len(ga) >= 2:
            dst, src = ga[0], ga[1]
        elif n in ("Into::into", "TryInto::try_into") and len(ga) >= 2:
            src, dst = ga[0], ga[1]
            tr = "core::convert::From" if n == "Into::into" else "core::convert::TryFrom"
            m = "from" if n == "Into::into" else "try_from"
            g2 = e.p.fn(f"<{dst.s} as {tr}<{src.s}>>::{m}")
        elif n == "str::parse" and ga:
            g2 = e.p.fn(f"<{ga[0].s} as core::str::traits::FromStr>::from_str")
            if g2 is None:
                an.record("call", "str::parse", st, b, args, line, extra=ga[0].s)
                return [(st, call("parse:" + ga[0].s, val(0)))]
        if g2 is not None:
            s = e.summary(g2)
            if s is not None:
                an.record("call", short_(g2.id), st, b, args, line, rid=g2.id)
                return an.instantiate(st, b, s, args, site)
        if n in ("From::from", "Into::into"):
            if stringish(src) and stringish(dst):
                return [(st, args[0] if args[0].op != "ref" else val(0))]
            if src is not None and dst is not None and (src is dst or src.s == dst.s):
                return [(st, args[0])]
            if src is not None and dst is not None and src.s in an.W and dst.s in an.W:
                return [(st, an.cast(st, "IntToInt", val(0), dst.s, src))]
            if dst is not None and (dst.s.startswith("alloc::boxed::Box<") or dst.s.startswith("alloc::sync::Arc<")):
                return [(st, args[0])]
            if dst is not None and dst.d == OPTION:
                return [(st, Some(args[0]))]
            if dst is not None and dst.s.startswith(("alloc::vec::Vec<", "bytes::")):
                return [(st, val(0))]
            return None
        if n == "TryFrom::try_from" or n == "TryInto::try_into":
            if dst is not None and src is not None and len(ga) >= 2:
                if n == "TryFrom::try_from":
                    dst, src = ga[0], ga[1]
                v = val(0)
                if dst.s in an.W and src.s in an.W:
                    ok = mk("call", "fits:" + dst.s, v)
                    out = []
                    for bl in (True, False):
                        fs = e.add_fact(st.facts, ok, bl)
                        if fs is not None:
                            out.append((absint.St(dict(st.env), fs), Ok(v) if bl else Err(mk("const", "TryFromIntError"))))
                    return out
        return None
    if g is None and args and (n in ("Deref::deref", "DerefMut::deref_mut") or own == "RefMut" and meth in ("value", "value_mut")):
        ts = at[0].peel().s if at and at[0] is not None else ""
        if any(x in ts for x in ("::RefMut<", "MutexGuard<", "RwLockWriteGuard<")):
            v = e.deref(st, args[0])
            if meth in ("deref", "value"):
                return [(st, e.rd(st, ("O", v)))]
            return [(st, mk("ref", ("O", v), ()))]
    if n in absint.IDENT and g is None:
        if n == "Clone::clone" or n == "slice::to_vec":
            return [(st, val(0))]
        return [(st, args[0])]
    if n == "Clone::clone" and g is not None:
        return [(st, val(0))]
    if n in ("future::get_context",):
        return [(st, UNIT)]
    # ---------- Try / ControlFlow
    if n == "Try::branch":
        v = e.deref(st, args[0])
        t = at[0] if at else None
        if t is not None and t.d == OPTION or v.op == "adt" and v.a[0] == OPTION:
            out = []
            for s2, x, p in split_opt(an, st, v):
                out.append((s2, adt(CFLOW, "Continue", ("0",), (p,)) if x == "Some" else adt(CFLOW, "Break", ("0",), (NoneT,))))
            return out
        if t is not None and t.d == RESULT or v.op == "adt" and v.a[0] == RESULT:
            out = []
            for s2, x, p in split_res(an, st, v):
                out.append((s2, adt(CFLOW, "Continue", ("0",), (p,)) if x == "Ok" else adt(CFLOW, "Break", ("0",), (Err(p),))))
            return out
        return None
    if n == "FromResidual::from_residual":
        v = e.deref(st, args[0])
        d = dty(an, c)
        if v.op == "adt" and v.a[1] == "None":
            return [(st, NoneT)]
        if v.op == "adt" and v.a[1] == "Err":
            ga = [an.fn.tys[i] for i in c["ga"]] if c else []
            # error conversion through a workspace From impl
            if d is not None and d.d == RESULT and len(d.a) == 2 and at and at[0].d == RESULT:
                src, dst = at[0].a[1], d.a[1]
                if src.s != dst.s:
                    g2 = e.p.fn(f"<{dst.s} as core::convert::From<{src.s}>>::from")
                    if g2 is not None:
                        s = e.summary(g2)
                        if s is not None:
                            return [(s2, Err(x)) for s2, x in an.instantiate(st, b, s, [v.a[3]], site)]
                    return [(st, Err(call("From::from", v.a[3])))]
            return [(st, Err(v.a[3]))]
        if d is not None and d.d == OPTION:
            return [(st, NoneT)]
        if d is not None and d.d == RESULT:
            return [(st, Err(call("residual", v)))]
        return None
    # ---------- Option / Result
    if own in ("Option", "Result") and g is None:
        r = optres(an, st, b, n, own, meth, args, at, site, line, c)
        if r is not None:
            return r
    if own == "bool" and meth in ("then", "then_some"):
        out = []
        ft = e.add_fact(st.facts, val(0), True)
        if ft is not None:
            s2 = absint.St(dict(st.env), ft)
            if meth == "then":
                for s3, v in an.apply(s2, b, args[1], [], site, line):
                    out.append((s3, Some(v)))
            else:
                out.append((s2, Some(args[1])))
        ff = e.add_fact(st.facts, val(0), False)
        if ff is not None:
            out.append((absint.St(dict(st.env), ff), NoneT))
        return out
    # ---------- closures
    if n in ("FnOnce::call_once", "Fn::call", "FnMut::call_mut"):
        fv = e.deref(st, args[0])
        tup = e.deref(st, args[1]) if len(args) > 1 else UNIT
        if tup.op == "tuple":
            return an.apply(st, b, fv, list(tup.a), site, line)
        return None
    if n in ("slice::map", "array::map") and g is None and val(0).op == "array" and 0 < len(val(0).a) <= 6 and all(isinstance(x, T) for x in val(0).a):
        todo = [(st, ())]
        for x in val(0).a:
            nxt = []
            for s1, vs in todo:
                r = an.apply(s1, b, e.deref(s1, args[1]), [x], site, line)
                if r is None:
                    return None
                nxt += [(s2, vs + (v,)) for s2, v in r]
            todo = nxt
            if len(todo) > 16:
                return None
        return [(s1, mk("array", *vs)) for s1, vs in todo]
    if n == "Future::poll":
        v = e.deref(st, args[0])
        if v.op == "coroutine":
            g2 = e.p.fn(v.a[0])
            if g2 is not None:
                s = e.summary(g2)
                if s is not None:
                    an.record("call", "coroutine", st, b, [v], line, rid=g2.id)
                    return [(s2, adt(POLL, "Ready", ("0",), (x,))) for s2, x in an.instantiate(st, b, s, [v, UNIT], site)]
        return [(st, adt(POLL, "Ready", ("0",), (mk("call", "await", v),)))]
    # ---------- lengths and emptiness
    if meth == "len" and len(args) == 1 and g is None and own in ("str", "String", "Vec", "slice", "SmolStr", "Bytes", "HashMap", "HashSet",
                                                                  "VecDeque", "BTreeMap", "BTreeSet", "BytesMut", "array", "ExactSizeIterator"):
        return [(st, call("len", val(0)))]
    if meth == "is_empty" and len(args) == 1 and g is None and own in ("str", "String", "Vec", "slice", "SmolStr", "Bytes", "HashMap", "HashSet",
                                                                       "VecDeque", "BTreeMap", "BTreeSet", "BytesMut", "array"):
        return [(st, binop("Eq", call("len", val(0)), Int(0)))]
    if n in ("str::as_bytes", "String::as_bytes", "String::into_bytes", "str::bytes_", "SmolStr::as_bytes"):
        return [(st, call("as_bytes", val(0)))]
    if n in ("RangeInclusive::new",):
        return [(st, adt("core::ops::range::RangeInclusive", None, ("start", "end"), (val(0), val(1))))]
    if n in ("RangeInclusive::contains", "Range::contains", "RangeFrom::contains", "RangeToInclusive::contains", "RangeTo::contains", "RangeBounds::contains"):
        r, x = val(0), val(1)
        if r.op == "adt" and r.a[0].startswith("core::ops::range::"):
            k = r.a[0].split("::")[-1]
            parts = dict(zip(r.a[2], r.a[3:]))
            t = TRUE
            if "start" in parts:
                t = binop("BitAnd", t, binop("Le", parts["start"], x))
            if "end" in parts:
                t = binop("BitAnd", t, binop("Le" if "Inclusive" in k else "Lt", x, parts["end"]))
            return [(st, t)]
        return None
    if meth == "eq_ignore_ascii_case" and g is None:
        return [(st, call("eq_ignore_ascii_case", val(0), val(1)))]
    # ---------- indexing
    if n in ("Index::index", "IndexMut::index_mut") and g is None:
        s, i = (val(0) if n == "Index::index" else e.deep(st, args[0])), val(1)
        an.record("panic", "index", st, b, [s, i], line, extra=(at[0].peel().s, at[1].s if len(at) > 1 else ""))
        if i.op == "adt" and i.a[0].startswith("core::ops::range::"):
            lo, hi = range_bounds(i)
            v = slice_(s, lo, hi)
        else:
            v = proj(s, ("i", i))
            if v.op == "idx":
                v = e.elem(v, st.facts)
        if n == "IndexMut::index_mut" and args[0].op == "ref":
            return [(st, mk("ref", args[0].a[0], args[0].a[1] + (("i", i),)))]
        return [(st, v)]
    if meth == "get" and own in ("str", "slice", "Vec") and g is None and len(args) == 2 and val(1).op == "adt" and val(1).a[0].startswith("core::ops::range::"):
        x, (lo, hi) = val(0), range_bounds(val(1))
        n_ = call("len", x)
        fits = binop("Le", n_ if hi is NONE_ and lo is NONE_ else hi if hi is not NONE_ else lo, n_)
        if hi is not NONE_ and lo is not NONE_:
            fits = binop("BitAnd", binop("Le", lo, hi), fits)
        out = []
        f1 = e.add_fact(st.facts, fits, True)
        if f1 is not None:
            out.append((absint.St(dict(st.env), f1), Some(slice_(x, lo, hi))))
        f2 = st.facts if own == "str" else e.add_fact(st.facts, fits, False)
        if f2 is not None:
            out.append((absint.St(dict(st.env), f2), NoneT))
        return out
    if meth == "split_at" and own == "slice" and g is None:
        x, k_ = val(0), val(1)
        an.record("panic", "split_at", st, b, [x, k_], line)
        return [(st, mk("tuple", slice_(x, NONE_, k_), slice_(x, k_, NONE_)))]
    if own == "str" and meth in ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim"):
        return [(st, call(n, val(0)))]
    if n in ("IntoIterator::into_iter",) and g is None:
        t = at[0] if at else None
        if args[0].op == "ref":
            return [(st, call("iter_mut", val(0)))]
        if t is not None:
            tp = t.peel()
            if tp.d in ("alloc::vec::Vec", "std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet", "alloc::collections::vec_deque::VecDeque",
                        "alloc::collections::btree::map::BTreeMap", OPTION) or tp.k in ("slice", "array"):
                return [(st, call("iter", val(0)))]
        return [(st, args[0])]
    if meth == "iter" and own in ("slice", "Vec", "HashMap", "HashSet", "VecDeque", "BTreeMap", "array", "Option") and g is None:
        return [(st, call("iter", val(0)))]
    if n in ("HashMap::iter_mut", "slice::iter_mut", "Vec::iter_mut", "VecDeque::iter_mut"):
        an.record("call", name, st, b, args, line, rid=rid)
        return [(st, call("iter_mut", val(0)))]
    if n in ("BTreeMap::get_mut", "HashMap::get_mut") and g is None and args[0].op == "ref":
        k_ = val(1)
        got = call(own + "::get", val(0), k_)
        return [(s2, Some(an.element(args[0], k_)) if x == "Some" else NoneT) for s2, x, p in split_opt(an, st, got)]
    if n in ("BTreeMap::entry", "HashMap::entry") and g is None and args[0].op == "ref" and any("VacantEntry<" in t.s for t in an.fn.tys):
        k_ = val(1)
        got = call(own + "::get", val(0), k_)
        return [(s2, mk("adt", "Entry", "Occupied" if x == "Some" else "Vacant", ("0",), mk("adt", own + "Slot", None, ("map", "key"), args[0], k_))) for s2, x, p in split_opt(an, st, got)]
    if args and args[0].op == "adt" and (args[0].a[0] == "Entry" or args[0].a[0] in ("BTreeMapSlot", "HashMapSlot")):
        ent = args[0]
        slot = ent.a[3] if ent.a[0] == "Entry" else ent
        there = ent.a[0] == "Entry" and ent.a[1] == "Occupied"
        where_, k_ = slot.a[3:5]

        def put(s2, v):
            old = e.deep(s2, where_)
            v = e.deep(s2, v)
            kind = slot.a[0][:-4] + "::insert"
            an.record("call", kind, s2, b, [where_, k_, v], line, rid=rid)
            nv = mk("post", kind, 0, old, k_, v)
            an.mutated(s2, b, where_.a, old, nv, kind, line)
            e.wr(s2, where_.a[0], where_.a[1], nv)
            return an.element(where_, k_)
        if meth == "key":
            return [(st, k_)]
        if meth == "or_insert" and there or meth in ("or_default", "or_insert_with") and there or meth == "into_mut" and own == "OccupiedEntry":
            return [(st, an.element(where_, k_))]
        if meth == "or_insert" or meth == "insert" and own == "VacantEntry":
            return [(st, put(st, args[1]))]
        if meth == "or_default":
            return [(st, put(st, call("Default::default")))]
        if meth == "or_insert_with":
            return [(s2, put(s2, v)) for s2, v in an.apply(st, b, args[1], [], site, line)]
    if n == "Extend::extend" and g is None and len(args) == 2 and args[0].op == "ref" and len(at) == 2 and at[1] is not None and at[1].peel().d == OPTION and at[0] is not None and at[0].peel().d == "alloc::vec::Vec":
        # extending a list with an option adds what it holds, if anything
        out = []
        for s2, x, p in split_opt(an, st, args[1]):
            if x == "Some":
                old = e.deep(s2, args[0])
                p = e.deep(s2, p)
                an.record("call", "Vec::push", s2, b, [args[0], p], line, rid=rid)
                nv = mk("post", "Vec::push", 0, old, p)
                an.mutated(s2, b, args[0].a, old, nv, "Vec::push", line)
                e.wr(s2, args[0].a[0], args[0].a[1], nv)
            out.append((s2, mk("tuple")))
        return out
    if n == "Iterator::next" and g is None:
        a = args[0]
        v = e.deep(st, a)
        r = mk("call", "Iterator::next", v)
        if a.op == "ref":
            e.wr(st, a.a[0], a.a[1], mk("post", "Iterator::next", 0, v))
        return [(st, r)]
    if n == "boxed::box_assume_init_into_vec_unsafe":
        v = val(0)
        while v.op == "upd":
            v = v.a[2]
        return [(st, v)]
    # ---------- mem
    if n in ("mem::replace", "mem::swap", "mem::take"):
        if args[0].op == "ref":
            old = e.deref(st, args[0])
            nv = args[1] if n == "mem::replace" else (call("Default::default", UNIT) if n == "mem::take" else (e.deref(st, args[1]) if args[1].op == "ref" else args[1]))
            an.record("write", n, st, b, [mk("ref", *args[0].a), old, nv], line) if not isinstance(args[0].a[0], int) else None
            an.mutated(st, b, args[0].a, old, nv, "=", line)
            e.wr(st, args[0].a[0], args[0].a[1], nv)
            if n == "mem::swap" and args[1].op == "ref":
                e.wr(st, args[1].a[0], args[1].a[1], old)
            return [(st, old)]
        return None
    if n in ("mem::drop", "mem::forget"):
        return [(st, UNIT)]
    # ---------- arithmetic helpers
    if meth in ("saturating_sub", "saturating_add", "wrapping_add", "wrapping_sub", "saturating_mul") and g is None and len(args) == 2:
        a, d = val(0), val(1)
        if meth in ("saturating_add", "wrapping_add"):
            a, d = (d, a) if a.op == "int" else (a, d)
            if a.op == "call" and a.a[0] == "len" and d.op == "int" and 0 <= d.a[0] < 1 << 32:
                # a length is far below the largest usize
                return [(st, binop("Add", a, d))]
        return [(st, mk("call", meth, a, d))]
    if meth in ("checked_add", "checked_sub", "checked_mul", "checked_div") and g is None and own in an.W:
        a, d = val(0), val(1)
        op = {"checked_add": "Add", "checked_sub": "Sub", "checked_mul": "Mul", "checked_div": "Div"}[meth]
        q = mk("ovf", op, a, d) if op != "Div" else binop("Eq", d, Int(0))
        out = []
        f1 = e.add_fact(st.facts, q, False)
        if f1 is not None:
            out.append((absint.St(dict(st.env), f1), Some(binop(op, a, d))))
        f2 = e.add_fact(st.facts, q, True)
        if f2 is not None:
            out.append((absint.St(dict(st.env), f2), NoneT))
        return out
    # ---------- panics
    if n in PANICS:
        an.record("panic", "explicit:" + meth, st, b, args, line)
        return []
    if n in ("Arguments::new_const", "Arguments::from_str"):
        return [(st, mk("call", "fmt", val(0)))]
    if n == "Arguments::new":
        return [(st, fmt_pieces(val(0), val(1)))]
    if n in ("fmt::format", "format::format_inner"):
        v = val(0)
        if v.op == "call" and v.a[0] == "fmt":
            if all(x.op == "str" for x in v.a[1:]):
                return [(st, Str("".join(x.a[0] for x in v.a[1:])))]
            if len(v.a) == 2 and v.a[1].op == "call" and v.a[1].a[0] == "disp" and v.a[1].a[1].op in ("str",):
                return [(st, v.a[1].a[1])]
            return [(st, mk("call", "format", *v.a[1:]))]
        return [(st, mk("call", "format", v))]
    return None


def fmt_pieces(tmpl, args):
    """decode the compiler's format template (core::fmt::Arguments) into literal and argument pieces"""
    if tmpl.op != "bytes" or args.op not in ("array", "bytes", "tuple"):
        return mk("call", "fmt", mk("call", "disp", mk("const", "?")))
    bs = list(tmpl.a[0])
    out = []
    i = 0
    nxt = 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(Str(bytes(bs[i:i + n]).decode("utf-8", "replace")))
            i += n
        elif n == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(Str(bytes(bs[i:i + ln]).decode("utf-8", "replace")))
            i += ln
        else:
            if n & 1:
                i += 4
            if n & 2:
                i += 2
            if n & 4:
                i += 2
            if n & 8:
                nxt = bs[i] | bs[i + 1] << 8
                i += 2
            a = args.a[nxt] if nxt < len(args.a) else mk("const", "?")
            nxt += 1
            k = "disp"
            if isinstance(a, T) and a.op == "call" and a.a[0].startswith("Argument::new_"):
                if a.a[0] != "Argument::new_display":
                    k = a.a[0][14:]
                a = a.a[1]
            out.append(mk("call", k, a) if n & 7 == 0 else mk("call", k, a, Str("spec")))
    return mk("call", "fmt", *out)


def short_(x):
    return absint.short(x)


def range_bounds(i):
    k = i.a[0].split("::")[-1]
    parts = dict(zip(i.a[2], i.a[3:]))
    lo = parts.get("start", NONE_)
    hi = parts.get("end", parts.get("last", NONE_))
    if "Inclusive" in k and hi is not NONE_:
        hi = binop("Add", hi, Int(1))
    return lo, hi


def slice_(s, lo, hi):
    if lo is not NONE_ and lo.op == "int" and lo.a[0] == 0:
        lo = NONE_
    if lo is NONE_ and hi is NONE_:
        return s
    if s.op == "call" and s.a[0] == "slice":
        # a part of a part
        x, lo1, hi1 = s.a[1:]
        if hi1 is NONE_:
            up = lambda v: v if v is NONE_ else binop("Add", lo1, v) if v is not NONE_ else lo1
            return mk("call", "slice", x, lo1 if lo is NONE_ else up(lo), up(hi))
        if lo1 is NONE_ and hi is not NONE_:
            return mk("call", "slice", x, lo, hi)
        if lo1 is NONE_ and hi is NONE_:
            return mk("call", "slice", x, lo, hi1)
    return mk("call", "slice", s, lo, hi)


def optres(an, st, b, n, own, meth, args, at, site, line, c=None):
    e = an.e
    a0 = args[0] if args else None
    sp = split_opt if own == "Option" else split_res
    good = "Some" if own == "Option" else "Ok"
    wrapg = Some if own == "Option" else Ok

    def rest(x, p):
        return NoneT if x == "None" else Err(p)

    if meth in ("is_some", "is_ok", "is_none", "is_err"):
        v = e.deref(st, a0)
        return [(st, is_(v, {"is_some": "Some", "is_ok": "Ok", "is_none": "None", "is_err": "Err"}[meth]))]
    if meth in ("as_ref", "as_mut", "as_deref", "as_deref_mut", "cloned", "copied", "as_slice"):
        if meth in ("as_mut", "as_deref_mut") and a0.op == "ref":
            v = e.deref(st, a0)
            out = []
            for s2, x, p in sp(an, st, v):
                if x == good:
                    out.append((s2, wrapg(mk("ref", a0.a[0], a0.a[1] + (("v", good, "0"),)))))
                else:
                    out.append((s2, rest(x, p)))
            return out
        return [(st, e.deref(st, a0))]
    if n in PANIC_UNWRAP:
        v = e.deref(st, a0)
        bad = PANIC_UNWRAP[n]
        an.record("panic", "unwrap", st, b, [v], line, extra=(n, bad))
        goodv = BINARY[bad]
        f = e.add_fact(st.facts, is_(v, goodv), True)
        if f is None:
            return []
        st.facts = f
        return [(st, proj(v, ("v", goodv, "0")))]
    if meth == "ok":
        return [(s2, Some(p) if x == "Ok" else NoneT) for s2, x, p in split_res(an, st, a0)]
    if meth == "err":
        return [(s2, Some(p) if x == "Err" else NoneT) for s2, x, p in split_res(an, st, a0)]
    if meth == "ok_or":
        return [(s2, Ok(p) if x == "Some" else Err(args[1])) for s2, x, p in split_opt(an, st, a0)]
    if meth in ("map", "map_err", "ok_or_else", "and_then", "or_else", "unwrap_or_else", "filter", "map_or", "map_or_else",
                "is_some_and", "is_ok_and", "is_none_or", "inspect", "inspect_err", "unwrap_or", "unwrap_or_default", "or", "and", "is_err_and", "then", "take", "replace", "zip", "flatten", "insert", "get_or_insert_with", "transpose", "xor"):
        pass
    else:
        return None
    if meth in ("take", "replace", "insert", "get_or_insert_with"):
        if a0.op == "ref" and meth in ("take", "replace", "insert"):
            old = e.deref(st, a0)
            nv = NoneT if meth == "take" else Some(args[1])
            if not isinstance(a0.a[0], int):
                an.record("write", "Option::" + meth, st, b, [mk("ref", *a0.a), old, nv], line)
            an.mutated(st, b, a0.a, old, nv, "=", line)
            e.wr(st, a0.a[0], a0.a[1], nv)
            if meth == "insert":
                return [(st, mk("ref", a0.a[0], a0.a[1] + (("v", "Some", "0"),)))]
            return [(st, old)]
        return None
    out = []
    for s2, x, p in sp(an, st, a0):
        isg = x == good
        if meth == "map":
            if isg:
                if text_conversion(an, args[1], c):
                    out.append((s2, wrapg(p)))
                    continue
                out += [(s3, wrapg(v)) for s3, v in an.apply(s2, b, args[1], [p], site, line)]
            else:
                out.append((s2, rest(x, p)))
        elif meth == "map_err":
            if isg:
                out.append((s2, Ok(p)))
            else:
                out += [(s3, Err(v)) for s3, v in an.apply(s2, b, args[1], [p], site, line)]
        elif meth == "ok_or_else":
            if isg:
                out.append((s2, Ok(p)))
            else:
                out += [(s3, Err(v)) for s3, v in an.apply(s2, b, args[1], [], site, line)]
        elif meth == "and_then":
            if isg:
                out += an.apply(s2, b, args[1], [p], site, line)
            else:
                out.append((s2, rest(x, p)))
        elif meth == "and":
            out.append((s2, args[1]) if isg else (s2, rest(x, p)))
        elif meth == "or":
            out.append((s2, wrapg(p)) if isg else (s2, args[1]))
        elif meth == "or_else":
            if isg:
                out.append((s2, wrapg(p)))
            else:
                out += an.apply(s2, b, args[1], [] if own == "Option" else [p], site, line)
        elif meth == "unwrap_or_else":
            if isg:
                out.append((s2, p))
            else:
                out += an.apply(s2, b, args[1], [] if own == "Option" else [p], site, line)
        elif meth == "unwrap_or":
            out.append((s2, p if isg else args[1]))
        elif meth == "unwrap_or_default":
            d = call("Default::default", UNIT)
            if not isg:
                t = at[0] if at else None
                if t is not None and t.a:
                    q = t.a[0].s
                    if q in an.W:
                        d = Int(0)
                    elif q == "bool":
                        d = FALSE
                    elif t.a[0].peel().s in STR:
                        d = Str("")
            out.append((s2, p if isg else d))
        elif meth == "filter":
            if not isg:
                out.append((s2, NoneT))
            else:
                for s3, v in an.apply(s2, b, args[1], [p], site, line):
                    for bl in (True, False):
                        fs = e.add_fact(s3.facts, v, bl)
                        if fs is not None:
                            out.append((absint.St(dict(s3.env), fs), Some(p) if bl else NoneT))
        elif meth == "map_or":
            if isg:
                out += an.apply(s2, b, args[2], [p], site, line)
            else:
                out.append((s2, args[1]))
        elif meth == "map_or_else":
            if isg:
                out += an.apply(s2, b, args[2], [p], site, line)
            else:
                out += an.apply(s2, b, args[1], [] if own == "Option" else [p], site, line)
        elif meth in ("is_some_and", "is_ok_and"):
            if isg:
                out += an.apply(s2, b, args[1], [p], site, line)
            else:
                out.append((s2, FALSE))
        elif meth == "is_err_and":
            if not isg:
                out += an.apply(s2, b, args[1], [p], site, line)
            else:
                out.append((s2, FALSE))
        elif meth == "is_none_or":
            if isg:
                out += an.apply(s2, b, args[1], [p], site, line)
            else:
                out.append((s2, TRUE))
        elif meth in ("inspect", "inspect_err"):
            if isg == (meth == "inspect"):
                out += [(s3, wrapg(p) if isg else rest(x, p)) for s3, v in an.apply(s2, b, args[1], [p], site, line)]
            else:
                out.append((s2, wrapg(p) if isg else rest(x, p)))
        elif meth == "zip":
            if isg:
                for s3, y, q in split_opt(an, s2, args[1]):
                    out.append((s3, Some(mk("tuple", p, q)) if y == "Some" else NoneT))
            else:
                out.append((s2, NoneT))
        elif meth == "flatten":
            out.append((s2, p if isg else NoneT))
        elif meth == "transpose":
            if own == "Option":
                if isg:
                    for s3, y, q in split_res(an, s2, p):
                        out.append((s3, Ok(Some(q)) if y == "Ok" else Err(q)))
                else:
                    out.append((s2, Ok(NoneT)))
            else:
                if isg:
                    for s3, y, q in split_opt(an, s2, p):
                        out.append((s3, Some(Ok(q)) if y == "Some" else NoneT))
                else:
                    out.append((s2, Some(Err(p))))
        else:
            return None
    # after partitioning on a known value the facts are kept per state
    return out
