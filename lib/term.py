"""Hash-consed symbolic terms with algebraic normalisation."""


class T:
    __slots__ = ("op", "a", "id", "dep", "__weakref__")

    def __init__(self, op, a, i, dep):
        self.op, self.a, self.id, self.dep = op, a, i, dep

    def __hash__(self):
        return self.id

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        raise TypeError("terms are not picklable")

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
# dep bits: 1 = mentions an argument, 2 = mentions a program point (site)


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        dep = 0
        if op == "ref":
            dep = 3
        elif op in ("arg", "carg"):
            dep = 1
        elif op in ("icall", "ipost", "phi", "top"):
            dep = 2
        for x in a:
            if isinstance(x, T):
                dep |= x.dep
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        dep |= y.dep
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, T):
                                dep |= z.dep
        t = T(op, a, len(_tab), dep)
        _tab[k] = t
    return t


TRUE, FALSE = mk("bool", True), mk("bool", False)
UNIT = mk("tuple")
NONE_ = mk("none")
OPTION = "core::option::Option"
RESULT = "core::result::Result"
CFLOW = "core::ops::control_flow::ControlFlow"
POLL = "core::task::poll::Poll"
BINARY = {"Some": "None", "None": "Some", "Ok": "Err", "Err": "Ok", "Continue": "Break", "Break": "Continue",
          "Ready": "Pending", "Pending": "Ready"}


def Int(n):
    return mk("int", int(n))


def Str(s):
    return mk("str", s)


def adt(path, var, names, vals):
    return mk("adt", path, var, tuple(names), *vals)


def Some(x):
    return mk("adt", OPTION, "Some", ("0",), x)


NoneT = mk("adt", OPTION, "None", ())


def Ok(x):
    return mk("adt", RESULT, "Ok", ("0",), x)


def Err(x):
    return mk("adt", RESULT, "Err", ("0",), x)


def call(name, *args):
    return simp_call(name, args)


def simp_call(name, args):
    if name == "len":
        (x,) = args
        if x.op == "str":
            return Int(len(x.a[0].encode("utf-8", "surrogatepass")))
        if x.op == "bytes":
            return Int(len(x.a[0]))
        if x.op == "array":
            return Int(len(x.a))
        if x.op == "call":
            n = x.a[0]
            if n in ("as_bytes", "into_bytes", "from_utf8_lossy_same", "iter_slice", "String::into_bytes", "str::into_string"):
                return simp_call("len", (x.a[1],))
            if n in ("Vec::new", "String::new", "HashMap::new", "HashSet::new", "VecDeque::new", "BTreeMap::new",
                     "Vec::with_capacity", "String::with_capacity", "HashMap::with_capacity", "Bytes::new",
                     "SmolStr::default", "HashSet::with_capacity", "BytesMut::with_capacity", "BytesMut::new"):
                return Int(0)
            if n == "slice":
                s, lo, hi = x.a[1:]
                hi = simp_call("len", (s,)) if hi is NONE_ else hi
                return hi if lo is NONE_ else binop("Sub", hi, lo)
        if x.op == "post" and x.a[0] in ("Vec::push", "VecDeque::push_back", "VecDeque::push_front") and x.a[1] == 0:
            return binop("Add", simp_call("len", (x.a[2],)), Int(1))
    if name == "as_bytes" and args[0].op == "str":
        return mk("bytes", tuple(args[0].a[0].encode("utf-8", "surrogatepass")))
    if name == "eq_ignore_ascii_case":
        a, b = args
        if a is b:
            return TRUE
        if a.op == "str" and b.op == "str":
            return TRUE if a.a[0].lower() == b.a[0].lower() else FALSE
        if a.op == "str" or (b.op != "str" and b.id < a.id):
            args = (b, a)
    if name in ("str::to_ascii_lowercase", "str::to_lowercase") and args[0].op == "str":
        return Str(args[0].a[0].lower())
    if name in ("str::to_ascii_uppercase", "str::to_uppercase") and args[0].op == "str":
        return Str(args[0].a[0].upper())
    if name in ("str::trim",) and args[0].op == "str":
        return Str(args[0].a[0].strip())
    if name in ("Duration::as_secs", "Duration::is_zero") and args[0].op == "call" and args[0].a[0] == "Duration::from_secs":
        return args[0].a[1] if name == "Duration::as_secs" else binop("Eq", args[0].a[1], Int(0))
    if name == "min" and all(x.op == "int" for x in args):
        return Int(min(x.a[0] for x in args))
    if name == "max" and all(x.op == "int" for x in args):
        return Int(max(x.a[0] for x in args))
    return mk("call", name, *args)


def _const(t):
    return t.op in ("int", "bool", "str", "char", "bytes", "float")


def binop(op, a, b):
    if op in ("Gt", "Ge"):
        return binop({"Gt": "Lt", "Ge": "Le"}[op], b, a)
    if op == "Ne":
        return notop(binop("Eq", a, b))
    if op in ("Eq", "Lt", "Le"):
        # how many items satisfy p, compared with none
        for x, y, some in ((a, b, (op == "Le" and b.op == "int" and b.a[0] == 0) and "no" or op == "Lt" and b.op == "int" and b.a[0] == 1 and "no" or op == "Eq" and b.op == "int" and b.a[0] == 0 and "no"),
                           (b, a, op == "Lt" and a.op == "int" and a.a[0] == 0 and "yes" or op == "Le" and a.op == "int" and a.a[0] == 1 and "yes" or op == "Eq" and a.op == "int" and a.a[0] == 0 and "no")):
            if some and x.op == "call" and x.a[0] == "Iterator::count" and x.a[1].op == "call" and x.a[1].a[0] == "Iterator::filter" and len(x.a[1].a) == 3:
                t = mk("call", "Iterator::any", x.a[1].a[1], x.a[1].a[2])
                return t if some == "yes" else notop(t)
    if op in ("AddUnchecked", "SubUnchecked", "MulUnchecked"):
        op = op[:3]
    if a.op in ("int", "char") and b.op in ("int", "char"):
        x, y = a.a[0], b.a[0]
        if op == "Add":
            return Int(x + y)
        if op == "Sub":
            return Int(x - y)
        if op == "Mul":
            return Int(x * y)
        if op == "Div" and y:
            return Int(x // y)
        if op == "Rem" and y:
            return Int(x % y)
        if op == "Eq":
            return TRUE if x == y else FALSE
        if op == "Lt":
            return TRUE if x < y else FALSE
        if op == "Le":
            return TRUE if x <= y else FALSE
        if op == "BitAnd":
            return Int(x & y)
        if op == "BitOr":
            return Int(x | y)
        if op == "BitXor":
            return Int(x ^ y)
        if op == "Shl":
            return Int(x << y)
        if op == "Shr":
            return Int(x >> y)
    if op == "Eq":
        if a is b:
            return TRUE
        if a.op == "bool":
            a, b = b, a
        if b.op == "bool":
            return a if b.a[0] else notop(a)
        if a.op == "str" and b.op == "str":
            return FALSE
        if a.op == "adt" and b.op == "adt":
            if a.a[1] != b.a[1]:
                return FALSE
            if len(a.a) == len(b.a) >= 4 and a.a[:3] == b.a[:3]:
                return conj([binop("Eq", x, y) for x, y in zip(a.a[3:], b.a[3:])])
        if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a) > 0:
            return conj([binop("Eq", x, y) for x, y in zip(a.a, b.a)])
        for x, y in ((a, b), (b, a)):
            if x.op == "adt" and x.a[1] is None and len(x.a) > 3 and y.op in ("field", "arg", "vf", "call", "phi"):
                return conj([binop("Eq", v, proj(y, ("f", n))) for n, v in zip(x.a[2], x.a[3:])])
        if a.op == "adt" and b.op != "adt":
            a, b = b, a
        if b.op == "adt" and b.a[1] is not None and len(b.a) == 3:
            return is_(a, b.a[1])
        if b.op == "int" and b.a[0] == 0 and a.op == "bin" and a.a[0] == "Sub":
            pass
        if _const(a) and not _const(b):
            a, b = b, a
        elif not _const(b) and b.id < a.id:
            a, b = b, a
        return mk("bin", "Eq", a, b)
    if op in ("BitAnd", "BitOr"):
        for x, y in ((a, b), (b, a)):
            if x.op == "bool":
                if op == "BitAnd":
                    return y if x.a[0] else FALSE
                return TRUE if x.a[0] else y
    if op == "Add" and b.op == "int" and a.op == "bin" and a.a[0] == "Add" and a.a[2].op == "int":
        return binop("Add", a.a[1], Int(a.a[2].a[0] + b.a[0]))
    if op == "Add" and a.op == "int":
        a, b = b, a
    if op in ("Add", "Sub") and b.op == "int" and b.a[0] == 0:
        return a
    if op in ("Lt",) and a is b:
        return FALSE
    if op == "Le" and a is b:
        return TRUE
    return mk("bin", op, a, b)


def conj(ts):
    r = ts[0]
    for t in ts[1:]:
        r = binop("BitAnd", r, t)
    return r


def notop(a):
    if a.op == "bool":
        return FALSE if a.a[0] else TRUE
    if a.op == "not":
        return a.a[0]
    if a.op == "is" and a.a[1] in BINARY:
        return mk("is", a.a[0], BINARY[a.a[1]])
    if a.op == "bin" and a.a[0] == "Lt":
        return mk("bin", "Le", a.a[2], a.a[1])
    if a.op == "bin" and a.a[0] == "Le":
        return mk("bin", "Lt", a.a[2], a.a[1])
    return mk("not", a)


def is_(t, var):
    if t.op == "adt" and t.a[1] is not None:
        return TRUE if t.a[1] == var else FALSE
    if t.op == "upd":
        return is_(t.a[0], var)
    return mk("is", t, var)


def proj(b, e):
    """e: ('f',name) | ('v',variant,name) | ('i',T) | ('ci',off,fromend) | ('ss',..)"""
    k = e[0]
    op = b.op
    if op == "upd":
        base, e2, v = b.a
        if e2 == e:
            return v
        if e2[0] == e[0] and k in ("f", "v"):
            return proj(base, e)
        if k == "f" and e2[0] == "v" or k == "v" and e2[0] == "f":
            return proj(base, e)
    elif op == "adt":
        if k == "f":
            names = b.a[2]
            if e[1] in names:
                return b.a[3 + names.index(e[1])]
        elif k == "v":
            if b.a[1] == e[1] and e[2] in b.a[2]:
                return b.a[3 + b.a[2].index(e[2])]
    elif op in ("tuple",):
        if k == "f" and e[1].isdigit() and int(e[1]) < len(b.a):
            return b.a[int(e[1])]
    elif op in ("closure", "coroutine"):
        if k == "f" and e[1].isdigit() and 1 + int(e[1]) < len(b.a):
            return b.a[1 + int(e[1])]
    elif k == "ss" and e[3] and op != "array":
        # the rest of a slice pattern
        hi = NONE_ if e[2] == 0 else binop("Sub", simp_call("len", (b,)), Int(e[2]))
        return simp_call("slice", (b, NONE_ if e[1] == 0 else Int(e[1]), hi))
    elif op == "array":
        if k == "ci" and not e[2] and e[1] < len(b.a):
            return b.a[e[1]]
        if k == "i" and e[1].op == "int" and e[1].a[0] < len(b.a):
            return b.a[e[1].a[0]]
    if k == "f":
        return mk("field", b, e[1])
    if k == "v":
        return mk("vf", b, e[1], e[2])
    if k == "i":
        return mk("idx", b, e[1])
    if k == "ci":
        if not e[2]:
            return mk("idx", b, Int(e[1]))
        return mk("idxend", b, Int(e[1]))
    return mk("proj", b, e)


def upd(b, e, v):
    if b.op == "adt" and e[0] in ("f", "v"):
        nm = e[1] if e[0] == "f" else e[2]
        if (e[0] == "f" or b.a[1] == e[1]) and nm in b.a[2]:
            i = 3 + b.a[2].index(nm)
            return mk("adt", *(b.a[:i] + (v,) + b.a[i + 1:]))
    if b.op == "tuple" and e[0] == "f" and e[1].isdigit() and int(e[1]) < len(b.a):
        i = int(e[1])
        return mk("tuple", *(b.a[:i] + (v,) + b.a[i + 1:]))
    if b.op == "upd" and b.a[1] == e and e[0] in ("f", "v"):
        return mk("upd", b.a[0], e, v)
    return mk("upd", b, e, v)


def updpath(b, path, v):
    if not path:
        return v
    if len(path) == 1:
        return upd(b, path[0], v)
    return upd(b, path[0], updpath(proj(b, path[0]), path[1:], v))


def projpath(b, path):
    for e in path:
        b = proj(b, e)
    return b


def show(t, depth=0, lim=7):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth + 1, lim) for x in t) + ")"
        return str(t)
    if depth > lim:
        return "…"
    d = depth + 1
    op, a = t.op, t.a
    if op == "int":
        return str(a[0])
    if op == "bool":
        return str(a[0])
    if op == "str":
        return repr(a[0])
    if op == "char":
        return "c" + repr(chr(a[0]))
    if op == "arg":
        return f"arg{a[0]}"
    if op == "field":
        return f"{show(a[0], d, lim)}.{a[1]}"
    if op == "vf":
        return f"{show(a[0], d, lim)}@{a[1]}.{a[2]}"
    if op == "call":
        return f"{a[0]}({', '.join(show(x, d, lim) for x in a[1:])})"
    if op == "icall":
        return f"{a[0]}!{a[1][-1][1] if a[1] else ''}({', '.join(show(x, d, lim) for x in a[2:])})"
    if op == "post":
        return f"post[{a[0]}#{a[1]}]({', '.join(show(x, d, lim) for x in a[2:])})"
    if op == "ipost":
        return f"post![{a[0]}#{a[1]}]({', '.join(show(x, d, lim) for x in a[3:])})"
    if op == "bin":
        s = {"Add": "+", "Sub": "-", "Eq": "==", "Lt": "<", "Le": "<=", "Mul": "*"}.get(a[0], a[0])
        return f"({show(a[1], d, lim)} {s} {show(a[2], d, lim)})"
    if op == "not":
        return f"!{show(a[0], d, lim)}"
    if op == "is":
        return f"is({show(a[0], d, lim)},{a[1]})"
    if op == "adt":
        nm = a[0].split("::")[-1] + ("::" + a[1] if a[1] else "")
        return nm + ("{" + ", ".join(f"{n}:{show(x, d, lim)}" for n, x in zip(a[2], a[3:])) + "}" if len(a) > 3 else "")
    if op == "tuple":
        return "(" + ", ".join(show(x, d, lim) for x in a) + ")"
    if op == "phi":
        return f"phi<{a[0][-1][1] if a[0] else ''}:{show(a[1], d, lim)}>"
    return f"{op}[{', '.join(show(x, d, lim) for x in a)}]"
