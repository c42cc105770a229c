"""Proof rules over symbolic terms: ordering (difference bounds), string lengths,
character sets, and element properties.  Each rule derives a bound from the
must-facts the abstract interpretation attached to a program point; phi terms are
proved by induction over their guarded inputs."""
import re
from term import *
from absint import Engine, iter_source, occurs, strip_generics

MAXC = 0x110000


class CS:
    """set of characters as sorted disjoint half-open intervals"""
    __slots__ = ("r",)

    def __init__(self, r):
        self.r = tuple(r)

    @staticmethod
    def norm(rs):
        out = []
        for a, b in sorted(rs):
            if a >= b:
                continue
            if out and a <= out[-1][1]:
                if b > out[-1][1]:
                    out[-1] = (out[-1][0], b)
            else:
                out.append((a, b))
        return CS(out)

    def __or__(self, o):
        return CS.norm(self.r + o.r)

    def inv(self):
        out = []
        p = 0
        for a, b in self.r:
            if p < a:
                out.append((p, a))
            p = b
        if p < MAXC:
            out.append((p, MAXC))
        return CS(out)

    def __and__(self, o):
        return (self.inv() | o.inv()).inv()

    def __sub__(self, o):
        return self & o.inv()

    def __contains__(self, c):
        return any(a <= c < b for a, b in self.r)

    def subset(self, o):
        return not (self & o.inv()).r

    def __eq__(self, o):
        return isinstance(o, CS) and self.r == o.r

    def __hash__(self):
        return hash(self.r)

    def __repr__(self):
        def c(x):
            return chr(x) if 33 <= x < 127 else f"\\x{x:02x}"
        return "[" + "".join(c(a) if b == a + 1 else f"{c(a)}-{c(b - 1)}" for a, b in self.r) + "]"


def chars(s):
    return CS.norm([(ord(c), ord(c) + 1) for c in s])


def rng(a, b):
    return CS([(a, b + 1)])


FULL = CS([(0, MAXC)])
EMPTY = CS([])
ASCII = rng(0, 127)
NONASCII = rng(128, MAXC - 1)
DIGIT = rng(48, 57)
UPPER = rng(65, 90)
LOWER = rng(97, 122)
ALPHA = UPPER | LOWER
ALNUM = ALPHA | DIGIT
CTL = rng(0, 31) | rng(127, 127)
C1 = rng(0x80, 0x9f)
CRLFNUL = chars("\r\n\0")
GRAPHIC = rng(33, 126)
PUNCT = GRAPHIC - ALNUM
WS_ASCII = chars(" \t\n\r\x0b\x0c")
WS_NON = CS.norm([(0x85, 0x86), (0xa0, 0xa1), (0x1680, 0x1681), (0x2000, 0x200b), (0x2028, 0x202a), (0x202f, 0x2030), (0x205f, 0x2060), (0x3000, 0x3001)])
CLASS = {
    "is_ascii_digit": DIGIT, "is_ascii_alphabetic": ALPHA, "is_ascii_alphanumeric": ALNUM, "is_ascii_uppercase": UPPER,
    "is_ascii_lowercase": LOWER, "is_ascii_hexdigit": DIGIT | chars("abcdefABCDEF"), "is_ascii_graphic": GRAPHIC,
    "is_ascii_punctuation": PUNCT, "is_ascii_whitespace": chars(" \t\n\r\x0c"), "is_ascii_control": CTL, "is_ascii": ASCII,
    "is_control": CTL | C1, "is_whitespace": WS_ASCII | WS_NON,
}
# over/under pairs for classes we do not know exactly: (must, may)
CLASS2 = {"is_alphanumeric": (ALNUM, ALNUM | NONASCII), "is_alphabetic": (ALPHA, ALPHA | NONASCII), "is_numeric": (DIGIT, DIGIT | NONASCII),
          "is_lowercase": (LOWER, LOWER | NONASCII), "is_uppercase": (UPPER, UPPER | NONASCII)}


class Prover:
    def __init__(self, eng):
        self.e = eng
        self.p = eng.p
        self.path = None
        self.pset = {}
        self.hyp = lambda t, kind: None     # assumption oracle for fields of invariant-bearing types
        self.work = 0
        self.fn = None

    # ------------------------------------------------------------- types
    def ty(self, t, d=0):
        """static type of a term in the current function, peeled of references"""
        if self.fn is None or d > 12:
            return None
        if t.op == "arg":
            i = t.a[0]
            if 1 <= i <= self.fn.argc:
                return self.fn.lty(i).peel()
            return None
        r = self.e.tty.get(self.fn.id, {}).get(t)
        if r is not None:
            return r.peel()
        if t.op == "field":
            b = self.ty(t.a[0], d + 1)
            if b is None:
                return None
            if b.k == "tuple" and t.a[1].isdigit() and int(t.a[1]) < len(b.a):
                return b.a[int(t.a[1])].peel()
            f = self.p.field_ty(b.d, None, t.a[1]) if b.d else None
            return f.peel() if f is not None else None
        if t.op == "vf":
            b = self.ty(t.a[0], d + 1)
            if b is None:
                return None
            if b.d == OPTION and t.a[1] == "Some" or b.d == RESULT and t.a[1] == "Ok":
                return b.a[0].peel()
            if b.d == RESULT and t.a[1] == "Err":
                return b.a[1].peel()
            f = self.p.field_ty(b.d, t.a[1], t.a[2]) if b.d else None
            return f.peel() if f is not None else None
        if t.op == "idx":
            b = self.ty(t.a[0], d + 1)
            if b is not None and b.d == "alloc::vec::Vec" or b is not None and b.k in ("slice", "array"):
                return b.a[0].peel()
        if t.op == "upd":
            return self.ty(t.a[0], d + 1)
        if t.op in ("post",) and len(t.a) > 2:
            return self.ty(t.a[2], d + 1)
        if t.op == "phi":
            for x in self.e.phi_inputs(t):
                if x.op != "phi":
                    r = self.ty(x, d + 3)
                    if r is not None:
                        return r
        return None

    def tys(self, t):
        r = self.ty(t)
        return r.s if r is not None else None

    def is_num(self, t):
        return self.e.is_num(t) or t.op == "disc" or self.tys(t) in Engine.NUM

    # ----- character predicates
    def path_engine(self):
        if self.path is None:
            self.path = Engine(self.p)
            self.path.pathmode = True
        return self.path

    def predset(self, f, pol):
        """over-approximation of {c : f(c) can be pol}"""
        k = (f, pol)
        if k in self.pset:
            return self.pset[k]
        r = FULL
        if f.op == "char":
            r = CS([(f.a[0], f.a[0] + 1)])
            r = r if pol else r.inv()
        elif f.op == "int":
            r = CS([(f.a[0], f.a[0] + 1)])
            r = r if pol else r.inv()
        elif f.op == "str":
            r = chars(f.a[0]) if len(f.a[0]) == 1 else FULL
            if len(f.a[0]) == 1:
                r = r if pol else r.inv()
        elif f.op in ("array",):
            if all(x.op in ("char", "int") for x in f.a):
                r = CS.norm([(x.a[0], x.a[0] + 1) for x in f.a])
                r = r if pol else r.inv()
        elif f.op == "bytes":
            r = CS.norm([(x, x + 1) for x in f.a[0]])
            r = r if pol else r.inv()
        elif f.op == "closure" or f.op == "fn":
            self.pset[k] = FULL
            g = self.p.fn(f.a[0])
            if g is not None:
                pe = self.path_engine()
                s = pe.summary(g)
                v = mk("arg", 2 if f.op == "closure" else 1)
                if s is not None:
                    r = EMPTY
                    sub = None
                    if f.op == "closure" and any(x.op == "closure" for x in f.a[1:]):
                        # what it captures is looked through
                        v = mk("sym", "item of " + f.a[0])
                        sub = pe.substituter({1: f, 2: v}, ((f.op, g.id),))
                    for o in s.outcomes:
                        cs = FULL
                        ret = o.ret
                        if sub is not None:
                            ret = sub(ret)
                            o = Outcome_(ret, [(sub(t), b) for t, b in o.facts])
                        if ret.op == "bool" and ret.a[0] != pol:
                            continue
                        for t, b in o.facts:
                            cs = cs & self.atom(t, b, v)
                        if ret.op != "bool":
                            cs = cs & self.atom(ret, pol, v)
                        r = r | cs
            else:
                m = strip_generics(f.a[0]).split("::")[-1]
                if m in CLASS:
                    r = CLASS[m] if pol else CLASS[m].inv()
                elif m in CLASS2:
                    r = CLASS2[m][1] if pol else CLASS2[m][0].inv()
        self.pset[k] = r
        return r

    def atom(self, t, b, v):
        """characters v for which fact (t,b) can hold"""
        if t.op == "not":
            return self.atom(t.a[0], not b, v)
        if t.op == "or":
            # one of several conjunctions (or, when b is false, none of them)
            r = EMPTY if b else FULL
            for d in t.a:
                c = FULL if b else EMPTY
                for x, xb in d:
                    c = c & self.atom(x, xb, v) if b else c | self.atom(x, not xb, v)
                r = r | c if b else r & c
            return r
        if t.op == "bin":
            o, x, y = t.a
            if o == "Eq" and x is v and y.op in ("char", "int"):
                s = CS([(y.a[0], y.a[0] + 1)])
                return s if b else s.inv()
            if o in ("Lt", "Le"):
                d = 1 if o == "Le" else 0
                if x is v and y.op in ("char", "int"):
                    s = CS.norm([(0, y.a[0] + d)])
                    return s if b else s.inv()
                if y is v and x.op in ("char", "int"):
                    s = CS.norm([(x.a[0] + 1 - d, MAXC)])
                    return s if b else s.inv()
            if o == "BitAnd":
                if b:
                    return self.atom(x, True, v) & self.atom(y, True, v)
                return self.atom(x, False, v) | self.atom(y, False, v)
            if o == "BitOr":
                if b:
                    return self.atom(x, True, v) | self.atom(y, True, v)
                return self.atom(x, False, v) & self.atom(y, False, v)
        if t.op == "call":
            n = t.a[0]
            m = n.split("::")[-1]
            if len(t.a) == 2 and t.a[1] is v:
                if m in CLASS:
                    return CLASS[m] if b else CLASS[m].inv()
                if m in CLASS2:
                    return CLASS2[m][1] if b else CLASS2[m][0].inv()
            if n in ("str::contains", "slice::contains") and t.a[2] is v:
                s = t.a[1]
                if s.op == "str":
                    r = chars(s.a[0])
                    return r if b else r.inv()
                if s.op in ("array", "bytes"):
                    r = self.predset(s, True)
                    return r if b else r.inv()
            if n == "apply" and t.a[2] is v:
                return self.predset(t.a[1], b)
        if t.op == "is" and t.a[0].op == "call" and t.a[0].a[0] == "str::find" and t.a[0].a[2] is v and t.a[0].a[1].op == "str":
            r = chars(t.a[0].a[1].a[0])
            return r if (t.a[1] == "Some") == b else r.inv()
        return FULL

    def closed(self, t, b, item, facts):
        """atom, with helper closures applied to the item looked through"""
        return self.atom(t, b, item)

    CHARSRC = {"str::chars", "str::char_indices", "str::bytes", "iter", "Iterator::enumerate", "Iterator::peekable", "Iterator::rev", "Iterator::copied"}

    def char_source(self, t):
        """the string whose characters an iterator term yields, and a projector of the item"""
        k = None
        n = 0
        while t.op == "call" and n < 6:
            f = t.a[0]
            if f in ("str::chars", "str::bytes"):
                return t.a[1], k
            if f == "str::char_indices":
                return t.a[1], "1"
            if f == "iter" and t.a[1].op == "call" and t.a[1].a[0] == "as_bytes":
                return t.a[1].a[1], k
            if f == "iter":
                return t.a[1], k
            if f == "Iterator::enumerate":
                k = "1"
            elif f not in ("Iterator::peekable", "Iterator::rev", "Iterator::copied", "Iterator::cloned", "Iterator::by_ref"):
                return None, None
            t = t.a[1]
            n += 1
        return None, None

    def facts_charset(self, t, facts):
        """restriction of the characters of string t implied by the facts"""
        cs = FULL
        for u, b in facts:
            if u.op == "call":
                n = u.a[0]
                if n == "str::contains" and u.a[1] is t and not b:
                    cs = cs & self.predset(u.a[2], False)
                elif n == "slice::contains" and not b and u.a[1].op == "call" and u.a[1].a[0] == "as_bytes" and u.a[1].a[1] is t:
                    if u.a[2].op == "int" and u.a[2].a[0] < 128:
                        cs = cs & CS([(u.a[2].a[0], u.a[2].a[0] + 1)]).inv()
                elif n in ("Iterator::any", "Iterator::all"):
                    pol = n == "Iterator::all"
                    if b == pol:
                        it, out = u.a[1], EMPTY
                        while it.op == "call" and it.a[0] == "Iterator::filter":
                            # what is filtered out is not looked at
                            out = out | self.lift(self.predset(it.a[2], False), it.a[1])
                            it = it.a[1]
                        src, k = self.char_source(it)
                        if src is t and k is None:
                            cs = cs & (out | self.lift(self.predset(u.a[2], pol), it))
                elif n == "str::is_ascii" and u.a[1] is t and b:
                    cs = cs & ASCII
            elif u.op == "is" and b and u.a[1] == "None" and u.a[0].op == "call":
                v = u.a[0]
                if v.a[0] in ("str::find", "str::rfind") and v.a[1] is t:
                    cs = cs & self.predset(v.a[2], False)
                elif v.a[0] in ("Iterator::find", "Iterator::position"):
                    src, k = self.char_source(v.a[1])
                    if src is t and k is None:
                        cs = cs & self.lift(self.predset(v.a[2], False), v.a[1])
            elif u.op == "forall" and b:
                src, k = self.char_source(u.a[0])
                if src is t:
                    item = mk("bound", 0)
                    if k is not None:
                        item = proj(item, ("f", k))
                    c2 = FULL
                    for w, wb in u.a[1]:
                        c2 = c2 & self.atom(w, wb, item)
                    cs = cs & self.lift(c2, u.a[0])
            elif u.op == "bin" and u.a[0] == "Eq" and b and u.a[1] is t and u.a[2].op == "str":
                cs = cs & chars(u.a[2].a[0])
            elif u.op == "bin" and u.a[0] == "Eq" and b and u.a[2].op == "int" and u.a[2].a[0] == 0 and u.a[1].op == "call" and u.a[1].a[0] == "len" and u.a[1].a[1] is t:
                cs = EMPTY
        return cs

    def lift(self, cs, src):
        """byte-level restriction seen at character level"""
        s = src
        while s.op == "call" and s.a[0] not in ("str::bytes", "iter", "str::chars", "str::char_indices"):
            s = s.a[1]
        if s.op == "call" and (s.a[0] == "str::bytes" or s.a[0] == "iter"):
            if (cs & rng(128, 255)).r:
                return (cs & ASCII) | NONASCII
            return cs & ASCII
        return cs

    PIECE = {"str::trim", "str::trim_start", "str::trim_end", "str::trim_matches", "str::trim_start_matches", "str::trim_end_matches", "slice",
             "str::get_unchecked", "str::trim_left", "str::trim_right", "String::from_utf8_unchecked"}
    SPLITS = {"str::split", "str::splitn", "str::rsplit", "str::rsplitn", "str::split_whitespace", "str::lines", "str::split_terminator", "str::split_inclusive",
              "str::split_ascii_whitespace", "str::matches"}
    ADAPT = {"Iterator::peekable", "Iterator::enumerate", "Iterator::rev", "Iterator::skip", "Iterator::take", "Iterator::copied", "Iterator::cloned", "Iterator::fuse",
             "Iterator::skip_while", "Iterator::take_while", "Iterator::step_by", "iter", "Iterator::by_ref"}

    def base_of(self, t):
        """string this term is a substring of, or None"""
        if t.op == "call":
            n = t.a[0]
            if n in self.PIECE:
                return t.a[1]
        if t.op in ("vf", "field"):
            x = t.a[0]
            if t.op == "field" and t.a[1] in ("0", "1") and x.op == "vf":
                y = x.a[0]
                if y.op == "call" and y.a[0] in ("str::split_once", "str::rsplit_once", "str::split_at_checked") and x.a[1] == "Some":
                    return y.a[1]
            if t.op == "field" and t.a[1] in ("0", "1") and x.op == "call" and x.a[0] == "str::split_at":
                return x.a[1]
            if t.op == "vf" and x.op == "call" and t.a[1] in ("Some", "Ok"):
                n = x.a[0]
                if n in ("str::strip_prefix", "str::strip_suffix", "str::get"):
                    return x.a[1]
                if n in ("Iterator::next", "Iterator::nth", "Iterator::last", "DoubleEndedIterator::next_back", "Peekable::peek", "Iterator::find"):
                    return self.split_src(x.a[1])
                if n in ("slice::get", "slice::first", "slice::last", "Vec::get", "Vec::first", "slice::get_mut", "Vec::pop"):
                    return self.coll_src(x.a[1])
        if t.op == "idx":
            return self.coll_src(t.a[0])
        return None

    def coll_src(self, v):
        if v.op == "call" and v.a[0] == "Iterator::collect":
            return self.split_src(v.a[1])
        return None

    def split_src(self, it):
        n = 0
        while n < 12:
            n += 1
            if it.op == "call" and it.a[0] in self.SPLITS:
                return it.a[1]
            if it.op == "call" and it.a[0] in self.ADAPT:
                it = it.a[1]
                continue
            if it.op == "call" and it.a[0] in ("Iterator::filter",):
                it = it.a[1]
                continue
            if it.op == "call" and it.a[0] == "Iterator::map" and it.a[2].op == "fn" and "::trim" in it.a[2].a[0]:
                it = it.a[1]
                continue
            if it.op == "call" and it.a[0] == "Iterator::map" and it.a[2].op == "closure":
                g = self.p.fn(it.a[2].a[0])
                s = self.e.summary(g) if g else None
                if s is not None and len(s.outcomes) == 1:
                    r = s.outcomes[0].ret
                    k = 0
                    while r.op == "call" and r.a[0] in self.PIECE and k < 4:
                        r = r.a[1]
                        k += 1
                    if r.op == "arg" and r.a[0] == 2:
                        it = it.a[1]
                        continue
                return None
            if it.op in ("post", "ipost") and it.a[0] == "Iterator::next":
                it = it.a[2] if it.op == "post" else it.a[3]
                continue
            if it.op == "phi":
                s = iter_source(self.e, it)
                if s is None:
                    return None
                it = s
                continue
            if it.op == "call" and it.a[0] == "Iterator::collect":
                it = it.a[1]
                continue
            return None
        return None

    def charset(self, t, facts, seen=frozenset(), depth=0):
        """over-approximation of the characters string term t can contain"""
        self.work += 1
        if t.op == "str":
            return chars(t.a[0])
        if t.op == "char":
            return CS([(t.a[0], t.a[0] + 1)])
        cs = self.facts_charset(t, facts)
        if not cs.r or depth > 25:
            return cs
        if t.op == "call" and t.a[0] == "as_bytes":
            return cs & self.charset(t.a[1], facts, seen, depth + 1)
        h = self.hyp(t, "chars")
        if h is not None:
            cs = cs & h
        # lower-casing maps back
        b = self.base_of(t)
        if b is not None:
            r = self.charset(b, facts, seen, depth + 1)
            if t.op == "vf" and t.a[0].op == "call" and t.a[0].a[0] == "Iterator::next" or True:
                pass
            return cs & r
        if t.op == "call":
            n = t.a[0]
            if n in ("str::to_ascii_lowercase", "str::to_ascii_uppercase", "str::to_lowercase", "str::to_uppercase"):
                r = self.charset(t.a[1], facts, seen, depth + 1)
                if n.startswith("str::to_ascii"):
                    hit = r & (UPPER if "lower" in n else LOWER)
                    keep = r - hit
                    d = 32 if "lower" in n else -32
                    r = keep | CS.norm([(a + d, bb + d) for a, bb in hit.r])
                elif (r & ALPHA).r or (r & NONASCII).r:
                    r = r | ALPHA | (NONASCII if (r & NONASCII).r else EMPTY)
                return cs & r
            if n in ("format", "fmt"):
                r = EMPTY
                for x in t.a[1:]:
                    r = r | self.piece_chars(x, facts, seen, depth)
                return cs & r
            if n in ("to_string", "disp"):
                return cs & self.disp_chars(t.a[1], facts, seen, depth)
            if n in ("String::new", "String::with_capacity", "Default::default"):
                return EMPTY
            if n in ("str::replace", "str::replacen"):
                r = self.charset(t.a[1], facts, seen, depth + 1)
                if t.a[2].op == "char":
                    r = r - CS([(t.a[2].a[0], t.a[2].a[0] + 1)])
                elif t.a[2].op == "str" and len(t.a[2].a[0]) == 1:
                    r = r - chars(t.a[2].a[0])
                return cs & (r | self.charset(t.a[3], facts, seen, depth + 1))
            if n == "slice::join":
                return cs & (self.elem_chars(t.a[1], facts, seen, depth + 1) | self.charset(t.a[2], facts, seen, depth + 1))
            if n == "Iterator::collect":
                src, k = self.char_source(t.a[1])
                if src is not None and k is None:
                    return cs & self.charset(src, facts, seen, depth + 1)
                it = t.a[1]
                if it.op == "call" and it.a[0] in ("Iterator::filter", "Iterator::take_while"):
                    src, k = self.char_source(it.a[1])
                    if src is not None and k is None:
                        return cs & self.charset(src, facts, seen, depth + 1) & self.predset(it.a[2], True)
            if n in ("Add::add",):
                return cs & (self.charset(t.a[1], facts, seen, depth + 1) | self.charset(t.a[2], facts, seen, depth + 1))
            if n in ("uuid", "hex::encode", "Uuid::to_string"):
                return cs & ALNUM
        if t.op in ("post", "ipost"):
            k = 2 if t.op == "post" else 3
            n = t.a[0]
            if n in ("String::push_str", "String::push", "String::extend") and t.a[1] == 0:
                return cs & (self.charset(t.a[k], facts, seen, depth + 1) | self.charset(t.a[k + 1], facts, seen, depth + 1))
            if n in ("Write::write_fmt", "fmt::write") and t.a[1] == 0:
                return cs & (self.charset(t.a[k], facts, seen, depth + 1) | self.charset(t.a[k + 1], facts, seen, depth + 1))
            if n in ("String::clear",):
                return EMPTY
            if n in ("String::pop", "String::truncate", "String::remove", "String::reserve", "str::make_ascii_lowercase", "str::make_ascii_uppercase"):
                r = self.charset(t.a[k], facts, seen, depth + 1)
                if "make" in n and (r & ALPHA).r:
                    r = r | ALPHA
                return cs & r
        if t.op == "phi":
            if t in seen:
                return EMPTY
            ins = self.e.phi_inputs(t)
            if ins:
                r = EMPTY
                for x, f in ins.items():
                    r = r | self.charset(x, f, seen | {t}, depth + 1)
                    if r == FULL:
                        break
                return cs & r
        if t.op == "vf" and t.a[1] in ("Some", "Ok") and t.a[0].op == "phi":
            ph = t.a[0]
            if (ph, t.a[1]) in seen:
                return EMPTY
            ins = self.e.phi_inputs(ph)
            if ins:
                r = EMPTY
                for x, f in ins.items():
                    if x.op == "adt" and x.a[1] != t.a[1]:
                        continue
                    r = r | self.charset(proj(x, ("v", t.a[1], "0")), f, seen | {(ph, t.a[1])}, depth + 1)
                return cs & r
        # item of a char iterator
        if t.op == "vf" and t.a[0].op == "call" and t.a[0].a[0] in ("Iterator::next", "Peekable::peek"):
            it = t.a[0].a[1]
            if it.op == "phi":
                it = iter_source(self.e, it) or it
            src, k = self.char_source(it)
            if src is not None and k is None:
                c2 = self.charset(src, facts, seen, depth + 1)
                for u, b2 in facts:
                    c2 = c2 & self.atom(u, b2, t)
                return cs & c2
        if t.op == "field" and t.a[1] == "1" and t.a[0].op == "vf":
            x = t.a[0]
            if x.a[0].op == "call" and x.a[0].a[0] == "Iterator::next":
                it = x.a[0].a[1]
                if it.op == "phi":
                    it = iter_source(self.e, it) or it
                src, k = self.char_source(it)
                if src is not None and k == "1":
                    c2 = self.charset(src, facts, seen, depth + 1)
                    for u, b2 in facts:
                        c2 = c2 & self.atom(u, b2, t)
                    return cs & c2
        return cs

    def piece_chars(self, x, facts, seen, depth):
        if x.op == "str":
            return chars(x.a[0])
        if x.op == "call" and x.a[0] in ("disp",):
            return self.disp_chars(x.a[1], facts, seen, depth + 1) | (chars(" ") if len(x.a) > 2 else EMPTY)
        if x.op == "call" and x.a[0] in ("lower_hex", "upper_hex"):
            return ALNUM
        return FULL

    def disp_chars(self, v, facts, seen, depth):
        ty = self.tys(v)
        if v.op == "int" or self.is_num(v):
            return DIGIT | chars("-")
        if ty is not None and (ty in NUMTY):
            return DIGIT | chars("-.einfNa")
        return self.charset(v, facts, seen, depth + 1)

    def elem_chars(self, v, facts, seen, depth):
        if v.op == "array":
            r = EMPTY
            for x in v.a:
                r = r | self.charset(x, facts, seen, depth + 1)
            return r
        if v.op == "call" and v.a[0] in ("Vec::new", "Vec::with_capacity"):
            return EMPTY
        if v.op == "call" and v.a[0] == "Iterator::collect":
            b = self.split_src(v)
            if b is not None:
                return self.charset(b, facts, seen, depth + 1)
            it = v.a[1]
            if it.op == "call" and it.a[0] == "Iterator::map" and it.a[2].op == "closure":
                g = self.p.fn(it.a[2].a[0])
                s = self.e.summary(g) if g else None
                if s is not None:
                    r = EMPTY
                    for o in s.outcomes:
                        r = r | self.charset(o.ret, o.facts, seen, depth + 1)
                    return r
        if v.op == "post" and v.a[0] in ("Vec::push",) and v.a[1] == 0:
            return self.elem_chars(v.a[2], facts, seen, depth + 1) | self.charset(v.a[3], facts, seen, depth + 1)
        if v.op == "phi":
            if v in seen:
                return EMPTY
            r = EMPTY
            for x, f in self.e.phi_inputs(v).items():
                r = r | self.elem_chars(x, f, seen | {v}, depth + 1)
            return r
        h = self.hyp(v, "elemchars")
        return h if h is not None else FULL

    # ------------------------------------------------------------- ordering
    def edges(self, t, facts_idx):
        """upper-bound edges: t <= u + c"""
        out = []
        op = t.op
        if op == "bin":
            o, x, y = t.a
            if o == "Add":
                if y.op == "int":
                    out.append((x, y.a[0]))
            elif o == "Sub":
                if y.op == "int":
                    out.append((x, -y.a[0]))
                else:
                    out.append((x, 0))
            elif o in ("Div", "Shr", "Rem"):
                out.append((x, 0))
                if o == "Rem":
                    out.append((y, -1))
            elif o == "BitAnd":
                out.append((x, 0))
                out.append((y, 0))
        elif op == "call":
            n = t.a[0]
            if n == "min":
                out.append((t.a[1], 0))
                out.append((t.a[2], 0))
            elif n == "saturating_sub":
                out.append((t.a[1], 0))
            elif n == "len":
                x = t.a[1]
                b = self.base_of(x)
                if x.op == "call" and x.a[0] in ("str::to_ascii_lowercase", "str::to_ascii_uppercase"):
                    out.append((call("len", x.a[1]), 0))
                if b is not None:
                    d = 0
                    if x.op == "vf" and x.a[0].op == "call" and x.a[0].a[0] in ("str::strip_prefix", "str::strip_suffix"):
                        c = x.a[0].a[2]
                        d = -(len(c.a[0].encode()) if c.op == "str" else 1 if c.op == "char" else 0)
                    elif x.op == "field" and x.a[0].op == "vf" and x.a[0].a[0].op == "call" and x.a[0].a[0].a[0] in ("str::split_once", "str::rsplit_once"):
                        c = x.a[0].a[0].a[2]
                        d = -(len(c.a[0].encode()) if c.op == "str" else 1 if c.op == "char" else 0)
                    if x.op == "call" and x.a[0] == "slice":
                        pass
                    out.append((call("len", b), d))
                if x.op == "call" and x.a[0] == "slice":
                    lo, hi = x.a[2], x.a[3]
                    if hi is not NONE_:
                        out.append((hi, -(lo.a[0] if lo is not NONE_ and lo.op == "int" else 0)))
                    elif lo is not NONE_ and lo.op == "int":
                        out.append((call("len", x.a[1]), -lo.a[0]))
                if x.op == "post":
                    m = x.a[0]
                    if m in ("HashMap::insert", "BTreeMap::insert", "HashSet::insert", "BTreeSet::insert") and x.a[1] == 0:
                        grow = 1
                        for nm in ("contains_key", "contains"):
                            if (mk("call", m.split("::")[0] + "::" + nm, x.a[2], x.a[3]), True) in facts_idx["facts"]:
                                grow = 0
                        if (mk("is", mk("call", m.split("::")[0] + "::get", x.a[2], x.a[3]), "Some"), True) in facts_idx["facts"]:
                            grow = 0
                        out.append((call("len", x.a[2]), grow))
                    elif m in ("Vec::retain", "HashMap::remove", "BTreeMap::remove", "Vec::truncate", "Vec::pop", "Vec::dedup", "HashMap::retain", "Vec::remove",
                               "slice::sort_by", "slice::sort", "slice::reverse", "Vec::reserve", "VecDeque::pop_front", "Vec::drain", "slice::sort_by_key", "Vec::swap_remove",
                               "HashMap::get_mut", "BTreeMap::get_mut", "slice::get_mut", "slice::iter_mut", "Vec::as_mut_slice", "HashMap::reserve", "slice::swap",
                               "BTreeMap::retain", "str::make_ascii_lowercase", "Vec::iter_mut", "iter_mut") and x.a[1] == 0:
                        out.append((call("len", x.a[2]), 0))
                        if m == "Vec::truncate":
                            out.append((x.a[3], 0))
                    elif m in ("Vec::clear", "HashMap::clear", "BTreeMap::clear", "String::clear") and x.a[1] == 0:
                        out.append((ZERO, 0))
                    elif m == "Vec::insert" and x.a[1] == 0:
                        out.append((call("len", x.a[2]), 1))
                    elif m in ("String::push",) and x.a[1] == 0:
                        out.append((call("len", x.a[2]), 1 if x.a[3].op == "char" and x.a[3].a[0] < 128 else 4))
                    elif m in ("String::push_str",) and x.a[1] == 0 and x.a[3].op == "str":
                        out.append((call("len", x.a[2]), len(x.a[3].a[0].encode())))
                if x.op == "upd" and x.a[1][0] in ("i", "ci"):
                    out.append((call("len", x.a[0]), 0))
                if x.op == "call" and x.a[0] == "Iterator::collect":
                    it = x.a[1]
                    k = 0
                    while it.op == "call" and k < 8:
                        k += 1
                        if it.a[0] == "Iterator::take":
                            out.append((it.a[2], 0))
                            break
                        if it.a[0] in ("iter", ):
                            out.append((call("len", it.a[1]), 0))
                            break
                        if it.a[0] in ("Iterator::map", "Iterator::filter", "Iterator::cloned", "Iterator::copied", "Iterator::filter_map", "Iterator::enumerate", "Iterator::rev",
                                       "Iterator::take_while", "Iterator::skip", "Iterator::skip_while"):
                            it = it.a[1]
                            continue
                        break
            elif n == "Iterator::count":
                it = t.a[1]
                k = 0
                while it.op == "call" and it.a[0] in ("Iterator::filter", "Iterator::skip", "Iterator::take_while", "Iterator::map") and k < 6:
                    it = it.a[1]
                    k += 1
                if it.op == "call" and it.a[0] == "iter":
                    out.append((call("len", it.a[1]), 0))
            elif n.startswith("cast:"):
                hi = {"u8": 255, "u16": 65535, "u32": 2**32 - 1}.get(n[5:])
                if hi is not None:
                    out.append((ZERO, hi))
        elif op == "vf":
            x = t.a[0]
            if x.op == "call":
                n = x.a[0]
                if n in ("str::find", "str::rfind") and t.a[1] == "Some":
                    c = x.a[2]
                    d = len(c.a[0].encode()) if c.op == "str" else 1
                    out.append((call("len", x.a[1]), -d))
                elif n in ("Iterator::position", "slice::iter_position", "Iterator::rposition") and t.a[1] == "Some":
                    it = x.a[1]
                    k = 0
                    while it.op == "call" and k < 5:
                        if it.a[0] == "iter":
                            out.append((call("len", it.a[1]), -1))
                            break
                        if it.a[0] == "slice::windows":
                            out.append((call("len", it.a[1]), -(it.a[2].a[0] if it.a[2].op == "int" else 1)))
                            break
                        it = it.a[1]
                        k += 1
                elif n.startswith("parse:") and t.a[1] == "Ok":
                    hi = {"u8": 255, "u16": 65535, "u32": 2**32 - 1}.get(n[6:])
                    if hi is not None:
                        out.append((ZERO, hi))
        elif op == "field":
            # enumerate index / char_indices offset
            x = t.a[0]
            if t.a[1] == "0" and x.op == "vf" and x.a[1] == "Some" and x.a[0].op == "call" and x.a[0].a[0] == "Iterator::next":
                it = x.a[0].a[1]
                if it.op == "phi":
                    it = iter_source(self.e, it) or it
                if it.op == "call" and it.a[0] == "str::char_indices":
                    out.append((call("len", it.a[1]), -1))
                if it.op == "call" and it.a[0] == "Iterator::enumerate":
                    src, _ = self.char_source(it.a[1])
                    if src is not None:
                        out.append((call("len", src), -1))
        for (u, c) in facts_idx.get(t, ()):
            out.append((u, c))
        return out

    def index(self, facts):
        r = self._idx.get(facts) if hasattr(self, "_idx") else None
        if not hasattr(self, "_idx"):
            self._idx = {}
        if r is not None:
            return r
        r = {"facts": facts}
        for t, b in facts:
            if t.op != "bin":
                continue
            o, x, y = t.a
            if not b:
                if o == "Eq" and y.op == "int" and y.a[0] == 0 and self.unsigned(x):
                    # x != 0  =>  0 <= x - 1
                    r.setdefault(ZERO, []).append((x, -1))
                continue
            if o == "Lt":
                r.setdefault(x, []).append((y, -1))
            elif o == "Le":
                r.setdefault(x, []).append((y, 0))
            elif o == "Eq":
                r.setdefault(x, []).append((y, 0))
                r.setdefault(y, []).append((x, 0))
        # x + c <= y  =>  x <= y - c
        for x in list(r):
            if x == "facts":
                continue
            if x.op == "bin" and x.a[0] == "Add" and x.a[2].op == "int":
                for (y, c) in r[x]:
                    r.setdefault(x.a[1], []).append((y, c - x.a[2].a[0]))
            if x.op == "bin" and x.a[0] == "Sub" and x.a[2].op == "int":
                for (y, c) in r[x]:
                    r.setdefault(x.a[1], []).append((y, c + x.a[2].a[0]))
        # differences (that did not overflow) and quotients by constants
        ov = {t.a[1:] for t, b in facts if not b and t.op == "ovf" and t.a[0] == "Sub"}
        for x, y in ov:
            d = mk("bin", "Sub", x, y)
            r.setdefault(y, []).append((x, -1 if (mk("bin", "Eq", d, ZERO), False) in facts else 0))
        lows = [(v.a[0], y, c) for v, es in r.items() if v != "facts" and v.op == "int" for y, c in es]
        for x in list(r):
            if x == "facts":
                continue
            d = None
            if x.op == "bin" and x.a[0] == "Sub" and x.a[2].op != "int" and x.a[1:] in ov:
                d = x.a[1], x.a[2]
            elif x.op == "call" and x.a[0] == "saturating_sub" and x.a[2].op != "int":
                d = x.a[1], x.a[2]
            if d is not None:
                for y, c in r[x]:
                    if y.op == "int":
                        r.setdefault(d[0], []).append((d[1], y.a[0] + c))
            if x.op == "bin" and x.a[0] == "Div" and x.a[2].op == "int" and x.a[2].a[0] > 0:
                k = x.a[2].a[0]
                for y, c in r[x]:
                    if y.op == "int":
                        r.setdefault(x.a[1], []).append((ZERO, (y.a[0] + c) * k + k - 1))
        for v, y, c in lows:
            m = v - c    # m <= y
            if y.op == "bin" and y.a[0] == "Sub" and y.a[1:] in ov and y.a[2].op != "int" or y.op == "call" and y.a[0] == "saturating_sub" and m > 0:
                r.setdefault(y.a[2], []).append((y.a[1], -m))
            if y.op == "bin" and y.a[0] == "Div" and y.a[2].op == "int" and y.a[2].a[0] > 0 and m > 0:
                r.setdefault(ZERO, []).append((y.a[1], -m * y.a[2].a[0]))
        # len(s) >= find(s,p)+len(p), starts_with etc.
        for t, b in facts:
            if b and t.op == "call" and t.a[0] in ("str::starts_with", "str::ends_with"):
                c = t.a[2]
                d = len(c.a[0].encode()) if c.op == "str" else 1
                r.setdefault(ZERO, []).append((call("len", t.a[1]), -d))
                if c.op != "str" and c.op != "char":
                    r.setdefault(call("len", c), []).append((call("len", t.a[1]), 0))
            if b and t.op == "bin" and t.a[0] == "Eq" and t.a[2].op == "str":
                n = len(t.a[2].a[0].encode())
                r.setdefault(call("len", t.a[1]), []).append((ZERO, n))
                r.setdefault(ZERO, []).append((call("len", t.a[1]), -n))
        self._idx[facts] = r
        return r

    def unsigned(self, t):
        if t.op == "call" and t.a[0] == "len":
            return True
        ty = self.tys(t)
        return ty in ("usize", "u8", "u16", "u32", "u64", "u128") or (t.op in ("arg", "field", "vf", "phi", "icall", "call") and True)

    def upper(self, t, facts, seen=None, depth=0, off=0):
        """smallest provable integer upper bound of t, or None.  `seen` maps a loop
        variable already being bounded to the offset accumulated when it was entered;
        reaching it again without growth is the inductive case (-inf)."""
        self.work += 1
        if t.op in ("int", "char"):
            return t.a[0]
        seen = seen or {}
        idx = self.index(facts)
        best = None
        dist = {t: 0}
        work = [t]
        n = 0

        def better(v):
            nonlocal best
            if v is not None and (best is None or v < best):
                best = v
        while work and n < 400:
            x = work.pop()
            n += 1
            dx = dist[x]
            if x.op == "int":
                better(x.a[0] + dx)
                continue
            h = self.hyp(x, "max")
            if h is not None:
                better(h + dx)
            for (y, c) in self.edges(x, idx):
                d = dx + c
                if y not in dist or d < dist[y]:
                    if y in dist and n > 200:
                        continue
                    dist[y] = d
                    work.append(y)
            if depth < 14:
                if x.op == "call" and x.a[0] in ("max",):
                    a = self.upper(x.a[1], facts, seen, depth + 1, off + dx)
                    b = self.upper(x.a[2], facts, seen, depth + 1, off + dx)
                    if a is not None and b is not None:
                        better(max(a, b) + dx)
                if x.op == "bin" and x.a[0] == "Add" and x.a[2].op != "int" and depth < 6:
                    a = self.upper(x.a[1], facts, seen, depth + 1, INF)
                    b = self.upper(x.a[2], facts, seen, depth + 1, INF) if a is not None else None
                    if b is not None:
                        better(a + b + dx)
                if x.op == "call" and x.a[0] == "len":
                    v = self.len_upper(x.a[1], facts, seen, depth, off + dx)
                    if v is not None:
                        better(v + dx)
                    if best is None or depth < 3:
                        for y in self.round_index(x.a[1], facts):
                            v = self.upper(y, facts, seen, depth + 1, INF)
                            better(v + dx if v is not None else None)
                if x.op == "phi":
                    v = self.phi_upper(x, x, lambda z: z, seen, depth, off + dx)
                    if v is None and x not in seen:
                        v = self.capped(x, x, x, lambda z: z, seen, depth)
                    if v is not None:
                        better(v + dx)
                if x.op == "vf" and x.a[0].op == "phi" and x.a[1] in ("Some", "Ok"):
                    v = self.phi_upper(x, x.a[0], lambda z: None if (z.op == "adt" and z.a[1] != x.a[1]) else proj(z, ("v", x.a[1], "0")), seen, depth, off + dx)
                    if v is not None:
                        better(v + dx)
                if x.op == "field" and x.a[0].op == "phi":
                    v = self.phi_upper(x, x.a[0], lambda z: proj(z, ("f", x.a[1])), seen, depth, off + dx)
                    if v is not None:
                        better(v + dx)
            ty = self.tys(x)
            if ty in TYMAX:
                better(TYMAX[ty] + dx)
        return best

    def phi_upper(self, tag, ph, f, seen, depth, off):
        if tag in seen:
            return NINF if off <= seen[tag] else None
        ins = self.e.phi_inputs(ph)
        if not ins:
            return None
        m = NINF
        s2 = dict(seen)
        s2[tag] = off
        for x, fs in ins.items():
            y = f(x)
            if y is None or y is tag:
                continue
            u = self.upper(y, fs, s2, depth + 1, off)
            if u is None:
                return None
            m = max(m, u)
        return m

    def capped(self, t, ph, tag, f, seen, depth):
        """bound on what a loop adds to until it is equal to a number"""
        if depth > 6:
            return None
        ins = self.e.phi_inputs(ph) or {}
        s2 = dict(seen)
        s2[tag] = NINF               # only what the facts say about t itself counts
        for k in sorted({z.a[0] for fs in ins.values() for u, b in fs if not b and u.op == "bin" and u.a[0] == "Eq" and t in u.a[1:] for z in u.a[1:] if z.op == "int"}):
            good = True
            for x, fs in ins.items():
                if f(x) is t:
                    continue
                below = k - 1 if (binop("Eq", t, Int(k)), False) in fs else k
                u = self.upper(f(x), fs | {(binop("Le", t, Int(below)), True)}, s2, depth + 1, INF)
                if u is None or u > k:
                    good = False
                    break
            if good:
                return k
        return None

    def len_upper(self, x, facts, seen, depth, off):
        """bound on len(x) by structure"""
        L = lambda z: call("len", z)
        if x.op == "phi":
            v = self.phi_upper(("len", x), x, L, seen, depth, off)
            if v is not None or ("len", x) in seen:
                return v
            v = self.loop_len(x, depth)
            return v if v is not None else self.capped(L(x), x, ("len", x), L, seen, depth)
        if x.op == "vf" and x.a[0].op == "phi" and x.a[1] in ("Some", "Ok"):
            return self.phi_upper(("len", x), x.a[0], lambda y: None if (y.op == "adt" and y.a[1] != x.a[1]) else L(proj(y, ("v", x.a[1], "0"))), seen, depth, off)
        if x.op == "field" and x.a[0].op == "phi":
            return self.phi_upper(("len", x), x.a[0], lambda y: L(proj(y, ("f", x.a[1]))), seen, depth, off)
        if x.op == "call" and x.a[0] in ("format", "fmt"):
            tot = 0
            for pc in x.a[1:]:
                if pc.op == "str":
                    tot += len(pc.a[0].encode())
                    continue
                if len(pc.a) > 2:
                    return None
                v = pc.a[1]
                u = 20 if self.is_num(v) else self.upper(L(v), facts, seen, depth + 1, INF)
                if u is None:
                    return None
                tot += u
            return tot
        if x.op == "call" and x.a[0] == "to_string" and self.is_num(x.a[1]):
            return 20
        if x.op == "call" and x.a[0] in ("String::new", "Vec::new", "Default::default"):
            return 0
        if x.op == "post" and x.a[0] in ("Extend::extend", "Vec::extend_from_slice", "Vec::append", "String::push_str", "BytesMut::extend_from_slice") and x.a[1] == 0:
            a = self.upper(L(x.a[2]), facts, seen, depth + 1, INF)
            c = self.iter_count(x.a[3], facts, seen, depth) if a is not None else None
            return a + c if c is not None else None
        if x.op == "call" and x.a[0] == "Iterator::collect":
            return self.iter_count(x.a[1], facts, seen, depth)
        return None

    def iter_count(self, it, facts, seen, depth):
        """bound on the number of items of an iterator (or length of a collection)"""
        if it.op in ("call", "icall"):
            a = it.a[1:] if it.op == "call" else it.a[2:]
            n = it.a[0]
            if n == "Iterator::take":
                u = self.upper(a[1], facts, seen, depth + 1, INF)
                v = self.iter_count(a[0], facts, seen, depth)
                return u if v is None else v if u is None else min(u, v)
            if n in ("Iterator::map", "Iterator::filter", "Iterator::cloned", "Iterator::copied", "Iterator::filter_map", "Iterator::enumerate", "Iterator::rev",
                     "Iterator::take_while", "Iterator::skip", "Iterator::skip_while", "Iterator::peekable", "Iterator::zip", "Vec::drain"):
                return self.iter_count(a[0], facts, seen, depth)
            if n in ("iter", "iter_mut", "BTreeMap::iter", "HashMap::iter", "BTreeMap::values", "BTreeMap::keys", "BTreeMap::into_iter"):
                return self.upper(call("len", a[0]), facts, seen, depth + 1, INF)
            if n in ("Iterator::collect",):
                return self.iter_count(a[0], facts, seen, depth)
            if n in self.SPLITS or n.startswith("str::"):
                if n == "str::splitn" and a[1].op == "int":
                    return a[1].a[0]
                return None
        return self.upper(call("len", it), facts, seen, depth + 1, INF)

    def round_index(self, x, facts):
        """enumerate indices in the facts that the length of x cannot exceed: x starts empty and grows at most once in each round of the loop whose source is enumerated"""
        ph, f = (x, lambda z: z) if x.op == "phi" else (x.a[0], lambda z: proj(z, ("f", x.a[1]))) if x.op == "field" and x.a[0].op == "phi" else (None, None)
        if ph is None:
            return
        site = ph.a[0]
        done = set()
        for u, _ in facts:
            if u.op != "bin":
                continue
            for y in u.a[1:]:
                while y.op == "bin" and y.a[0] == "Add" and y.a[2].op == "int":
                    y = y.a[1]
                if y in done or not (y.op == "field" and y.a[1] == "0" and y.a[0].op == "vf" and y.a[0].a[1] == "Some" and y.a[0].a[0].op == "call" and y.a[0].a[0].a[0] == "Iterator::next"):
                    continue
                done.add(y)
                nxt = y.a[0].a[0]
                it = nxt.a[1]
                if it.op != "phi" or it.a[0][:-1] != site[:-1] or it.a[0][-1][:2] != site[-1][:2]:
                    continue
                src = iter_source(self.e, it)
                if src is None or src.op not in ("call", "icall") or src.a[0] != "Iterator::enumerate" or not self.grows_once(ph, f, nxt):
                    continue
                yield y

    def grows_once(self, ph, f, nxt):
        memo = self.__dict__.setdefault("_grows", {})
        key = (ph, f(ph), nxt)
        if key in memo:
            return memo[key]
        memo[key] = False

        def grow(t, seen):
            if t is f(ph):
                return 0
            if t in seen:
                return None
            if t.op == "post" and t.a[0] in ("Vec::push", "BTreeMap::insert", "HashMap::insert", "VecDeque::push_back", "HashSet::insert", "BTreeSet::insert") and t.a[1] == 0:
                g = grow(t.a[2], seen)
                return None if g is None else g + 1
            return None
        ok = True
        for x, fs in self.e.phi_inputs(ph).items():
            g = grow(f(x), frozenset())
            if g is None:
                ok &= self.upper(call("len", f(x)), fs, None, 8) == 0
            elif g > 0:
                ok &= g == 1 and (is_(nxt, "Some"), True) in fs
        memo[key] = ok
        return ok

    def loop_len(self, ph, depth):
        """a collection grown at most once per iteration of a loop over a bounded source"""
        if depth > 8:
            return None
        ins = self.e.phi_inputs(ph)
        site = ph.a[0]
        base = None
        count = None

        def grow(t, seen):
            """pushes between the loop head value and t; None if unrelated"""
            if t is ph:
                return 0
            if t in seen:
                return None
            if t.op == "post" and t.a[0] in ("Vec::push", "BTreeMap::insert", "HashMap::insert", "VecDeque::push_back", "HashSet::insert", "BTreeSet::insert") and t.a[1] == 0:
                g = grow(t.a[2], seen)
                return None if g is None else g + 1
            if t.op == "phi":
                gs = [grow(y, seen | {t}) for y in self.e.phi_inputs(t) if y is not t]
                if gs and all(g is not None for g in gs):
                    return max(gs)
            return None
        for x, fs in ins.items():
            g = grow(x, frozenset())
            if g is None:
                u = self.upper(call("len", x), fs, None, depth + 1)
                if u is None:
                    return None
                base = u if base is None else max(base, u)
                continue
            if g > 1:
                return None
            if g == 1:
                c = None
                for t, b in fs:
                    if b and t.op == "is" and t.a[1] == "Some" and t.a[0].op == "call" and t.a[0].a[0] == "Iterator::next":
                        it = t.a[0].a[1]
                        if it.op == "phi" and len(it.a[0]) == len(site) and it.a[0][:-1] == site[:-1] and it.a[0][-1][:2] == site[-1][:2]:
                            src = iter_source(self.e, it)
                            if src is not None:
                                ctx = frozenset()
                                used = None
                                for y, fy in self.e.phi_inputs(it).items():
                                    n = 0
                                    while y.op in ("post", "ipost") and y.a[0] == "Iterator::next":
                                        y = y.a[2] if y.op == "post" else y.a[3]
                                        n += 1
                                    if y is src:
                                        ctx = fy
                                        used = n if used is None else min(used, n)
                                v = self.iter_count(src, ctx, None, depth + 1)
                                if v is not None:
                                    v -= used or 0
                                    c = v if c is None else min(c, v)
                if c is None:
                    return None
                count = c if count is None else max(c, count)
        if base is None:
            return None
        return base + (count or 0)

    def le(self, a, b, facts, k=0, seen=frozenset(), depth=0):
        """a <= b + k ?"""
        if a.op in ("int", "char") and b.op in ("int", "char"):
            return a.a[0] <= b.a[0] + k
        if a is b:
            return k >= 0
        if b.op == "bin" and b.a[0] == "Add" and b.a[2].op == "int":
            return self.le(a, b.a[1], facts, k + b.a[2].a[0], seen, depth)
        if b.op == "bin" and b.a[0] == "Sub" and b.a[2].op == "int":
            return self.le(a, b.a[1], facts, k - b.a[2].a[0], seen, depth)
        if b.op == "int":
            u = self.upper(a, facts)
            if u is not None and u <= b.a[0] + k:
                return True
        if a.op == "int" and a.a[0] <= k:
            return True    # 0 <= b for the unsigned quantities compared here
        if b.op == "call" and b.a[0] == "max":
            if self.le(a, b.a[1], facts, k, seen, depth + 1) or self.le(a, b.a[2], facts, k, seen, depth + 1):
                return True
        idx = self.index(facts)
        dist = {a: 0}
        work = [a]
        n = 0
        zero_at = None
        while work and n < 400:
            x = work.pop(0)
            n += 1
            dx = dist[x]
            if x is b and dx <= k:
                return True
            if x.op == "int":
                v = x.a[0] + dx
                if v <= k:
                    return True
                # const <= b through lower-bound facts
                es = [(y, c) for (y, c) in idx.get(ZERO, ())]
                for (y, c) in es:
                    d = v + c
                    if y not in dist or d < dist[y]:
                        dist[y] = d
                        work.append(y)
                for z in list(idx):
                    if z != "facts" and z.op == "int" and z is not ZERO:
                        for (y, c) in idx[z]:
                            d = v - z.a[0] + c
                            if y not in dist or d < dist[y]:
                                dist[y] = d
                                work.append(y)
                continue
            es = self.edges(x, idx)
            for (y, c) in es:
                d = dx + c
                if y not in dist or d < dist[y]:
                    dist[y] = d
                    work.append(y)
            if x.op == "phi" and (x, b) not in seen and depth < 8:
                ins = self.e.phi_inputs(x)
                if ins and not self.loopy(b):
                    if all(y is x or self.le(y, b, fs, k - dx, seen | {(x, b)}, depth + 1) for y, fs in ins.items()):
                        return True
        # b may be a phi / sum bounded below
        if b.op == "bin" and b.a[0] == "Add":
            if self.le(a, b.a[1], facts, k, seen, depth + 1) or self.le(a, b.a[2], facts, k, seen, depth + 1):
                return True
        if b.op == "phi" and (a, b, "b") not in seen and depth < 6 and not self.loopy(a):
            ins = self.e.phi_inputs(b)
            if ins and all(y is b or self.le(a, y, fs, k, seen | {(a, b, "b")}, depth + 1) for y, fs in ins.items()):
                return True
        return False

    def cases(self, facts, n=3):
        """split on the small disjunctions recorded at joins"""
        ors = [t for t, b in facts if t.op == "or" and b]
        return ors

    def by_cases(self, facts, goal, depth=0):
        """goal(facts) holds, if necessary after splitting on recorded disjunctions"""
        if goal(facts):
            return True
        if depth >= 3:
            return False
        for o in self.cases(facts):
            rest = facts - {(o, True)}
            ok = True
            n = 0
            for d in o.a:
                f = rest
                for x, bl in d:
                    f = self.e.add_fact(f, x, bl)
                    if f is None:
                        break
                if f is None:
                    continue
                n += 1
                if not goal(f):
                    ok = False
                    break
            if ok:
                return True
        if depth < 1:
            for o in self.cases(facts):
                rest = facts - {(o, True)}
                ok = True
                for d in o.a:
                    f = rest
                    for x, bl in d:
                        f = self.e.add_fact(f, x, bl)
                        if f is None:
                            break
                    if f is not None and not self.by_cases(f, goal, depth + 1):
                        ok = False
                        break
                if ok:
                    return True
        return False

    def close(self, facts):
        """re-simplify recorded disjunctions against the other facts until nothing changes; None if contradictory"""
        if not hasattr(self, "_closed"):
            self._closed = {}
        facts = frozenset(facts)
        if facts in self._closed:
            return self._closed[facts]
        f = facts
        for _ in range(6):
            g = f
            for t in sorted(t for t, b in f if t.op == "or" and b):
                g = self.e.add_fact(frozenset(x for x in g if x[0] is not t), t, True)
                if g is None:
                    break
            if g is None or g == f:
                f = g
                break
            f = g
        self._closed[facts] = f
        return f

    def split_facts(self, facts, about=None, limit=8):
        """the fact sets obtained by splitting one recorded disjunction at a time"""
        given, facts = facts, self.close(facts)
        if facts is None:
            yield []
            return
        if facts != given:
            yield [facts]
        ors = self.cases(facts)
        if len(ors) > limit:
            want = joined(about) if about is not None else set()
            ors.sort(key=lambda o: (-len(want & joined(o)), len(o.a), o.id))
        for o in ors[:limit]:
            rest = facts - {(o, True)}
            out = []
            for d in o.a:
                f = rest
                for x, bl in d:
                    f = self.e.add_fact(f, x, bl)
                    if f is None:
                        break
                if f is not None:
                    out.append(f)
            yield out

    def upper_c(self, t, facts, depth=0):
        best = self.upper(t, facts)
        if depth >= 2:
            return best
        for fs in self.split_facts(facts, t):
            if not fs:
                return NINF
            m = NINF
            for f in fs:
                u = self.upper_c(t, f, depth + 1) if best is None else self.upper(t, f)
                if u is None:
                    m = None
                    break
                m = max(m, u)
            if m is not None and (best is None or m < best):
                best = m
        return best

    def charset_c(self, t, facts, depth=0):
        best = self.charset(t, facts)
        if depth >= 2:
            return best
        for fs in self.split_facts(facts, t):
            m = EMPTY
            for f in fs:
                m = m | (self.charset_c(t, f, depth + 1) if best == FULL else self.charset(t, f))
                if m == FULL:
                    break
            best = best & m
        return best

    def loopy(self, t):
        return bool(t.dep & 2) and t.op in ("phi",)


class Outcome_:
    def __init__(self, ret, facts):
        self.ret, self.facts = ret, facts


ZERO = Int(0)
INF = 1 << 80
NINF = -(1 << 60)
TYMAX = {"u8": 255, "u16": 65535, "u32": 2**32 - 1, "bool": 1}
NUMTY = {"u8", "u16", "u32", "u64", "usize", "u128", "i8", "i16", "i32", "i64", "isize", "i128", "f32", "f64"}


_joined = {}


def joined(t):
    """the values in t that depend on the way taken (joins) or on matching a variant"""
    r = _joined.get(t)
    if r is None:
        r = {t} if t.op in ("phi", "vf") else set()
        for x in t.a:
            for y in ([x] if isinstance(x, type(t)) else _flat(x) if isinstance(x, tuple) else ()):
                r = r | joined(y)
        _joined[t] = r = frozenset(r)
    return r


def _flat(x):
    for y in x:
        if isinstance(y, tuple):
            yield from _flat(y)
        elif hasattr(y, "op"):
            yield y
