"""Load the fact base: functions, types, ADTs, impls."""
import random, json, os, pickle, re, sys, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts

sys.setrecursionlimit(20000)


class Ty:
    __slots__ = ("s", "k", "d", "a", "len")

    def __init__(self, s, k, d, a, ln):
        self.s, self.k, self.d, self.a, self.len = s, k, d, a, ln

    def peel(self):
        t = self
        while t.k in ("ref", "mutref", "ptr") and t.a:
            t = t.a[0]
        return t

    def __repr__(self):
        return self.s


class Fn:
    def __init__(self, d, tys, files, crate):
        self.id = d["id"]
        self.kind = d["kind"]
        self.crate = crate
        self.d = d
        self.tys = tys
        self.file = files[d["file"]]
        self.lo, self.hi = d["lo"], d["hi"]
        self.argc = d["argc"]
        self.blocks = d["blocks"]
        self.locals = d["locals"]
        self.vis = d.get("vis")
        self.reach = d.get("reach", False)
        self.derived = d.get("derived", False)
        self.trait = d.get("trait")
        self.in_trait = d.get("in_trait")
        self.isasync = d.get("async", False)
        self.parent = d.get("parent")
        self.self_ty = tys[d["self_ty"]] if "self_ty" in d else None
        self.mir = d.get("mir")

    def lty(self, i):
        return self.tys[self.locals[i][0]]

    def lname(self, i):
        return self.locals[i][1] if len(self.locals[i]) > 1 else None

    def __repr__(self):
        return f"Fn({self.id})"


_gen = re.compile(r"::<[^<>]*>")


def strip_generics(p):
    """alloc::vec::Vec::<T, A>::push -> alloc::vec::Vec::push ; keeps <X as Y>::m and <impl str>."""
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p.startswith("::<", i) and not p.startswith("::<impl", i):
            d = 0
            j = i + 2
            while j < n:
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


class Program:
    def __init__(self, ext=False):
        info = facts.ensure(ext)
        self.digest = info["digest"]
        self.fns = {}
        self.consts = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.children = {}
        self.crates = []
        self.dups = []
        for c, f in sorted(info["files"].items()):
            d = self._load(f)
            crate = d["crate"]
            self.crates.append(crate)
            raw = d["types"]
            tys = [Ty(x["s"], x["k"], x.get("d"), None, x.get("len")) for x in raw]
            for t, x in zip(tys, raw):
                t.a = [tys[i] for i in x.get("a", [])]
            # rustc lists bodies in an order that varies from build to build
            for k in ("fns", "consts", "adts", "impls", "traits"):
                d[k].sort(key=lambda x: (x["id"], d["files"][x["file"]] if "file" in x else "", x.get("line", x.get("lo", 0))))
            if os.environ.get("VERIF_SHUFFLE"):    # order-independence experiments
                random.Random(os.environ["VERIF_SHUFFLE"] + crate).shuffle(d["fns"])
            for x in d["fns"]:
                fn = Fn(x, tys, d["files"], crate)
                if fn.id in self.fns:
                    self.dups.append(fn.id)
                self.fns[fn.id] = fn
                if fn.parent:
                    self.children.setdefault(fn.parent, []).append(fn.id)
            for x in d["consts"]:
                self.consts[x["id"]] = x["val"]
            for x in d["adts"]:
                x["crate"] = crate
                x["filename"] = d["files"][x["file"]]
                for v in x["variants"]:
                    for fl in v["fields"]:
                        fl["ty"] = tys[fl["ty"]]
                self.adts[x["id"]] = x
            for x in d["impls"]:
                x["self"] = tys[x["self"]]
                x["crate"] = crate
                self.impls.append(x)
            for x in d["traits"]:
                self.traits[x["id"]] = x
        self.trait_impls = {}
        for im in self.impls:
            if im["trait"]:
                for it, ti, nm in im["items"]:
                    if ti:
                        self.trait_impls.setdefault(ti, []).append(it)

    def field_ty(self, adt, variant, field):
        a = self.adts.get(adt)
        if a is None:
            return None
        for v in a["variants"]:
            if variant is None or v["name"] == variant:
                for f in v["fields"]:
                    if f["name"] == field:
                        return f["ty"]
        return None

    @staticmethod
    def _load(f):
        pk = f + ".pkl"
        st = os.stat(f)
        key = (st.st_mtime_ns, st.st_size)
        try:
            with open(pk, "rb") as h:
                k, d = pickle.load(h)
            if k == key:
                return d
        except Exception:
            pass
        d = json.load(open(f))
        with open(pk + ".tmp%d" % os.getpid(), "wb") as h:
            pickle.dump((key, d), h, protocol=4)
        os.replace(pk + ".tmp%d" % os.getpid(), pk)
        return d

    def fn(self, fid):
        return self.fns.get(fid)

    def find(self, suffix, kind="fn"):
        """functions whose generics-stripped id ends with suffix"""
        return [f for f in self.fns.values() if f.kind == kind and (strip_generics(f.id) == suffix or strip_generics(f.id).endswith("::" + suffix))]


if __name__ == "__main__":
    import time
    t = time.time()
    p = Program()
    print(len(p.fns), "fns", p.dups[:10], len(p.dups), time.time() - t)
