"""Type invariants: every construction and every write of a claimed field, in every crate
of the fact base, must establish the field's bound.  See lib/inv.py."""
import json, os
from absint import strip_generics
from term import show
from prove import *
from inv import *
from ctx import where

SPEC = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../specs/inv.json")))
TOKEN = ALNUM | chars("-.!%*_+`'~")
CLASSES = {"digit": DIGIT, "alnum": ALNUM, "token": TOKEN, "http-token": TOKEN | chars("#$&^|"), "visible-ascii": GRAPHIC,
           "no-space": FULL - CTL - C1 - WS_ASCII - WS_NON, "no-space-c0": FULL - CTL - WS_ASCII, "no-control": FULL - CTL - C1, "no-control-c0": FULL - CTL,
           "no-control-ht": (FULL - CTL - C1) | chars("\t"), "no-control-c0-ht": (FULL - CTL) | chars("\t"), "no-crlf-nul": FULL - CRLFNUL}


def klass(s):
    if "-except:" in s:
        a, b = s.split("-except:", 1)
        return CLASSES[a] - chars(b)
    return CLASSES[s]


def resolve(ctx, row):
    """the ADT and field a spec row names, following a move of the type or a rename of the
    private field"""
    prog = ctx.prog
    a = prog.adts.get(row["adt"])
    if a is None:
        last = row["adt"].split("::")[-1]
        crate = row["adt"].split("::")[0]
        c = [x for x in prog.adts.values() if x["id"].split("::")[-1] == last and x["crate"] == crate]
        a = c[0] if len(c) == 1 else None
    if a is None:
        return None
    vs = [v for v in a["variants"] if v["name"] == row["variant"]] or (a["variants"] if len(a["variants"]) == 1 else [])
    if not vs:
        return None
    fs = vs[0]["fields"]
    for f in fs:
        if f["name"] == row["field"]:
            return a, vs[0], f
    names = {r["field"] for rows in SPEC.values() for r in rows if r["adt"] == row["adt"]}
    i = row["index"]
    if i < len(fs) and fs[i]["name"] not in names:
        return a, vs[0], fs[i]
    return None


def install(ctx):
    """all claims of all properties become the induction hypothesis; returns them by property"""
    C = Claims(ctx.P)
    out = {}
    for pid, rows in SPEC.items():
        for row in rows:
            r = resolve(ctx, row)
            if r is None:
                out.setdefault(pid, []).append((row, None, None, None))
                continue
            a, v, f = r
            for role, q, b in row["claims"]:
                key = (a["id"], f["name"], role)
                if q == "chars":
                    b = klass(b)
                    C.chars[key] = b
                elif q == "len":
                    C.len[key] = b
                elif q == "max":
                    C.max[key] = b
                else:
                    C.min[(key, q)] = b
            out.setdefault(pid, []).append((row, a, v, f))
    return C, out


STRISH = {"str", "coll", "bytes", "num", "opt:str", "opt:num", "opt:coll", "opt:bytes"}


def leaky(ty, d=0):
    """does the returned type hand out `&mut` access to raw string / collection / numeric state?"""
    if ty.k == "mutref" and ty.a and kind(ty.a[0]) in STRISH:
        return True
    if d < 4 and (ty.d or "").split("::")[-1] in ("IterMut", "ValuesMut", "Entry", "OccupiedEntry", "VacantEntry", "RefMut", "Drain"):
        if any(kind(x) in STRISH for x in ty.a):
            return True
    return any(leaky(x, d + 1) for x in ty.a) if d < 4 and ty.k != "mutref" else False


def run(ctx):
    C, rows = install(ctx)
    mine = rows[ctx.pid]
    crates = set(ctx.prog.crates) - {"sip_testkit"}
    byf = by_field(ctx.prog, ctx.eng, crates)
    ctx.rule("Each claim bounds a field of a protocol value type (maximum length or count, minimum length, numeric range, permitted characters). Obligations are every struct or "
             "variant literal of the type, every assignment to the field and every call mutating it through &mut, anywhere in the analysed crates; each is proved from the must-facts of the "
             "abstract interpretation at that point, assuming the claims for values that already exist. The fields must be private and no public function may return &mut access to one.")
    ctx.assumptions += ["library models of std/smol_str/bytes string and collection functions in lib/models.py and lib/prove.py",
                        "values are only built by the code analysed (no unsafe transmutation); safe because claimed struct fields are private"]
    prot = {}
    for row, a, v, f in mine:
        nm = f"{row['adt']}.{row['field']}"
        if a is None:
            ctx.violation("anchor:" + nm, row["adt"], "the claimed type or field no longer exists, so its bound is not enforced anywhere the rule can see")
            continue
        prot.setdefault(a["id"], []).append(f["name"])
        ctx.count("claimed fields")
        if row["private"] and f["vis"] == "pub" and a["reach"]:
            ctx.violation("public:" + nm, f"{a['filename']}:{a['line']}", "the field is public: any caller can store a value that was never checked")
        else:
            ctx.ok()
        k = kind(f["ty"])
        if k is None:
            ctx.violation("kind:" + nm, f"{a['filename']}:{a['line']}", f"field type {f['ty'].s} is not one the rule can bound")
            continue
        l = byf.get((a["id"], f["name"]), [])
        var = v["name"]
        l = [o for o in l if getattr(o, "var", None) in (None, "*", var)]
        if not l:
            ctx.violation("vacuous:" + nm, f"{a['filename']}:{a['line']}", "no construction site of this type was found")
            continue
        for role, q, b in row["claims"]:
            key = (a["id"], f["name"], role)
            bound = klass(b) if q == "chars" else b
            bad = check_goal(C, l, key, k, q, bound)
            ctx.count("obligations (claim x construction or write site)", len(l))
            ctx.ok(len(l) - len({id(o) for o, _, _ in bad}))
            for o, t, d in bad:
                what = {"len": "length/count at most", "minlen": "length at least", "min": "value at least", "max": "value at most", "chars": "characters within"}[q]
                part = {"": "", "e": " (elements)", "k": " (keys)", "v": " (values)"}[role]
                ctx.violation(f"{nm}{part}:{q}@{strip_generics(o.fn.id)}", where(o.fn, o.line),
                              f"{o.how} of {nm}{part} does not establish: {what} {b}; derived {d} for {show(t, 0, 6)[:200]}")
            ctx.sample("claims", f"{nm} {role}{q} {b}: {len(l)} sites")
    # no public function may hand out &mut to claimed raw state
    for fn in ctx.prog.fns.values():
        if fn.kind != "fn" or fn.crate not in crates or fn.argc < 1:
            continue
        st = fn.lty(1).peel()
        if st.d in prot and fn.lty(1).k == "mutref" and (fn.vis == "pub" or fn.trait):
            ctx.count("public &mut methods of claimed types")
            ctx.check(not leaky(fn.lty(0)), f"leak:{strip_generics(fn.id)}", where(fn), f"returns {fn.lty(0).s}: callers can modify claimed state without the checks")
    ctx.floor("claimed fields", len(mine))


RULES = {pid: run for pid in SPEC}
