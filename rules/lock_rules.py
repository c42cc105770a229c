"""Locks: no operation waits for a lock that it or an awaited continuation already holds."""
from rules._util import *
import guards as gd


def c01(ctx):
    ctx.rule("Guards of DashMap entries and iterators and of mutexes and read-write locks are tracked through moves, matches and drops over every function's control flow. While a guard may be live, no call (with everything it "
             "calls, closures included) acquires the same lock, the graph of locks acquired while others are held has no cycle, and no synchronous guard is live at an await.")
    g = gd.Guards(ctx.prog)
    edges, nsite, nheld, nlock, nyield = {}, 0, 0, 0, 0
    for f in sorted(g.fns.values(), key=lambda f: f.id):
        name = strip_generics(f.id)
        for b, line, callee, held, acq, cacq, own in g.sites(f):
            nsite += 1
            w = where(f, line)
            nheld += bool(held)
            if callee == "await":
                nyield += 1
                for c, v in sorted(held.items()):
                    ctx.check(c[0] == "async", f"await:{name}:{c[-1][-40:]}", w, f"{gd.show(c)}: guard {v} is held across an await; another task needing it blocks its thread, and the runtime can deadlock")
                continue
            nlock += bool(own)
            top = dict(held)
            if own:
                for c in cacq:
                    if c == own:
                        ctx.violation(f"reenter:{name}:{c[-1][-40:]}", w, f"a closure run by {short_name(callee)} under the {gd.show(c)} takes that lock again")
                    else:
                        edges.setdefault((own, c), (w, callee))
            for c, v in sorted(top.items()):
                for d in sorted(acq | cacq):
                    if c == d:
                        ctx.violation(f"reenter:{name}:{c[-1][-40:]}", w, f"{gd.show(c)}: {short_name(callee)} takes the lock while {v} may still hold it (deadlock)")
                    else:
                        edges.setdefault((c, d), (w, callee))
                    ctx.ok()
    succ = {}
    for a, b in edges:
        succ.setdefault(a, set()).add(b)
    for (a, b), (w, callee) in sorted(edges.items()):
        seen, st = set(), [b]
        while st:
            x = st.pop()
            if x not in seen:
                seen.add(x)
                st += succ.get(x, ())
        ctx.check(a not in seen, f"order:{a[-1][-40:]}:{b[-1][-40:]}", w, f"lock order: {short_name(callee)} takes the {gd.show(b)} while the {gd.show(a)} is held, and elsewhere they are taken the other way round")
    ctx.count("call sites", nsite)
    ctx.count("lock acquisitions", nlock)
    ctx.count("call sites with a guard held", nheld)
    ctx.count("await points", nyield)
    ctx.count("lock order edges", len(edges))
    ctx.floor("call sites", 15000)
    ctx.floor("lock acquisitions", 70)
    ctx.floor("call sites with a guard held", 100)


def short_name(n):
    return "::".join(n.split("::")[-2:])


RULES = {"C01": c01}
