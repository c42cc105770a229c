"""Shared context of a check: program, engine, reporting, known findings, evidence."""
import json, os, sys, importlib, pkgutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))


def registry():
    r = {}
    for f in sorted(os.listdir(os.path.join(VERIF, "rules"))):
        if f.endswith(".py") and not f.startswith("_"):
            m = importlib.import_module("rules." + f[:-3])
            for k, v in getattr(m, "RULES", {}).items():
                if k in r:
                    raise RuntimeError("duplicate rule " + k)
                r[k] = v if isinstance(v, tuple) else (v, "other")
    return r


def known_findings():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(x.split("=", 1) for x in line[8:].split(" what=")[0].split() if "=" in x)
                out[(d["property"], d["key"])] = line.split(" what=", 1)[1] if " what=" in line else ""
    return out


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.level = "other"
        self.viol = []          # (key, where, msg)
        self.keys = set()
        self.counts = {}
        self.samples = {}
        self.rules = []
        self.assumptions = []
        self.prog = self.eng = self.P = None
        self.obligations = 0
        self.discharged = 0

    # ------------------------------------------------------------ setup
    def load(self):
        from ir import Program
        from absint import Engine
        from prove import Prover
        self.prog = Program()
        self.eng = Engine(self.prog)
        self.P = Prover(self.eng)
        self.count("functions in the fact base", len(self.prog.fns))
        self.floor("functions in the fact base", 3500)

    # -------------------------------------------------------- reporting
    def rule(self, text):
        self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, name, x, cap=6):
        l = self.samples.setdefault(name, [])
        if len(l) < cap:
            l.append(str(x)[:300])

    def floor(self, name, n):
        if self.counts.get(name, 0) < n:
            self.violation("floor:" + name.replace(" ", "-"), "-", f"only {self.counts.get(name, 0)} {name} were found; at least {n} were confirmed by hand, so the rule would pass vacuously")

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def violation(self, key, where, msg):
        key = str(key).replace(" ", "_")
        self.obligations += 1
        if key in self.keys:
            return
        self.keys.add(key)
        self.viol.append((key, where, msg))

    def check(self, cond, key, where, msg):
        if cond:
            self.ok()
        else:
            self.violation(key, where, msg)
        return cond

    # ------------------------------------------------------------- end
    def finish(self, wall):
        known = known_findings()
        new, old = [], []
        for v in self.viol:
            (old if (self.pid, v[0]) in known else new).append(v)
        for k, w, m in old:
            print(f"KNOWN-FINDING: property={self.pid} {k}: {known[(self.pid, k)] or m}")
        rep = os.path.join(BUILD, "replay")
        os.makedirs(rep, exist_ok=True)
        path = os.path.join(rep, self.pid + ".txt")
        with open(path, "w") as h:
            for k, w, m in new:
                h.write(f"[{k}]\n  at: {w}\n  {m}\n\n")
        for k, w, m in new[:20]:
            print(f"{self.pid}: [{k}] {w}\n    {m}")
        cov = {"explanation": " ".join(self.rules) or "see DESIGN.md",
               "obligations": self.obligations, "discharged": self.discharged,
               "analysed": self.counts, "samples": self.samples,
               "source_digest": getattr(self.prog, "digest", None) if self.prog else None}
        if self.level == "proof":
            cov["checker_cmd"] = f"python3 check.py {self.pid}"
            cov["trusted_base"] = ["rustc MIR construction", "the abstract interpreter and library models in /verif/lib", "the rule's specification table"]
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 3), "violations": len(new)}
        evd = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        p = os.path.join(evd, self.pid + ".json")
        with open(p + ".tmp", "w") as h:
            json.dump(ev, h, indent=1, default=str)
        os.replace(p + ".tmp", p)
        if new:
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        print(f"{self.pid}: held ({self.discharged} obligations discharged, {wall:.1f}s)")
        return 0


def where(fn, line=None):
    return f"{fn.file}:{line if line else fn.lo} ({fn.id})"
