#!/usr/bin/env python3
"""Write DESIGN.md: tools/design_head.md, a section per property (specs/props.py, the rule text of its evidence, the changes tried), tools/design_tail.md."""
import json, os, re, runpy, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "specs"))
sys.path.insert(0, os.path.join(V, "tools", "mutants"))
import props
tried = {}
MD = os.path.join(V, "tools", "mutants")
ACCEPTED = {"b-ident-none", "b-early-cleanup", "b-from-to", "x-tag-uri", "x-fe", "s6-r-push", "s6-r-first", "s7-r-flag", "s7-title", "o-regidnone", "o-r-resp", "y-r-scl", "y-r-tryfor", "h-tok3", "h-commit2", "j-rev", "p9-toks", "p9-qbug", "p7-mwi", "pv-r-foreach"}
for f in sorted(os.listdir(MD)):
    if re.match(r"m[a-z0-9]+\.py$", f) and f != "mut.py":
        for m in runpy.run_path(os.path.join(MD, f))["M"]:
            for i in m[3]:
                tried.setdefault(i, {}).setdefault(bool(m[1]), []).append(m[0])
seeded = {}
SD = os.path.join(V, "seeded")
for d in sorted(os.listdir(SD)) if os.path.isdir(SD) else ():
    p = os.path.join(SD, d, "meta.json")
    if os.path.exists(p):
        seeded.setdefault(json.load(open(p))["property"], []).append(d)
known = {}
for l in open(os.path.join(V, "known_findings.txt")):
    m = re.match(r"(finding|fixed): property=(\w+) (.*)", l.strip())
    if m:
        known.setdefault(m.group(2), []).append((m.group(1), m.group(3)))
out = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip(), "", "## The properties", ""]
for p in props.P:
    i = p["id"]
    out += [f"### {i} {p['title']}", "", "Holds for " + p["quantifier"]["text"] + ". " + p["why_tests_cant"], ""]
    e = os.path.join(V, "evidence", i + ".json")
    if os.path.exists(e):
        c = json.load(open(e))["coverage"]
        out.append("* Rule: " + c.get("explanation", ""))
        out.append(f"* Size on the current tree: {c.get('obligations')} obligations; " + ", ".join(f"{v} {k}" for k, v in c.get("analysed", {}).items()) + ".")
    out.append("* Decided by: " + p["technique"] + ". Anchors: " + "; ".join(m["where"] for m in p["anchors"]["mechanism"]) + ".")
    t = tried.get(i, {})
    bugs = [n for n in t.get(True, []) if n not in ACCEPTED]
    if bugs or seeded.get(i):
        out.append("* Catches: " + ", ".join([f"seeded/{s}" for s in seeded.get(i, [])] + bugs) + ".")
    miss = [n for n in t.get(True, []) if n in ACCEPTED]
    if miss:
        out.append("* Does not catch: " + ", ".join(miss) + " (see Limits).")
    quiet = [n for n in t.get(False, []) if n not in ACCEPTED]
    if quiet:
        out.append("* Stays quiet on: " + ", ".join(quiet) + ".")
    loud = [n for n in t.get(False, []) if n in ACCEPTED]
    if loud:
        out.append("* Known false alarm on: " + ", ".join(loud) + " (see Limits).")
    for k, w in known.get(i, []):
        out.append(f"* {'Repaired defect' if k == 'fixed' else 'Known finding'}: {w}.")
    out.append("")
out += ["## Not applicable", ""]
for n in props.NA:
    out.append(f"* {n['id']} {n['title']}: {n['reason']}")
out += ["", open(os.path.join(V, "tools", "design_tail.md")).read().rstrip(), ""]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
print(len("\n".join(out)), "bytes")
