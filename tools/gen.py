#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from specs/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "specs")); sys.path.insert(0, os.path.join(V, "lib")); sys.path.insert(0, V)
import props, jsonschema
from ctx import registry
reg = registry()
ps = json.load(open("/root/.vp/PROPERTIES.schema.json")); ms = json.load(open("/root/.vp/MANIFEST.schema.json"))
out = []
for p in props.P + [n for n in props.NA]:
    q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
    jsonschema.validate(q, ps)
    out.append(json.dumps(q))
ids = [p["id"] for p in props.P + props.NA]
assert len(ids) == len(set(ids)), ids
assert set(reg) == {p["id"] for p in props.P}, set(reg) ^ {p["id"] for p in props.P}
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(out) + "\n")
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                 "technique": p["technique"], "level": reg[p["id"]][1], "level_note": p["note"]} for p in props.P],
     "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in props.NA]}
jsonschema.validate(m, ms)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(props.P), "claimed,", len(props.NA), "not applicable")
