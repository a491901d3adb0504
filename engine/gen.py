#!/usr/bin/env python3
"""writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from engine/spec"""
import glob, importlib.util, json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
props = []
for f in sorted(glob.glob(H + "/spec/p_*.py")):
    s = importlib.util.spec_from_file_location("m", f)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    props += m.PROPS
ids = [p["id"] for p in props]
assert len(ids) == len(set(ids)), ids
import vp.checks, pkgutil
from vp import core
for m in pkgutil.iter_modules(vp.checks.__path__):
    importlib.import_module("vp.checks." + m.name)
with open(V + "/properties.jsonl", "w") as fh:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        for f in p["files"]:
            assert os.path.exists("/repo/" + f), f
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
checks, na, design = [], [], []
for p in props:
    if p["id"] in core.CHECKS and not p.get("na"):
        checks.append({"property": p["id"], "quick_cmd": f"python3 engine/check.py {p['id']}", "thorough_cmd": f"python3 engine/check.py {p['id']} --tier thorough",
                       "technique": "static analysis: " + p["decide"], "level": "other",
                       "level_note": "All control-flow paths of the analysed functions (loops widened); no execution, no solver. " + p.get("note", "")})
        design.append(f"### {p['id']} {p['title']}\n\n*Property.* {p['statement']}\n\n*Decided by.* {p['decide']}" + (f"\n\n*Limits.* {p['note']}" if p.get("note") else "") + "\n")
    else:
        assert p.get("na"), "no check and no reason: " + p["id"]
        na.append({"property": p["id"], "reason": p["na"]})
        design.append(f"### {p['id']} {p['title']} (not applicable)\n\n*Property.* {p['statement']}\n\n*Why not.* {p['na']}\n")
man = {"version": 1, "setup_cmd": "python3 engine/check.py --setup", "checks": checks, "not_applicable": na,
       "notes": "Pure static analysis; no hooks are needed in /repo. Every check rebuilds the compiler facts from /repo's working tree (cached by source hash under /verif/.cache)."}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
d = open(H + "/spec/design_head.md").read()
seeds = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    seeds.append(f"| `{i}` | {m['property']} | {m['needs']} |")
d = d.replace("@@NSEEDS@@", str(len(seeds))).replace("@@SEEDS@@", "| change | caught by | needs |\n|---|---|---|\n" + "\n".join(seeds))
open(V + "/DESIGN.md", "w").write(d.replace("@@PROPERTIES@@", "\n".join(design)))
print(len(checks), "checks,", len(na), "not applicable")
