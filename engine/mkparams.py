#!/usr/bin/env python3
"""writes params.json: the parameter names of every analysed function on the tree the checks were written for"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from vp import build
out = {}
paths, _, _ = build.facts(["vertigo", "vertigo_cli", "vertigo_wasm"])
for u, p in paths.items():
    for i in json.load(open(p))["insts"]:
        if i["argc"]:
            out[i["p"]] = [(l[1] if len(l) > 1 else None) for l in i["locals"][1:i["argc"] + 1]]
json.dump(out, open(H + "/params.json", "w"), indent=0, sort_keys=True)
print(len(out))
