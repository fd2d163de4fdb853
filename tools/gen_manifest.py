#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NA
BASE = ("Verus proves the extracted, macro-expanded functions against contracts written from the property, for all inputs; syn, quote, proc_macro2 and std are "
        "assumed through the contracts in spec/*.prelude (listed in the evidence). A function that cannot be brought to the verifier on a changed tree is decided by the bounded companion and reported as not proved.")
checks = []
for p in sorted(PROPS):
    c = PROPS[p]
    checks.append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
        technique="contract-based deductive verification (Verus) of functions extracted from the real source on every run",
        level=c["level"], level_note=(c.get("note", "") + " " + BASE).strip()))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [dict(property=p, reason=NA.get(p, "no check yet")) for p in ids if p not in PROPS]
json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
    notes="No hooks in /repo: everything is read from the public source. See DESIGN.md."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
