#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, the registered checks and tools/notes.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import families
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in families.CHECKS:
        n = next(v for k, v in notes["claimed"].items() if i in k.split())
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick python3 check.py {i}",
                           thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                           technique=n["technique"], level="model_checking", level_note=n["note"]))
    else:
        na.append(dict(property=i, reason=notes["unclaimed"].get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="One TLA+ specification per family under spec/, replayed into and checked against the real headers; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
