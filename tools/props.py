#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts live here)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, state=None, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                               **({"observe_at": observe} if observe else {}), hook_needed=None)))
    if na:
        NA[id] = na
    else:
        META[id] = (technique, note)


META = {}
CV = "crates/mitex/src/converter.rs"
AI = "path-sensitive abstract interpretation of rustc MIR"
exec(open(os.path.join(V, "tools", "props_text.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
checks = []
for p in P:
    i = p["id"]
    if i in NA:
        continue
    t, n = META[i]
    checks.append(dict(property=i, quick_cmd="python3 tools/run.py " + i, thorough_cmd="python3 tools/run.py " + i,
                       evidence_file="evidence/%s.json" % i, technique=t, level=registry.CHECKS[i].get("level", "other"), level_note=n))
m = dict(version=1, setup_cmd="python3 tools/prep.py", checks=checks,
         not_applicable=[dict(property=i, reason=r) for i, r in NA.items()],
         notes="Every check builds the engine and the analysis view from the committed files and /repo's working tree when they are not fresh; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
