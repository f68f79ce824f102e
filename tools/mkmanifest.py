#!/usr/bin/env python3
"""Regenerates MANIFEST.json: a check is claimed when checks/<id>.py exists, every other property is listed as not applicable."""
import ast, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from na import NA

checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    f = os.path.join(V, "checks", p.lower() + ".py")
    if os.path.exists(f):
        g = {}
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("TECHNIQUE", "LEVEL", "NOTE"):
                g[n.targets[0].id] = ast.literal_eval(n.value)
        checks.append({
            "property": p,
            "quick_cmd": "./check.sh " + p,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": g["TECHNIQUE"],
            "level": g["LEVEL"],
            "level_note": g.get("NOTE", "Static: decided over the MIR of the current tree by abstract interpretation; nothing is executed. "
                                "Trusted: rustc's MIR, the models of core/alloc/hashbrown/smallvec functions in lib/models.py, and the interpreter in lib/interp.py.")})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check has been built for this property yet")})
json.dump({"version": 1, "setup_cmd": "python3 lib/mirdb.py main default debug all", "checks": checks, "not_applicable": na,
           "notes": "Static analysis over rustc MIR; see DESIGN.md. No hooks in /repo are needed."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not applicable:", " ".join(x["property"] for x in na))
