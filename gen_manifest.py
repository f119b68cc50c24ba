#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and props_config.py."""
import json, os
from props_config import CONFIG, NA
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CONFIG:
        b = CONFIG[i]["bounds"]
        b = b if isinstance(b, str) else b["quick"]
        checks.append({
            "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of figment's compiled LLVM IR, every branch and assertion decided by Z3",
            "level": "model_checking",
            "level_note": "Exhaustive within the bounds, no claim outside them. Bounds: %s. Outside: %s. Trusts rustc's LLVM IR, figsym's IR semantics (sampled paths are replayed natively and must agree) and Z3; counterexamples are reported only after they fail natively." % (b, CONFIG[i]["outside"]),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "engine/ is figsym, a symbolic executor for LLVM IR over Z3; harness/ holds one binary per property, compiled together with /repo's figment on every run. No hooks in /repo. Known and fixed defects: known_findings.json."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
