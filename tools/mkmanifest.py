#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/suite.json."""
import json, os, subprocess
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
suite = json.load(open(top + "/harness/suite.json"))
props = [json.loads(l) for l in open(top + "/properties.jsonl") if l.strip()]
by = {}
for h in suite["harnesses"]:
    by.setdefault(h["property"], []).append(h)
na = suite.get("not_applicable", {})
checks, notapp = [], []
for p in props:
    i = p["id"]
    if i in by:
        checks.append({
            "property": i,
            "quick_cmd": "bash check.sh %s" % i,
            "thorough_cmd": "bash check.sh %s -tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": suite.get("technique", {}).get(i, "bounded symbolic execution of the Go SSA of the real functions, decided by an SMT solver (z3), counterexamples replayed natively"),
            "level": "model_checking",
            "level_note": suite.get("level_note", {}).get(i) or "; ".join(
                "%s: %s" % (h["func"], h.get("bounds", {}).get("quick", "")) for h in by[i]),
        })
    else:
        notapp.append({"property": i, "reason": na.get(i, "no check built yet")})
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": notapp,
    "notes": "One engine (engine/) executes the Go SSA of /repo's current source symbolically for the harnesses in harness/; every symbolic branch, and every assertion that term rewriting does not already make constant, is decided by z3 over all inputs within the bounds stated per harness (the evidence counts both kinds). Harnesses enter the module through an overlay, /repo needs no hooks. See DESIGN.md.",
}
json.dump(m, open(top + "/MANIFEST.json", "w"), indent=1)
open(top + "/MANIFEST.json", "a").write("\n")
