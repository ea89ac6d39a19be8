#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and tools/spec.json from the table in
props.py, so that the three stay in step."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, NA

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("Trusted: Kani/CBMC, the models of third-party crates and stores (kani/stubs, kani/h/support.rs), "
          "the async-to-sync rewriting (tools/deasync.py). Counterexamples are replayed natively before they are reported.")
with open(f"{V}/properties.jsonl", "w") as f:
    for p in P:
        o = {k: p[k] for k in ("id", "title", "statement")}
        assert len(p["title"]) <= 80, p["title"]
        o["quantifier"] = {"over": p["over"], "text": p["text"]}
        o["why_tests_cant"] = p["why"]
        o["anchors"] = {"files": ["sorock/src/" + x for x in p["files"]],
                        "mechanism": [{"name": n, "where": "sorock/src/" + w} for n, w in p["mech"]],
                        "observe_at": p.get("obs", [])}
        f.write(json.dumps(o) + "\n")
checks, spec = [], {}
for p in P:
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 tools/check.py {i} --tier quick",
        "thorough_cmd": f"python3 tools/check.py {i} --tier thorough",
        "technique": "SMT/SAT-based bounded model checking (Kani/CBMC) of the real source with symbolic inputs, state, faults and interleavings",
        "level": "model_checking",
        "level_note": f"Every value within the bounds: {p['bounds']} Outside: {p['outside']} {COMMON}",
    })
    spec[i] = {"also": p.get("also", []), "thorough_only": p.get("thorough_only", []), "bounds": p["bounds"],
               "outside": p["outside"], "assumptions": p.get("assume", [])}
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the checks copy /repo/sorock/src on every run and attach the harness modules to the copy."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
json.dump(spec, open(f"{V}/tools/spec.json", "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
