#!/usr/bin/env python3
"""Writes DESIGN.md: tools/DESIGN.base.md plus, per property, what the harnesses
say they do, the known findings and the planted bugs (development tool; no check
runs it)."""
import glob, json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, NA

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
docs = {}
for f in glob.glob(f"{V}/kani/h/p_*.rs"):
    s = open(f).read()
    for m in re.finditer(r"((?:^[ \t]*///.*\n)*)#\[cfg_attr\(kani, kani::proof[^\n]*\n\s*pub fn (\w+)", s, re.M):
        docs[m[2]] = (os.path.basename(f), " ".join(x.strip()[3:].strip() for x in m[1].splitlines()))
out = ["## Property by property", ""]
for p in P:
    i = p["id"]
    if i in NA:
        continue
    hs = [h for h in sorted(docs) if h.startswith(i.lower() + "_")] + p["also"]
    out += [f"### {i} {p['title']}", "", p["statement"], ""]
    out += [f"*Symbolic:* {p['text']}. *Bounds:* {p['bounds']} *Outside:* {p['outside']}", ""]
    out += [f"*Why tests do not settle it:* {p['why']}", ""]
    fs = sorted({docs[h][0] for h in hs if h in docs})
    out += [f"*Harnesses* (`kani/h/{', '.join(fs)}`): " + ", ".join(
        f"`{h}`" + (" (thorough only)" if h in p["thorough_only"] else "") for h in hs) + ".", ""]
    for h in hs:
        if h in docs and docs[h][1]:
            out += [f"* `{h}`: {docs[h][1]}"]
    out += [""]
if NA:
    out += ["## Not applicable", ""] + [f"* {k}: {v}" for k, v in NA.items()] + [""]
out += ["## Defects found", "", "Repaired in /repo (`fix:` commits) or recorded (`known_findings.txt`):", ""]
for l in open(f"{V}/known_findings.txt"):
    if l.strip():
        out += ["* " + l.strip()]
out += ["", "## Planted bugs (seeded/)", "", "| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
res = {}
rp = f"{V}/tools/seeded_results.json"
if os.path.exists(rp):
    res = json.load(open(rp))
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    out += [f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(i, 'not run')} |"]
base = open(f"{V}/tools/DESIGN.base.md").read()
open(f"{V}/DESIGN.md", "w").write(base.replace("@@PROPS@@", "\n".join(out)))
print(len(docs), "harnesses")
