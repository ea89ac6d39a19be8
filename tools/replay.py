#!/usr/bin/env python3
"""replay.py <ID> <harness> <file>: run a recorded counterexample against the
natively compiled sources of /repo."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
prop, h, f = sys.argv[1:4]
bd = os.path.join(check.VERIF, ".build", prop)
mods = {check.harnesses()[h]}
vals = [[int(x) for x in l.split()] for l in open(f) if l.strip() and not l.startswith("#")]
rewritten = "(rewritten build)" in open(f).read()
b = check.native_build(bd, mods, "t" if rewritten else "n", rewritten)
rc, out = check.replay(b, h, vals)
print(out)
sys.exit(rc)
