#!/usr/bin/env python3
"""Nothing is kept between runs; this only checks that the tools are there."""
import shutil, subprocess, sys
for t in ("cargo", "rustc"):
    if not shutil.which(t):
        sys.exit(f"{t} is missing")
r = subprocess.run(["cargo", "kani", "--version"], capture_output=True, text=True)
print(r.stdout.strip() or r.stderr.strip())
sys.exit(r.returncode)
