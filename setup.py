#!/usr/bin/env python3
"""Checks that what the monitors need is there. Nothing to prepare: every check builds from /repo itself."""
import subprocess, sys
for cmd in (["cargo", "--version"], ["cargo", "+nightly", "--version"], ["cargo", "+nightly", "miri", "--version"]):
    r = subprocess.run(cmd, capture_output=True, text=True)
    print(" ".join(cmd), "->", (r.stdout or r.stderr).strip())
    if r.returncode:
        sys.exit(1)
