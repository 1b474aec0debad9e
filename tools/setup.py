#!/usr/bin/env python3
"""Checks that the verifiers this framework needs are present. Everything else is built by each check from /repo's tree."""
import subprocess, sys, os
os.environ["PATH"] = "/root/.cargo/bin:" + os.environ.get("PATH", "")
bad = 0
for c in (["cargo", "kani", "--version"], ["verus", "--version"]):
    try:
        r = subprocess.run(c, capture_output=True, text=True, timeout=120)
        print(" ".join(c), "->", (r.stdout or r.stderr).strip().splitlines()[:1])
        bad |= r.returncode
    except Exception as e:
        print(" ".join(c), "->", e)
        bad = 1
sys.exit(1 if bad else 0)
