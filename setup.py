#!/usr/bin/env python3
"""Builds the engine and the dependencies of the harness (each check rebuilds what changed)."""
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
out = os.path.join(check.V, "out", "setup")
os.makedirs(out, exist_ok=True)
for b in sorted({c["bin"] for c in check.CONFIG.values()})[:1]:
    check.build("setup", {"bin": b}, "quick", out)
print("setup done")
