#!/usr/bin/env python3
"""Builds every harness once (objects are cached by content, so the checks rebuild only what changed)."""
import sys
sys.argv = ["check.py", "none"]
import check
bad = 0
done = set()
for pid, c in check.CHECKS.items():
    k = (tuple(c["src"]), c.get("san"), tuple(c["libs"]))
    if k in done:
        continue
    done.add(k)
    if check.build(dict(c, id=pid)) is None:
        print("build failed: " + pid)
        bad = 1
sys.exit(0)
