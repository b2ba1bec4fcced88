#!/usr/bin/env python3
"""Builds every monitor in every variant a check uses."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import specs  # noqa: E402
import vbuild  # noqa: E402
want = set()
for s in specs.CHECKS.values():
    for r in s["runs"]:
        want.add((r["variant"], r["target"]))
        want |= {(r["variant"], t) for t in r.get("also", [])}
try:
    vbuild.prune()
    vbuild.build(sorted(want))
except vbuild.BuildError as e:
    print(e)
    sys.exit(1)
print("built %d monitors" % len(want))
