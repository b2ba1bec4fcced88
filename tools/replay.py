#!/usr/bin/env python3
"""Runs the one case a replay file names, with the monitor's output shown."""
import json
import os
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check  # noqa: E402
import vbuild  # noqa: E402

r = json.load(open(sys.argv[1]))
if r["target"] == "visqol":
    import specs
    run = next(x for x in specs.CHECKS[r["property"]]["runs"] if x.get("mode") == r["mode"])
    exes = vbuild.build([("plain", x) for x in ["visqol"] + run["also"]] if "also" in run else [("plain", "visqol")])
    res = check.Result()
    run["py"](exes, r["n"], {"id": r["property"], "seed": r["seed"], "tier": r["tier"]}, res, 1e12, only=r["case"])
    for key, detail, _ in res.viol:
        print(key + ": " + detail)
    sys.exit(1 if res.viol else 0)
if r.get("runner") == "repeat":
    import repeat
    exes = vbuild.build([("plain", "mon_repeat")])
    res = check.Result()
    f = repeat.memcheck if r["variant"] == "memcheck" else repeat.digests
    f(r["mode"])(exes, r["n"], {"id": r["property"], "seed": r["seed"], "tier": r["tier"]}, res, 1e12, only=r["case"])
    for key, detail, _ in res.viol:
        print(key + ": " + detail)
    sys.exit(1 if res.viol else 0)
exe = vbuild.build([(r["variant"], r["target"])])[(r["variant"], r["target"])]
env = dict(os.environ, **check.SAN_ENV)
with tempfile.TemporaryDirectory() as d:
    sys.exit(subprocess.call(
        [exe, "--mode", r["mode"], "--tier", r["tier"], "--seed", str(r["seed"]), "--n", str(r["n"]),
         "--only", str(r["case"]), "--scratch", d, "--repo", vbuild.REPO] + sys.argv[2:], env=env, cwd=d))
