#!/usr/bin/env python3
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import specs
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
SAN = {"asan": "AddressSanitizer+UBSan", "tsan": "ThreadSanitizer"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in specs.CHECKS:
        na.append({"property": i, "reason": "no check yet"})
        continue
    s = specs.CHECKS[i]
    sans = sorted({SAN[r["variant"]] for r in s["runs"] if r["variant"] in SAN})
    checks.append({
        "property": i,
        "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
        "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
        "technique": "runtime monitoring: " + s["technique"] + ("; " + ", ".join(sans) if sans else ""),
        "level": "exploration",
        "level_note": s["note"] + " Assurance covers the executions observed. Trusted: the stand-ins in shim/ for pffft and "
                      "TensorFlow Lite, the system's armadillo, abseil, protobuf and libsvm, and the oracle itself."})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the monitors use public interfaces, interposed library calls and sanitizers only."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
