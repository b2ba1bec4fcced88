"""Helper of the demonstrations about scripts: runs one with the stand-ins for the
packages that are not installed."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
WORK = os.environ["DEMO_WORK"]
DRIVER = """
import json, os, runpy, sys
sys.path.insert(0, sys.argv[1])
out, name = sys.argv[2], sys.argv[3]
sys.argv = sys.argv[3:]
code = 0
try:
    runpy.run_path(name, run_name="__main__")
except SystemExit as e:
    code = e.code or 0
r = {"code": code, "log": [], "data": [], "lattices": [], "loss": []}
if "absl.logging" in sys.modules:
    r["log"] = [t for _, t in sys.modules["absl.logging"].records]
lib = "google3.third_party.visqol.python.visqol_lib_py"
r["scores"] = sys.modules[lib].returned if lib in sys.modules else []
if "tensorflow" in sys.modules:
    import numpy as np
    for e in sys.modules["tensorflow"].log:
        if e[0] == "data":
            r["data"].append([{k: [float(x) for x in v] for k, v in e[1].items()}, [float(x) for x in e[2]]])
        elif e[0] == "estimator":
            mc = e[2]["model_config"]
            lat = mc.kw.get("lattices")
            r["lattices"].append([[str(x) for x in l] for l in lat] if isinstance(lat, list) else None)
            v = e[2]["loss_fn"](np.array([[1.0], [3.0]], np.float32), np.array([[2.0], [2.0]], np.float32), {"tau": np.array([0.2, 0.2], np.float32)})
            r["loss"].append(np.asarray(v, float).tolist())
            r["mono"] = {str(c.kw["name"]): c.kw.get("monotonicity") for c in mc.kw["feature_configs"]}
json.dump(r, open(out, "w"))
"""


# where the script looks for recordings and models
RES = WORK + "/resources"
os.makedirs(RES + "/google3/third_party")
os.symlink(REPO, RES + "/google3/third_party/visqol")
os.environ["VERIF_RESOURCES"] = RES


def run(name, *argv):
    out = WORK + "/result.json"
    p = subprocess.run([sys.executable, "-c", DRIVER, HERE + "/pystubs", out, REPO + "/scripts/" + name] + list(argv),
                       cwd=WORK, capture_output=True, text=True, timeout=100)
    if p.returncode:
        print("demo: %s ended with %d: %s" % (name, p.returncode, p.stderr[-400:]))
        sys.exit(1)
    r = json.load(open(out))
    r["out"] = p.stdout
    return r


def save(name, text):
    with open(WORK + "/" + name, "w") as f:
        f.write(text)
    return WORK + "/" + name


def check(cond, what):
    if not cond:
        print("demo: " + what)
        sys.exit(1)


def features(n):
    return ["fvnsim%d" % i for i in range(n)] + ["fvnsim10_%d" % i for i in range(n)] + ["fstdnsim%d" % i for i in range(n)] + ["fvdegenergy%d" % i for i in range(n)]


def results(rows, bands):
    """rows: [(degraded, [values])] in the program's own order of columns."""
    cols = [k + str(i) for i in range(bands) for k in ("fvnsim", "fvnsim10_", "fstdnsim", "fvdegenergy")]
    t = "reference,degraded,moslqo," + ",".join(cols) + "\n"
    for d, v in rows:
        t += "r.wav,%s,3.5," % d + ",".join(str(x) for x in v) + "\n"
    return save("results.csv", t), cols
