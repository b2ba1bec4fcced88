#!/usr/bin/env python3
"""Makes and tries the planted bugs described in tools/seeds/*.py.
mkseed.py make ID...   writes seeded/ID
mkseed.py try ID...    builds, tests, demo with and without, the property's check
State of the trials goes to build/seeds.json."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
STATE = HERE + "/build/seeds.json"


def specs():
    out = {}
    for f in sorted(glob.glob(HERE + "/tools/seeds/*.py")):
        ns = {}
        exec(open(f).read(), ns)
        for s in ns["SEEDS"]:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def restore():
    sh("git -C /repo checkout -- .")


def make(s):
    assert sh("git -C /repo status --short").stdout == ""
    d = HERE + "/seeded/" + s["id"]
    try:
        for f, old, new in s["edits"]:
            p = REPO + f if f.startswith("/") else REPO + "/src/" + f
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git -C /repo diff").stdout
    finally:
        restore()
    assert diff
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    src = HERE + "/tools/demo/"
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    open(d + "/meta.json", "a").write("\n")
    if "demo_py" in s:
        shutil.copy(src + "script.py", d)
        shutil.copytree(HERE + "/pystubs", d + "/pystubs", ignore=shutil.ignore_patterns("__pycache__"))
        open(d + "/demo.sh", "w").write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 DEMO_WORK=$(mktemp -d)\n'
            'trap \'rm -r "$DEMO_WORK"\' EXIT\n'
            'python3-vt "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write("from script import *\n\n" + s["demo_py"].strip() + "\n")
        return
    flags = s.get("flags", "")
    open(d + "/demo.sh", "w").write(
        '#!/bin/bash\nexec python3 "$(cd "$(dirname "$0")" && pwd)/build_demo.py" %s\n' % flags)
    os.chmod(d + "/demo.sh", 0o755)
    shutil.copy(src + "build_demo.py", d)
    shutil.copy(src + "demo.h", d)
    shutil.copytree(HERE + "/shim", d + "/shim")
    body = s["demo"].strip() + "\n"
    if "int main" not in body:
        pre, sep, rest = body.rpartition("//--\n")
        body = pre + "int main(int argc, char** argv) {\n" + rest + "  return 0;\n}\n"
    inc = "".join('#include "%s"\n' % h for h in s.get("inc", []))
    if s.get("using"):
        inc += "using namespace Visqol;\n"
    open(d + "/demo.cc", "w").write('#include "demo.h"\n' + inc + "\n" + body)


def demo(i):
    t = time.time()
    tmp = tempfile.mkdtemp(prefix="seed.")
    shutil.copytree(HERE + "/seeded/" + i, tmp + "/d",
                    ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    r = sh("cd /repo && bash %s/d/demo.sh" % tmp)
    shutil.rmtree(tmp)
    out = [l for l in (r.stdout + r.stderr).splitlines()
           if re.search(r"demo:|error:|AddressSanitizer:|ThreadSanitizer:|runtime error|terminate|what\(", l)]
    return r.returncode, "\n".join(out)[-600:], time.time() - t


def save(i, rec):
    st = {}
    try:
        st = json.load(open(STATE))
    except (OSError, ValueError):
        pass
    st[i] = rec
    json.dump(st, open(STATE, "w"), indent=1, sort_keys=True)


def trial(s, only_check=False):
    i, rec = s["id"], {}
    assert sh("git -C /repo status --short").stdout == ""
    if not only_check:
        rc, out, dt = demo(i)
        rec["demo_clean"] = rc
        if rc != 0:
            print(i, "DEMO FAILS ON CLEAN TREE\n", out)
            save(i, rec)
            return
    r = sh("git -C /repo apply --whitespace=nowarn %s/seeded/%s/patch.diff" % (HERE, i))
    assert r.returncode == 0, r.stderr
    try:
        if not only_check:
            r = sh("bash /opt/vp/build.sh")
            rec["build"] = r.returncode
            if r.returncode != 0:
                print(i, "DOES NOT BUILD", (r.stdout + r.stderr)[-800:])
                return
            sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            base = json.load(open("/opt/vp/BASELINE.json"))
            got = json.load(open("/tmp/seedtest.json"))
            want = base.get("stable") or base.get("passed") or base.get("tests")
            rec["tests_missing"] = sorted(set(want) - set(got["passed"]))
            rc, out, dt = demo(i)
            rec["demo_patched"] = rc
            rec["demo_out"] = out[-300:]
            rec["demo_s"] = round(dt, 1)
            if rc == 0:
                print(i, "DEMO DOES NOT FAIL")
            if "demo:" not in out and "AddressSanitizer" not in out and "runtime error" not in out \
                    and "ThreadSanitizer" not in out:
                print(i, "ODD DEMO OUTPUT", out)
        t = time.time()
        env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
        r = sh("cd %s && python3 tools/check.py %s" % (HERE, s["prop"]), env=env)
        viol = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + s["prop"])]
        rec["check_rc"] = r.returncode
        rec["check_s"] = round(time.time() - t, 1)
        rec["caught"] = r.returncode == 1 and bool(viol)
        rec["first"] = (viol or [(r.stdout + r.stderr)[-300:]])[0]
    finally:
        restore()
        if not only_check:
            sh("bash /opt/vp/build.sh")
        save(i, rec)
    ok = only_check or (rec["demo_clean"] == 0 and rec["demo_patched"] != 0
                        and not rec["tests_missing"])
    print(i, s["prop"], "VALID" if ok else "INVALID %s" % rec.get("tests_missing"),
          "CAUGHT" if rec["caught"] else "MISSED", rec.get("demo_s"), rec["check_s"],
          rec.get("demo_out", "").strip().splitlines()[-1:] or "", flush=True)


def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    sp = specs()
    if not ids:
        ids = list(sp)
    ids = [i for pat in ids for i in sp if re.fullmatch(pat, i)]
    for i in ids:
        try:
            if cmd in ("make", "both"):
                make(sp[i])
            if cmd in ("try", "both", "check"):
                trial(sp[i], cmd == "check")
        except AssertionError as e:
            print(i, "ERROR", e, flush=True)


main()
