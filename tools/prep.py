"""C30, C33: hands cases to tools/prep_worker.py, which needs numpy."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import tempfile
import threading

import vbuild

PY = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"


def runner(mode):
    return lambda exes, n, opts, res, deadline, only=None: run(mode, exes, n, opts, res, deadline, only)


def run(mode, exes, n, opts, res, deadline, only=None):
    cases = list(range(n)) if only is None else [only]
    conf = mode == "conformance"
    exe = exes[("plain", "mon_py" if conf else "mon_cli")]
    jobs = min(int(os.environ.get("VERIF_JOBS", "8")), len(cases))

    def worker(k):
        d = tempfile.mkdtemp(prefix="verif_prep_")
        try:
            p = subprocess.Popen([PY, os.path.join(vbuild.HERE, "tools", "prep_worker.py"), exe, vbuild.REPO, str(opts["seed"]), mode, opts["tier"]],
                                 cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(os.path.join(d, "stderr"), "w"), text=True)
            timer = threading.Timer(max(5, deadline - __import__("time").time()), p.kill)
            timer.start()
            mine = cases[k::jobs]

            def feed():
                try:
                    for c in mine:
                        p.stdin.write("%d\n" % c)
                    p.stdin.close()
                except OSError:
                    pass
            threading.Thread(target=feed, daemon=True).start()
            ended = 0
            for l in p.stdout:
                e = json.loads(l)
                if "viol" in e:
                    res.add_viol(e["viol"][0], e["viol"][1],
                                 {"property": opts["id"], "variant": "plain", "target": "visqol", "mode": mode, "case": e["case"], "n": n,
                                  "seed": opts["seed"], "tier": opts["tier"]})
                elif "stat" in e:
                    res.stat(e["stat"], e.get("v", 1))
                elif "end" in e:
                    ended += 1
                else:
                    with res.lock:
                        if "begin" in e:
                            res.evals += 1
                        elif "cover" in e:
                            res.cover.add(e["cover"])
                        elif "sample" in e and len(res.samples) < 8:
                            res.samples.append(e["sample"])
            p.wait()
            timer.cancel()
            if ended != len(mine):
                if res.over(deadline):
                    with res.lock:
                        res.notes.append("stopped after %d of %d cases" % (ended, len(mine)))
                else:
                    raise RuntimeError("worker ended early: " + open(os.path.join(d, "stderr")).read()[-2000:])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with cf.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(worker, range(jobs)))
