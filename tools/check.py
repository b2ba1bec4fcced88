#!/usr/bin/env python3
"""Decides one property: check.py <ID> [--tier quick|thorough] [--seed N] [--n N].

Builds what the check needs from the repository's working tree, runs its monitors
in parallel, and turns what they observed into a verdict. Exit 0: held on
everything explored; 1: violated (VIOLATION line); 2: no answer."""
import argparse
import concurrent.futures as cf
import json
import os
import re
import resource
import selectors
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import specs  # noqa: E402
import vbuild  # noqa: E402

HERE = vbuild.HERE
REPO = vbuild.REPO
# how long to go on after the first violation
SETTLE = 0 if os.environ.get("VERIF_FAST") else 40
WORKERS = int(os.environ.get("VERIF_JOBS", "8"))
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
                    "max_allocation_size_mb=6000:hard_rss_limit_mb=8000:detect_stack_use_after_return=0:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1:history_size=7",
}


class Result:
    def __init__(self):
        self.lock = threading.Lock()
        self.viol = []        # (key, detail, replay dict)
        self.stats, self.cover, self.samples = {}, set(), []
        self.evals = 0
        self.errors, self.notes = [], []
        self.first_viol = None

    def over(self, deadline):
        """Out of time; with a violation in hand there is not much more to learn."""
        now = time.time()
        return now > deadline or (self.first_viol is not None and now > self.first_viol + SETTLE)

    def add_viol(self, key, detail, replay):
        with self.lock:
            if self.first_viol is None:
                self.first_viol = time.time()
            self.viol.append((key, detail, replay))

    def stat(self, name, v):
        with self.lock:
            self.stats[name] = self.stats.get(name, 0) + v


def san_key(err):
    """A short, seed independent name for a sanitizer report or crash."""
    m = re.search(r"ERROR: (AddressSanitizer|ThreadSanitizer|LeakSanitizer): ([\w-]+(?: [\w-]+)?)", err)
    kind = None
    if m:
        kind = m.group(2).split(" on")[0].strip()
    elif "WARNING: ThreadSanitizer" in err:
        kind = re.search(r"WARNING: ThreadSanitizer: ([^(\n]+)", err).group(1).strip()
    else:
        m = re.search(r"runtime error: ([^\n]{0,60})", err)
        if m:
            kind = "ub: " + re.sub(r"[-+]?\d[\d.e+]*|0x[0-9a-f]+|inf|nan", "#", m.group(1))
        else:
            m = re.search(r"Assertion '([^']*)' failed", err)
            if m:
                kind = "assertion: " + m.group(1)
    frame = ""
    for f in re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]+)", err):
        if "Visqol::" in f or "/repo/src/" in f:
            frame = " in " + re.sub(r"\(.*", "", f).strip()[:80]
            break
    return (kind, frame)


def run_shard(exe, run, shard, shards, n, opts, res, deadline):
    start, restarts = 0, 0
    while True:
        scratch = tempfile.mkdtemp(prefix="verif_")
        try:
            st = run_once(exe, run, ["--shard", str(shard), "--shards", str(shards), "--from", str(start)],
                          n, opts, res, deadline, scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        if st is None:
            return
        kind, case, detail = st
        if kind == "deadline":
            with res.lock:
                res.notes.append("stopped early (shard %d, case %s)" % (shard, case))
            return
        if kind == "hang" or kind == "killed":
            if res.first_viol is not None:
                return
            # once more, alone
            scratch = tempfile.mkdtemp(prefix="verif_")
            try:
                o2 = dict(opts, case_timeout=2 * opts["case_timeout"])
                again = run_once(exe, run, ["--only", str(case)], n, o2, Result(), deadline + 130, scratch)
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
            if again is None or again[0] == "deadline":
                with res.lock:
                    res.notes.append("case %s %s once, not again: inconclusive" % (case, kind))
            else:
                kind2, _, detail2 = again
                res.add_viol(kind2, detail2, replay_of(run, case, n, opts))
        elif kind == "error":
            with res.lock:
                res.errors.append(detail)
            return
        else:
            res.add_viol(kind, detail, replay_of(run, case, n, opts))
        restarts += 1
        start = case + 1
        if restarts > 4 or start >= n:
            return


def replay_of(run, case, n, opts):
    return {"property": opts["id"], "variant": run["variant"], "target": run["target"],
            "mode": run.get("mode", ""), "case": case, "n": n, "seed": opts["seed"], "tier": opts["tier"]}


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def run_once(exe, run, extra, n, opts, res, deadline, scratch):
    """None when it ran to the end, else (kind, case, detail)."""
    env = dict(os.environ)
    env.update(SAN_ENV)
    env["TMPDIR"] = scratch
    cmd = [exe, "--mode", run.get("mode", ""), "--tier", opts["tier"], "--seed", str(opts["seed"]),
           "--n", str(n), "--scratch", scratch, "--repo", REPO] + extra
    errf = open(os.path.join(scratch, ".stderr"), "w+b")
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=errf, env=env, cwd=scratch,
                         start_new_session=True,
                         preexec_fn=limit_memory if run["variant"] == "plain" else None)
    sel = selectors.DefaultSelector()
    sel.register(p.stdout, selectors.EVENT_READ)
    buf, cur, note, done = b"", -1, "", False
    last = time.time()
    verdict = None
    try:
        while True:
            if not sel.select(1.0):
                now = time.time()
                if res.over(deadline):
                    verdict = ("deadline", cur, "")
                    break
                if now - last > opts["case_timeout"]:
                    verdict = ("hang", cur, "no progress for %d s: %s" % (opts["case_timeout"], note))
                    break
                continue
            data = os.read(p.stdout.fileno(), 65536)
            if not data:
                break
            buf += data
            *lines, buf = buf.split(b"\n")
            for l in lines:
                l = l.decode("utf-8", "replace")
                if not l.startswith("@@"):
                    continue
                t, rest = l[2], l[4:]
                if t == "B":
                    cur, last, note = int(rest), time.time(), ""
                    with res.lock:
                        res.evals += 1
                    if res.over(deadline):
                        verdict = ("deadline", cur, "")
                elif t == "N":
                    note = rest
                    last = time.time()
                elif t == "V":
                    idx, kv = rest.split(" ", 1)
                    key, _, detail = kv.partition("\t")
                    res.add_viol(key, detail, replay_of(run, int(idx), n, opts))
                elif t == "S":
                    v, _, name = rest.partition(" ")
                    res.stat(name, float(v))
                elif t == "C":
                    with res.lock:
                        res.cover.add(run["target"] + run.get("mode", "") + rest)
                elif t == "X":
                    with res.lock:
                        if len(res.samples) < 12:
                            res.samples.append(rest)
                elif t == "E":
                    done = True
            if verdict:
                break
    finally:
        if verdict or p.poll() is None:
            if verdict or not done:
                try:
                    p.wait(timeout=20 if not verdict else 0.01)
                except subprocess.TimeoutExpired:
                    pass
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        p.wait()
        errf.seek(0, 2)
        size = errf.tell()
        errf.seek(max(0, size - 60000))
        err = errf.read().decode("utf-8", "replace")
        errf.close()
    if verdict:
        return verdict
    if done:
        return None
    rc = p.returncode
    if cur < 0:
        return ("error", -1, "harness failed to start (rc %d): %s" % (rc, err[-2000:]))
    if rc == -signal.SIGKILL:
        return ("killed", cur, "killed (out of memory?): " + note)
    kind, frame = san_key(err)
    pos = max(err.find("ERROR: "), err.find("WARNING: ThreadSanitizer"), err.find("runtime error:") - 120, 0)
    name = "crash:" + (kind + frame if kind else "signal %d" % -rc if rc < 0 else "exit %d" % rc)
    return (name, cur, "%s | %s" % (note, err[pos:pos + 1500] if kind else err[-700:]))


def load_known():
    known = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S.*?) \| (.*)", l.strip())
            if m:
                known.append(m.groups())
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--n", type=int, default=0, help="override the number of cases")
    ap.add_argument("--run", type=int, default=-1, help="only this entry of the check")
    a = ap.parse_args()
    spec = specs.CHECKS[a.id]
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    limit = 650 if tier == "quick" else 3300
    deadline = t0 + limit
    res = Result()
    runs = [r for i, r in enumerate(spec["runs"]) if a.run in (-1, i)]
    want = sorted({(r["variant"], r["target"]) for r in runs} |
                  {(r["variant"], x) for r in runs for x in r.get("also", [])})
    try:
        exes = vbuild.build(want)
    except vbuild.BuildError as e:
        print("build failed: %s" % e)
        return 2
    tb = time.time() - t0
    jobs, planned = [], 0
    for r in runs:
        n = a.n or r["n"][0 if tier == "quick" else 1]
        planned += n
        opts = {"id": a.id, "tier": tier, "seed": a.seed, "case_timeout": r.get("case_timeout", 60 if tier == "quick" else 300)}
        if "py" in r:
            jobs.append((r, exes, None, 1, n, opts))
        else:
            shards = min(r.get("shards", 2 * WORKERS), n)
            for s in range(shards):
                jobs.append((r, exes, s, shards, n, opts))

    def go(j):
        r, ex, s, shards, n, opts = j
        try:
            if "py" in r:
                r["py"](ex, n, opts, res, deadline)
            else:
                run_shard(ex[(r["variant"], r["target"])], r, s, shards, n, opts, res, deadline)
        except Exception as e:  # a broken harness is no verdict
            import traceback
            with res.lock:
                res.errors.append(traceback.format_exc())
    workers = max(1, WORKERS // spec.get("threads", 1))
    with cf.ThreadPoolExecutor(workers) as ex:
        list(ex.map(go, jobs))

    known = load_known()
    reported, found = {}, {}
    for key, detail, rep in res.viol:
        k = next((x for x in known if x[0] == a.id and x[1] == key), None)
        if k:
            found[key] = k
        elif key not in reported:
            reported[key] = (detail, rep)
    for k in known:
        if k[0] == a.id:
            print("KNOWN-FINDING: property=%s %s" % (a.id, k[2]))
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    for i, (key, (detail, rep)) in enumerate(sorted(reported.items())[:10]):
        safe = re.sub(r"[^A-Za-z0-9]+", "_", key)[:60]
        path = os.path.join(HERE, "replay", "%s-%s.json" % (a.id, safe))
        with open(path, "w") as f:
            json.dump(dict(rep, key=key, detail=detail,
                           how="python3 tools/replay.py " + os.path.relpath(path, HERE)), f, indent=1)
        print("%s: %s: %s" % (a.id, key, detail[:900]))
        print("VIOLATION property=%s replay=%s" % (a.id, os.path.relpath(path, HERE)))
    stats = {k: (int(v) if v == int(v) else v) for k, v in sorted(res.stats.items())}
    inc = sum(v for k, v in res.stats.items() if k.startswith("inconclusive"))
    cov = {"evaluations": res.evals, "distinct_nontrivial": len(res.cover), "rule": spec["rule"],
           "samples": [s[:600] for s in res.samples[:8]] or ["(none)"],
           "planned_cases": planned, "observed": stats, "inconclusive": int(inc),
           "builds": sorted({r["variant"] for r in runs}), "build_s": round(tb, 1),
           "notes": res.notes[:20], "violation_keys": sorted(reported)[:20],
           "known_findings_seen": sorted(found)}
    ev = {"property": a.id, "tier": tier, "seed": a.seed, "level": spec.get("level", "exploration"),
          "coverage": cov, "assumptions": spec.get("assumptions", []) + specs.COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(reported)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n in res.notes:
        print("note:", n)
    print("%s: %d cases, %d distinct, %d violations, %.1f s (build %.1f s)" %
          (a.id, res.evals, len(res.cover), len(reported), time.time() - t0, tb))
    if reported:
        return 1
    if res.errors:
        print("harness errors:\n" + "\n".join(res.errors[:3]))
        return 2
    # at most a third of the planned distinct cases may be missing
    if len(res.cover) < spec.get("min_cover", 5) and not a.n and not res.notes:
        print("nothing observed: only %d distinct cases" % len(res.cover))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
