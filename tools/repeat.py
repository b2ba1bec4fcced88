"""C28: the same cases in processes that differ in what must not matter, and
under valgrind's memcheck, which tracks every bit never written."""
import concurrent.futures as cf
import os
import re
import shutil
import subprocess
import tempfile
import threading
import time

import vbuild

# what must not matter; the first is what the others are compared with
CIRCUMSTANCES = [
    ("plain", {}),
    ("fresh memory 0x00, freed 0xff", {"MALLOC_PERTURB_": "255", "VERIF_SCRIBBLE": "255", "PAD": "3000"}),
    ("fresh memory 0xc0, freed 0x3f, backwards", {"MALLOC_PERTURB_": "63", "VERIF_SCRIBBLE": "63", "VERIF_BACKWARDS": "1",
                                                  "TZ": "Asia/Kolkata", "LC_ALL": "C.UTF-8", "TMPDIR": "/nonexistent"}),
    ("fresh memory 0x7f, no caches", {"MALLOC_PERTURB_": "128", "VERIF_SCRIBBLE": "127", "MALLOC_ARENA_MAX": "1",
                                      "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0:glibc.malloc.mmap_threshold=4096"}),
    ("fresh memory 0xfe, freed 0x01", {"MALLOC_PERTURB_": "1", "VERIF_SCRIBBLE": "128", "OMP_NUM_THREADS": "1", "LANG": "de_DE.UTF-8"}),
    ("one processor, no input", {"VERIF_ONE_CPU": "1", "VERIF_CPUS": "1", "HOME": "/", "USER": "nobody"}),
    ("clocks running 5000 times as fast", {"VERIF_CLOCK": "5000", "VERIF_CPUS": "3", "TZ": "UTC+13"}),
]


def replay(opts, mode, case, n, variant="plain"):
    return {"property": opts["id"], "variant": variant, "target": "mon_repeat", "mode": mode, "case": case, "n": n,
            "seed": opts["seed"], "tier": opts["tier"], "runner": "repeat"}


def lines_of(cmd, env, cwd, res, deadline, case_timeout, on):
    """Runs a harness; calls on(letter, rest); returns (exit code, stderr) or None when out of time."""
    err = open(os.path.join(cwd, ".stderr"), "w+b")
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=err, env=env, cwd=cwd, start_new_session=True)
    timer_hit = []

    def watch():
        while p.poll() is None:
            if res.over(deadline) or time.time() - last[0] > case_timeout:
                timer_hit.append("deadline" if res.over(deadline) else "hang")
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                return
            time.sleep(0.5)
    last = [time.time()]
    t = threading.Thread(target=watch, daemon=True)
    t.start()
    for l in p.stdout:
        l = l.decode("utf-8", "replace").rstrip("\n")
        if l.startswith("@@"):
            last[0] = time.time()
            on(l[2], l[4:])
    p.wait()
    t.join()
    err.seek(0)
    text = err.read(400000).decode("utf-8", "replace")
    err.close()
    return (timer_hit[0] if timer_hit else p.returncode), text


def base_cmd(exe, mode, opts, n, scratch, extra):
    return [exe, "--mode", mode, "--tier", opts["tier"], "--seed", str(opts["seed"]), "--n", str(n),
            "--scratch", scratch, "--repo", vbuild.REPO] + extra


def digests(mode):
    """Compares the digests of every case under every circumstance."""
    def run(exes, n, opts, res, deadline, only=None):
        exe = exes[("plain", "mon_repeat")]
        shards = 4
        got = [dict() for _ in CIRCUMSTANCES]
        lock = threading.Lock()
        seen_crash = {}

        def one(job):
            k, s = job
            name, extra_env = CIRCUMSTANCES[k]
            env = dict(os.environ, VERIF_FFT_AS_IS="1", **extra_env)
            if "PAD" in extra_env:
                env["PAD"] = "x" * int(extra_env["PAD"])
            # other circumstances also divide the cases differently among processes
            parts = shards if k % 2 == 0 else shards + k
            scratch = tempfile.mkdtemp(prefix="verif_" + "d" * (7 * k))
            cur = [-1]

            def on(t, rest):
                if t == "B":
                    cur[0] = int(rest)
                    with res.lock:
                        res.evals += 1
                elif t == "D":
                    i, _, d = rest.partition(" ")
                    with lock:
                        got[k][int(i)] = d
                elif t == "V":
                    i, kv = rest.split(" ", 1)
                    key, _, detail = kv.partition("\t")
                    res.add_viol(key, detail, replay(opts, mode, int(i), n))
                elif t == "C" and k == 0:
                    with res.lock:
                        res.cover.add("repeat" + mode + rest)
                elif t == "X" and k == 0:
                    with res.lock:
                        if len(res.samples) < 6:
                            res.samples.append(rest)
            try:
                extra = ["--only", str(only)] if only is not None else ["--shard", str(s), "--shards", str(parts)]
                rc, err = lines_of(base_cmd(exe, mode, opts, n, scratch, extra), env, scratch, res, deadline, 90, on)
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
            if rc in ("deadline", "hang"):
                with res.lock:
                    res.notes.append("%s: stopped (%s) at case %d" % (name, rc, cur[0]))
            elif rc != 0:
                with lock:
                    seen_crash.setdefault(cur[0], {})[k] = (rc, err[-600:])
        jobs = [(k, s) for k in range(len(CIRCUMSTANCES)) for s in range((shards if k % 2 == 0 else shards + k) if only is None else 1)]
        with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
            list(ex.map(one, jobs))
        for case, by in sorted(seen_crash.items()):
            rc, err = next(iter(by.values()))
            res.add_viol("crash in some circumstances", "case %d: %s: %s" % (
                case, ", ".join("%s: %s" % (CIRCUMSTANCES[k][0], r[0]) for k, r in by.items()), err), replay(opts, mode, case, n))
        compared = 0
        for i, d in sorted(got[0].items()):
            for k in range(1, len(CIRCUMSTANCES)):
                if i in got[k]:
                    compared += 1
                    if got[k][i] != d:
                        res.add_viol("results depend on the process", "case %d: %s | %s: %s" % (i, d, CIRCUMSTANCES[k][0], got[k][i]),
                                     replay(opts, mode, i, n))
        res.stat("computations compared between processes", compared)
        res.stat("circumstances", len(CIRCUMSTANCES) - 1)
    return run


def memcheck(mode):
    """No decision, address or output rests on memory never written."""
    def run(exes, n, opts, res, deadline, only=None):
        vg = shutil.which("valgrind")
        if not vg:
            with res.lock:
                res.notes.append("no valgrind: memory contents only varied, not tracked")
            return
        exe = exes[("plain", "mon_repeat")]
        shards = 1 if only is not None else min(n, 2 * int(os.environ.get("VERIF_JOBS", "8")))

        def one(s):
            scratch = tempfile.mkdtemp(prefix="verif_")
            cur = [-1]
            finished = []

            def on(t, rest):
                if t == "B":
                    cur[0] = int(rest)
                    with res.lock:
                        res.evals += 1
                elif t == "D":
                    res.stat("computations under memcheck", 1)
                elif t == "E":
                    finished.append(1)
            extra = ["--only", str(only)] if only is not None else ["--shard", str(s), "--shards", str(shards)]
            cmd = [vg, "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--expensive-definedness-checks=yes",
                   "--num-callers=12", "--track-origins=no", "--max-stackframe=4000000"] + base_cmd(exe, mode, opts, n, scratch, extra)
            env = dict(os.environ, VERIF_SCRIBBLE="-2", VERIF_FFT_AS_IS="1")
            try:
                rc, err = lines_of(cmd, env, scratch, res, deadline, 240, on)
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
            if rc in ("deadline", "hang"):
                with res.lock:
                    res.notes.append("memcheck: stopped (%s) at case %d" % (rc, cur[0]))
                return
            if rc == 99:
                m = re.search(r"==\d+== ((?:Conditional jump|Use of uninit|Syscall param|Invalid|Jump to|Mismatched|Source and dest)[^\n]*)", err)
                kind = re.sub(r"\d+", "#", m.group(1)) if m else "error"
                frame = next((f for f in re.findall(r"(?:at|by) 0x[0-9A-F]+: ([^\n]+)", err) if "Visqol" in f), "")
                frame = re.sub(r"\(.*", "", frame).strip()[:80]
                if m:
                    res.add_viol("memcheck: " + kind + (" in " + frame if frame else ""), "case %d: %s" % (cur[0], err[-1400:]),
                                 replay(opts, mode, cur[0], n, "memcheck"))
                    return
            if not finished:
                with res.lock:
                    res.notes.append("memcheck could not run case %d (rc %s): %s" % (cur[0], rc, err[-200:]))
        with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
            list(ex.map(one, range(shards)))
    return run
