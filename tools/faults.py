"""C29: the real program with interrupted and short transfers, full disks and
sudden ends. tools/faultio.c, preloaded, watches and spoils its file I/O."""
import concurrent.futures as cf
import os
import shutil
import signal
import subprocess
import tempfile
import time

import cli
import vbuild


def shim():
    src = os.path.join(vbuild.HERE, "tools", "faultio.c")
    out = os.path.join(vbuild.BUILD, "faultio." + vbuild.sha(open(src, "rb").read())[:16] + ".so")
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", src, "-o", tmp, "-ldl"], check=True)
        os.replace(tmp, out)
    return out


class Fault(cli.Case):
    def spawn(self, cwd, flags, fault, after=None):
        """Runs the program under a fault; after: kill when that many scores were seen."""
        log = os.path.join(cwd, "..", "log")
        if os.path.exists(log):
            os.unlink(log)
        env = dict(os.environ, LD_PRELOAD=self.so, FAULT_ROOT=cwd, FAULT_LOG=log, **fault)
        argv = [self.prog] + [x for f in flags for x in f]
        out_path = os.path.join(cwd, "..", "stdout")
        target = "/dev/full" if fault.get("STDOUT_FULL") else out_path
        with open(target, "wb") as o, open(os.path.join(cwd, "..", "stderr"), "wb") as e:
            p = subprocess.Popen(argv, cwd=cwd, env=env, stdout=o, stderr=e, stdin=subprocess.DEVNULL)
            t0 = time.time()
            while True:
                try:
                    p.wait(timeout=0.002 if after is not None else 240)
                    break
                except subprocess.TimeoutExpired:
                    seen = open(out_path, "rb").read().count(b"MOS-LQO") if after is not None else 0
                    if after is not None and seen >= after or time.time() - t0 > 240:
                        p.kill()
                        p.wait()
                        if time.time() - t0 > 240:
                            raise subprocess.TimeoutExpired(argv, 240)
                        break
        text = "" if target == "/dev/full" else open(out_path, "rb").read().decode("utf-8", "replace")
        lines = open(log).read().splitlines() if os.path.exists(log) else []
        return p.returncode, text, open(os.path.join(cwd, "..", "stderr"), errors="replace").read(), lines

    def csv_state(self, got, head, want):
        """(complete rows, problem): got must be head + rows, the last possibly incomplete."""
        full = head + (cli.csv_header(want[0]) + "\n" if not self.had_csv and want else "")
        rows = [cli.csv_row(w) + "\n" for w in want]
        whole = full + "".join(rows)
        if not whole.startswith(got):
            i = next((i for i, (x, y) in enumerate(zip(got, whole)) if x != y), min(len(got), len(whole)))
            return 0, "differs at byte %d: %r, expected %r" % (i, got[max(0, i - 60):i + 40], whole[max(0, i - 60):i + 40])
        if len(got) < len(head):
            return 0, "earlier contents cut"
        n, pos = 0, len(full)
        for x in rows:
            pos += len(x)
            if len(got) < pos:
                break
            n += 1
        return n, ""

    def json_state(self, got, head, want):
        if not got.startswith(head):
            return 0, "earlier contents lost"
        import json
        dec, i, n = json.JSONDecoder(), len(head), 0
        while True:
            while i < len(got) and got[i] in " \r\n\t":
                i += 1
            if i >= len(got):
                return n, ""
            try:
                o, i = dec.raw_decode(got, i)
            except ValueError:
                if n >= len(want):
                    return n, "something after the last result: %r" % got[i:i + 80]
                # an incomplete object: nothing whole may follow it
                return (n, "") if got.count('"moslqo"', i) <= 1 else (n, "unreadable object followed by others: %r" % got[i:i + 80])
            if n >= len(want):
                return n, "%d objects or more, expected %d" % (n + 1, len(want))
            d = cli.json_diff(o, want[n])
            if d:
                return n, "object %d: %s" % (n, d)
            n += 1

    def faults(self, root):
        r = self.r
        cwd, good = self.workspace(root, r.choice([1, 2, 2]))
        opt, flags = self.options()
        opt["radius"] = r.choice([0, 2, 5])
        flags = [f for f in flags if "search_window" not in f[0]] + [self.flag("search_window_radius", opt["radius"])]
        verbose = r.random() < 0.3
        if verbose:
            flags.append(self.flag("verbose", True))
        flags += [self.flag("results_csv", "out.csv"), self.flag("output_debug", "out.json")]
        pairs = [self.bad_pair(good) if r.random() < 0.15 else r.choice(good) for _ in range(r.choice([1, 2, 3, 4]))]
        open(os.path.join(cwd, "b.csv"), "w", newline="").write(self.batch_text(pairs, 0))
        flags.append(self.flag("batch_input_csv", "b.csv"))
        model = os.path.join(vbuild.REPO, "model", cli.LATTICE if opt["speech"] else cli.SVR)
        want = [w for w in self.engine.results(cwd, opt, model, pairs) if w]
        self.had_csv = r.random() < 0.4
        csv_head = r.choice(["", "reference,degraded,moslqo\nold.wav,old2.wav,3.25\n"]) if self.had_csv else ""
        json_head = r.choice(["", '{"moslqo":2.5}'])
        csv, js = os.path.join(cwd, "out.csv"), os.path.join(cwd, "out.json")
        base = "%d pairs, %d comparable, %s" % (len(pairs), len(want), " ".join(x for f in flags for x in f))

        def reset():
            for p, on, text in ((csv, self.had_csv, csv_head), (js, bool(json_head), json_head)):
                if os.path.exists(p):
                    os.unlink(p)
                if on:
                    open(p, "w").write(text)

        def read(p):
            return open(p, newline="").read() if os.path.exists(p) else ""

        # without faults, and with transfers that are short or interrupted
        calls = writes = 0
        for k in range(3):
            self.what = "short transfers %d: %s" % (k, base) if k else "no fault: " + base
            reset()
            rc, out, err, log = self.spawn(cwd, flags, {"FAULT_SHORT": str(r.randrange(1, 1 << 30))} if k else {})
            if k == 0:
                calls = sum(1 for l in log if not l.startswith(("short", "eintr")))
                writes = sum(1 for l in log if l.startswith("write"))
            self.res.stat("short or interrupted transfers", sum(1 for l in log if l.startswith(("short", "eintr"))))
            if rc < 0:
                self.viol("program crashed", "signal %d: %s" % (-rc, err[-500:]))
                return
            d = cli.console_diff(out, want, opt, verbose)
            if d:
                self.viol(("partial transfers change the " if k else "") + "console: " + d[0], d[1])
                return
            for name, state, head, path in (("results file", self.csv_state, csv_head, csv), ("json file", self.json_state, json_head, js)):
                n, bad = state(read(path), head, want)
                if bad or n != len(want):
                    self.viol(name + (" after partial transfers" if k else ""), bad or "%d results, expected %d" % (n, len(want)))
                    return
        self.res.stat("program runs", 3)
        with self.res.lock:
            self.res.cover.add(base)
        if not want:
            return
        # sudden ends
        ends = [("FAULT_KILL", k) for k in sorted(r.sample(range(1, calls + 1), min(calls, 3)))] + \
               [("FAULT_KILL", k) for k in range(max(1, calls - 12), calls + 1) if r.random() < 0.25] + \
               [("FAULT_TEAR", k) for k in sorted(r.sample(range(1, writes + 1), min(writes, 3)))] + \
               [("seen", k) for k in r.sample(range(1, len(want) + 1), min(len(want), 2))]
        for kind, k in ends:
            self.what = "%s %d of %d: %s" % ({"FAULT_KILL": "killed at call", "FAULT_TEAR": "killed within write",
                                              "seen": "killed when score was seen"}[kind], k,
                                             {"FAULT_KILL": calls, "FAULT_TEAR": writes, "seen": len(want)}[kind], base)
            reset()
            rc, out, err, log = self.spawn(cwd, flags, {} if kind == "seen" else {kind: str(k)}, k if kind == "seen" else None)
            if rc not in (0, -signal.SIGKILL):
                self.viol("program crashed", "exit %d: %s" % (rc, err[-500:]))
                return
            shown = sum(1 for l in out.splitlines() if l.startswith("MOS-LQO"))
            self.res.stat("sudden ends" if rc else "ends that came too late", 1)
            for name, state, head, path in (("results file", self.csv_state, csv_head, csv), ("json file", self.json_state, json_head, js)):
                n, bad = state(read(path), head, want)
                if bad:
                    self.viol(name + " after a sudden end", bad)
                    return
                if n < shown - 1:
                    self.viol(name + " lost results in a sudden end", "%d results kept of %d shown" % (n, shown))
                    return
        # one output cannot be written
        for full in r.sample(["out.csv", "out.json", "console"], 2):
            frm = r.choice([0, 0, 1, 2])
            self.what = "no space for %s from write %d: %s" % (full, frm, base)
            reset()
            rc, out, err, log = self.spawn(cwd, flags, {"STDOUT_FULL": "1"} if full == "console" else {"FAULT_FULL": full, "FAULT_FROM": str(frm)})
            if rc < 0:
                self.viol("program crashed", "signal %d: %s" % (-rc, err[-500:]))
                return
            self.res.stat("outputs refused", 1)
            if full != "console":
                d = cli.console_diff(out, want, opt, verbose)
                if d:
                    self.viol("console when a file cannot be written: " + d[0], d[1])
                    return
            for name, state, head, path in (("results file", self.csv_state, csv_head, csv), ("json file", self.json_state, json_head, js)):
                mine = full == os.path.basename(path)
                got = read(path)
                if mine:
                    if not got.startswith(head):
                        self.viol(name + " that cannot be written", "earlier contents lost")
                        return
                    continue
                n, bad = state(got, head, want)
                if bad or n != len(want):
                    self.viol(name + " when another output cannot be written", bad or "%d results, expected %d" % (n, len(want)))
                    return
        # one output path leads nowhere
        for bad_flag, rest in (("results_csv", "output_debug"), ("output_debug", "results_csv")):
            os.makedirs(os.path.join(cwd, "dir"), exist_ok=True)
            dead = r.choice(["missing/out", "dir", "dir/", "b.csv/out"])
            self.what = "--%s %s: %s" % (bad_flag, dead, base)
            reset()
            mine = self.flag(bad_flag, dead)
            kept = [f for f in flags if bad_flag not in f[0]]
            if mine is None:
                continue
            rc, out, err, log = self.spawn(cwd, kept + [mine], {})
            if rc < 0:
                self.viol("program crashed", "signal %d: %s" % (-rc, err[-500:]))
                return
            self.res.stat("outputs that lead nowhere", 1)
            d = cli.console_diff(out, want, opt, verbose)
            if d:
                self.viol("console when a file cannot be opened: " + d[0], d[1])
                return
            state, head, path, name = (self.json_state, json_head, js, "json file") if rest == "output_debug" else (self.csv_state, csv_head, csv, "results file")
            n, bad = state(read(path), head, want)
            if bad or n != len(want):
                self.viol(name + " when another output cannot be opened", bad or "%d results, expected %d" % (n, len(want)))
                return
        with self.res.lock:
            if len(self.res.samples) < 8:
                self.res.samples.append("%s: %d file calls, %d writes, %d ends" % (base.replace(root, ""), calls, writes, len(ends)))

    def go(self):
        root = tempfile.mkdtemp(prefix="verif_cli_")
        try:
            self.faults(root)
        except subprocess.TimeoutExpired:
            self.viol("program hung", "no end after 240 s")
        finally:
            shutil.rmtree(root, ignore_errors=True)


def run(exes, n, opts, res, deadline, only=None):
    so = shim()

    def one(i):
        if res.over(deadline):
            with res.lock:
                res.notes.append("stopped (case %d)" % i)
            return
        with res.lock:
            res.evals += 1
        c = Fault(exes, opts, res, "faults", i, n)
        c.so = so
        c.go()
    with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        for f in [ex.submit(one, i) for i in (range(n) if only is None else [only])]:
            f.result()
