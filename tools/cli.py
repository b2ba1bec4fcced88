"""C20, C21: runs the real program and compares what it does with the engine's
own results (harness/mon_cli.cc, mode dump)."""
import concurrent.futures as cf
import json
import math
import os
import random
import re
import shutil
import struct
import subprocess
import tempfile
import time

import vbuild

LATTICE = ("lattice_tcditugenmeetpackhref_ls2_nl60_lr12_bs2048_learn.005_ep2400_train1_7_raw.tflite")
SVR = "libsvm_nu_svr_model.txt"


def wav(path, x, rate, ch=1):
    data = b"".join(struct.pack("<h", max(-32768, min(32767, int(round(v * 32767))))) * ch for v in x)
    with open(path, "wb") as f:
        f.write(b"RIFF" + struct.pack("<I", 36 + len(data)) + b"WAVEfmt " +
                struct.pack("<IHHIIHH", 16, 1, ch, rate, 2 * ch * rate, 2 * ch, 16) +
                b"data" + struct.pack("<I", len(data)) + data)


def signal(r, n, rate):
    out, ph, f, a = [], 0.0, r.uniform(60, rate / 3), 0.5
    step = max(1, rate // 12)
    for i in range(n):
        if i % step == 0:
            f, a = r.uniform(60, rate / 2.5), r.choice([0.02, 0.3, 0.5, 0.7, 0.0])
        ph += 2 * math.pi * f / rate
        out.append(a * math.sin(ph) + 0.02 * r.gauss(0, 1))
    return out


def degrade(r, x, rate):
    k = int(rate * r.uniform(0.02, 0.12))
    y = list(x)
    if r.random() < 0.6:
        y = [0.01 * r.gauss(0, 1) for _ in range(k)] + y if r.random() < 0.6 else y[k:]
    if r.random() < 0.6:  # a jump in the middle
        m, j = len(y) // 2, int(rate * r.uniform(0.01, 0.15))
        y = y[:m] + [0.0] * j + y[m:] if r.random() < 0.5 else y[:m] + y[m + j:]
    s = r.choice([0.005, 0.05, 0.15])
    return [0.8 * v + s * r.gauss(0, 1) for v in y]


class Engine:
    """What the engine itself reports for a pair."""

    def __init__(self, exe):
        self.exe = exe

    def results(self, cwd, opt, model, pairs):
        job = os.path.join(cwd, ".job")
        with open(job, "w") as f:
            for a, b in pairs:
                f.write("\x1f".join([str(int(opt["speech"])), str(int(opt["lattice"])), str(int(opt["unscaled"])),
                                     str(opt["radius"]), str(int(opt["noalign"])), str(int(opt["norealign"])),
                                     model, a, b]) + "\n")
        if pairs:
            subprocess.run([self.exe, "--mode", "dump:" + job, "--n", "1", "--scratch", cwd, "--repo", vbuild.REPO],
                           cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
            lines = open(job + ".out").read().splitlines()
            os.unlink(job + ".out")
        else:
            lines = []
        os.unlink(job)
        assert len(lines) == len(pairs), "engine gave %d results for %d pairs" % (len(lines), len(pairs))
        return [self.parse(l, a, b) for l, (a, b) in zip(lines, pairs)]

    @staticmethod
    def parse(l, a, b):
        if not l.startswith("OK|"):
            return None
        f = l.split("|")
        v = lambda s: [float.fromhex(t) for t in s.split(",") if t]
        d = {"referenceFilepath": a, "degradedFilepath": b, "moslqo": v(f[1])[0], "vnsim": v(f[2])[0],
             "alignmentLagS": v(f[3])[0], "fvnsim": v(f[4]), "fvnsim10": v(f[5]), "fstdnsim": v(f[6]),
             "fvdegenergy": v(f[7]), "centerFreqBands": v(f[8]), "patchSims": []}
        for p in f[9:]:
            q = v(p)
            d["patchSims"].append({"similarity": q[0], "refPatchStartTime": q[1], "refPatchEndTime": q[2],
                                   "degPatchStartTime": q[3], "degPatchEndTime": q[4], "freqBandMeans": q[5:]})
        return d


def objects(text):
    out, i, dec = [], 0, json.JSONDecoder()
    while i < len(text):
        while i < len(text) and text[i] in " \r\n\t":
            i += 1
        if i >= len(text):
            break
        o, i = dec.raw_decode(text, i)
        out.append(o)
    return out


def number(x):
    return float(x) if not isinstance(x, str) else {"NaN": math.nan, "Infinity": math.inf, "-Infinity": -math.inf}[x]


def json_diff(o, want):
    known = set(want)
    for k in o:
        if k not in known:
            return "unexpected field " + k
    for k, w in want.items():
        if isinstance(w, str):
            if o.get(k, "") != w:
                return "%s is %r, expected %r" % (k, o.get(k, ""), w)
        elif isinstance(w, float):
            if number(o.get(k, 0.0)) != w:
                return "%s is %r, expected %r" % (k, o.get(k), w)
        elif k == "patchSims":
            ps = o.get(k, [])
            if len(ps) != len(w):
                return "%d patches, expected %d" % (len(ps), len(w))
            for i, (p, q) in enumerate(zip(ps, w)):
                d = json_diff(p, q)
                if d:
                    return "patch %d: %s" % (i, d)
        else:
            g = [number(t) for t in o.get(k, [])]
            if g != w:
                return "%s differs: %r..., expected %r..." % (k, g[:3], w[:3])
    return ""


def csv_row(d):
    return ",".join([d["referenceFilepath"], d["degradedFilepath"], "%.9g" % d["moslqo"]] +
                    ["%.9g" % v for k in ("fvnsim", "fvnsim10", "fstdnsim", "fvdegenergy") for v in d[k]])


def csv_header(d):
    n = len(d["fvnsim"])
    return ",".join(["reference", "degraded", "moslqo"] +
                    [p + str(i) for p in ("fvnsim", "fvnsim10_", "fstdnsim", "fvdegenergy") for i in range(n)])


def console_diff(out, want, opt, verbose):
    """The console shows exactly the results, in order."""
    lines = out.splitlines()
    scores = [l.split("\t")[-1] for l in lines if l.startswith("MOS-LQO")]
    if scores != ["%g" % d["moslqo"] for d in want]:
        return "scores", "%r, expected %r" % (scores, ["%g" % d["moslqo"] for d in want])
    for name, on in (("Speech mode", opt["speech"]), ("Audio mode", not opt["speech"]),
                     ("lattice model", opt["speech"] and opt["lattice"]),
                     ("exponential model", opt["speech"] and not opt["lattice"]),
                     ("support vector regression model", not opt["speech"])):
        if out.count(name) != (len(want) if on else 0):
            return "mode and model", "'%s' %d times for %d results" % (name, out.count(name), len(want))
    for tag, key in (("Reference Filepath:", "referenceFilepath"), ("Degraded Filepath:", "degradedFilepath")):
        got = [l[len(tag) + 1:] for l in lines if l.startswith(tag)]
        if got != ([d[key] for d in want] if verbose else []):
            return "paths", "%r" % got
    bands = [re.findall(r"-?\d+\.\d+", l) for l in lines if l.startswith("|") and "Hz" in l]
    wb = [["%.6f" % a, "%.6f" % b, "%.1f" % c] for d in want
          for a, b, c in zip(d["fvnsim"], d["fvnsim10"], d["centerFreqBands"])] if verbose else []
    if bands != wb:
        return "band rows", "%d rows, expected %d; first difference %r" % (
            len(bands), len(wb), next(((x, y) for x, y in zip(bands, wb) if x != y), None))
    rows = [[t for t in l.replace("|", " ").split() if t != "-"] for l in lines
            if l.startswith("|") and "Hz" not in l and re.search(r"\d", l) and "FVNSIM" not in l]
    wr = [[str(i), "%.6f" % p["similarity"]] + ["%.3f" % p[k] for k in (
        "refPatchStartTime", "refPatchEndTime", "degPatchStartTime", "degPatchEndTime")]
        for d in want for i, p in enumerate(d["patchSims"])] if verbose else []
    if rows != wr:
        return "patch rows", "%d rows, expected %d; first difference %r" % (
            len(rows), len(wr), next(((x, y) for x, y in zip(rows, wr) if x != y), None))
    return None


class Case:
    def __init__(self, exes, opts, res, mode, case, n):
        self.r = random.Random("%s:%d:%d" % (mode, opts["seed"], case))
        self.prog, self.engine = exes[("plain", "visqol")], Engine(exes[("plain", "mon_cli")])
        self.res, self.opts, self.mode, self.case, self.n = res, opts, mode, case, n
        self.what = ""

    def viol(self, key, detail):
        self.res.add_viol(key, (self.what + " | " + detail)[:1500],
                          {"property": self.opts["id"], "variant": "plain", "target": "visqol", "mode": self.mode,
                           "case": self.case, "n": self.n, "seed": self.opts["seed"], "tier": self.opts["tier"]})

    def flag(self, name, value):
        if isinstance(value, bool):
            return self.r.choice([["--%s=%s" % (name, str(value).lower())], ["--" + ("" if value else "no") + name]])
        return self.r.choice([["--%s=%s" % (name, value)], ["--" + name, str(value)]])

    def options(self):
        r = self.r
        o = {"speech": r.random() < 0.5, "lattice": r.random() < 0.6, "unscaled": r.random() < 0.4,
             "radius": r.choice([60, 60, 0, 1, 2, 5, 59, 200]), "noalign": r.random() < 0.3,
             "norealign": r.random() < 0.3}
        names = {"speech": ("use_speech_mode", False), "lattice": ("use_lattice_model", True),
                 "unscaled": ("use_unscaled_speech_mos_mapping", False), "radius": ("search_window_radius", 60),
                 "noalign": ("disable_global_alignment", False), "norealign": ("disable_realignment", False)}
        flags = []
        for k, (name, default) in names.items():
            if o[k] != default or r.random() < 0.3:
                flags.append(self.flag(name, o[k]))
        r.shuffle(flags)
        return o, flags

    def run(self, cwd, flags):
        argv = [x for f in flags for x in f]
        p = subprocess.run([self.prog] + argv, cwd=cwd, capture_output=True, timeout=240,
                           stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")

    def workspace(self, root, files):
        """Input files of which some cannot be compared; returns {name: usable}."""
        r = self.r
        cwd = os.path.join(root, "w d" if r.random() < 0.2 else "w")
        os.makedirs(cwd + "/model")
        for m in (SVR, LATTICE):
            os.symlink(vbuild.REPO + "/model/" + m, cwd + "/model/" + m)
        rate = r.choice([1000, 1600, 2000, 4000])
        good = []
        for i in range(files):
            sub = r.choice(["", "", "in/", "more files/"])
            os.makedirs(os.path.join(cwd, sub), exist_ok=True)
            a, b = "%sref%d.wav" % (sub, i), "%sdeg %d.wav" % (sub, i) if r.random() < 0.2 else "%sdeg%d.wav" % (sub, i)
            x = signal(r, int(rate * r.uniform(1.0, 1.9)), rate)
            wav(os.path.join(cwd, a), x, rate, r.choice([1, 1, 2]))
            wav(os.path.join(cwd, b), degrade(r, x, rate), rate, r.choice([1, 1, 3]))
            if r.random() < 0.3:
                a = os.path.join(cwd, a)
            if r.random() < 0.3:
                b = os.path.join(cwd, b)
            good.append((a, b))
        # files that exist but cannot be used
        open(cwd + "/junk.wav", "w").write("RIFFjunk" * 20)
        open(cwd + "/empty.wav", "w").close()
        wav(cwd + "/short.wav", [0.1] * 50, rate)
        wav(cwd + "/rate.wav", signal(r, rate * 2, rate * 2), rate * 2)
        return cwd, good

    def bad_pair(self, good):
        a, b = self.r.choice(good)
        k = self.r.choice(["missing.wav", "junk.wav", "empty.wav", "rate.wav", "short.wav", "no/such/dir.wav"])
        return self.r.choice([(k, b), (a, k) if k != "short.wav" else (k, b), (k, k) if k not in ("rate.wav",) else (k, b)])

    def batch_text(self, pairs, incomplete):
        r = self.r
        style = r.choice(["\n", "\r\n", None])
        eol = lambda: style or r.choice(["\n", "\r\n"])
        lines = [r.choice(["reference,degraded"] * 4 + ["first,second", "", "reference"])]
        todo = [a + "," + b for a, b in pairs]
        for _ in range(incomplete):
            todo.insert(r.randrange(len(todo) + 1), r.choice(["", "only_one.wav", pairs[0][0] if pairs else "x"]))
        text = "".join(l + eol() for l in lines + todo)
        if r.random() < 0.3 and todo and todo[-1]:
            text = text.rstrip("\r\n")
        return text

    # ------------------------------------------------------------ C20 and C21
    def program(self, root):
        r = self.r
        # either several runs on the same output files, or one
        runs = r.choice([1, 1, 1, 2, 3])
        cwd, good = self.workspace(root, r.choice([1, 2, 2, 3]))
        csv, js = r.choice(["out.csv", "res/out.csv", os.path.join(cwd, "o.csv")]), r.choice(["out.json", "dbg.txt"])
        if "/" in csv and not os.path.isabs(csv):
            os.makedirs(os.path.join(cwd, "res"))
        csv_want, json_want, csv_made, json_head = "", [], False, ""
        if r.random() < 0.25:
            csv_want, csv_made = r.choice(["", "reference,degraded,moslqo\nold1.wav,old2.wav,3.2\n", "something else\n"]), True
            open(os.path.join(cwd, csv), "w").write(csv_want)
        if r.random() < 0.2:
            json_want = [{"moslqo": 2.5}]
            json_head = '{"moslqo":2.5}'
            open(os.path.join(cwd, js), "w").write(json_head)
        for k in range(runs):
            opt, flags = self.options()
            flags = list(flags)
            if r.random() < 0.2:
                m = os.path.join(cwd, "model", LATTICE if opt["speech"] else SVR)
                flags.append(self.flag("similarity_to_quality_model", m))
            model = os.path.join(vbuild.REPO, "model", LATTICE if opt["speech"] else SVR)
            verbose, to_csv, to_json = r.random() < 0.4, r.random() < 0.75, r.random() < 0.8
            if verbose:
                flags.append(self.flag("verbose", True))
            if to_csv:
                flags.append(self.flag("results_csv", csv))
            if to_json:
                flags.append(self.flag("output_debug", js))
            incomplete = 0
            if r.random() < 0.6 or (self.case % 25 == 0 and k == 0):
                pairs = []
                for _ in range(r.choice([0, 1, 2, 3, 4])):
                    pairs.append(self.bad_pair(good) if r.random() < 0.3 else r.choice(good))
                incomplete = r.choice([0, 0, 0, 1, 2])
                if self.case % 25 == 0 and k == 0:
                    # a long list, as of a whole listening test, most files missing
                    for _ in range(r.randint(150, 450)):
                        pairs.append(r.choice(good) if r.random() < 0.1 else
                                     ("%s/%s.wav" % (r.choice(["a", "b" * 60, "c d"]), "x" * r.randint(1, 90)), good[0][1]))
                    incomplete = r.choice([0, 3, 20])
                    self.res.stat("long lists", 1)
                text = self.batch_text(pairs, incomplete)
                open(os.path.join(cwd, "batch%d.csv" % k), "w", newline="").write(text)
                flags.append(self.flag("batch_input_csv", "batch%d.csv" % k))
                if r.random() < 0.4:
                    flags.append(self.flag("reference_file", r.choice([good[0][0], "missing.wav"])))
                    flags.append(self.flag("degraded_file", r.choice([good[-1][1], "missing.wav"])))
                kind = "batch of %d" % len(pairs)
            else:
                bad = r.random() < 0.2
                a, b = self.bad_pair(good) if bad else r.choice(good)
                if bad:
                    a, b = (x if os.path.exists(os.path.join(cwd, x)) else "junk.wav" for x in (a, b))
                pairs = [(a, b)]
                flags += [self.flag("reference_file", a), self.flag("degraded_file", b)]
                kind = "single pair"
            r.shuffle(flags)
            self.what = "run %d/%d %s: %s" % (k + 1, runs, kind, " ".join(x for f in flags for x in f))
            want = self.engine.results(cwd, opt, model, pairs)
            rc, out, err = self.run(cwd, flags)
            if rc < 0:
                self.viol("program crashed", "signal %d: %s" % (-rc, err[-600:]))
                return
            ok = [w for w in want if w]
            fails = len(want) - len(ok) + incomplete
            self.res.stat("program runs", 1)
            self.res.stat("pairs compared", len(ok))
            self.res.stat("pairs refused", fails)
            if not fails and rc != 0:
                self.viol("exit code of a successful run", "%d; %s" % (rc, err[-400:]))
            errors = len(re.findall(r"(?im)error|skipping|fail|invalid|not |could", err))
            if fails and not errors:
                self.viol("no error message", "%d pairs refused; stderr: %s" % (fails, err[-400:]))
            d = console_diff(out, ok, opt, verbose)
            if d:
                self.viol("console: " + d[0], d[1] + "; stderr " + err[-300:])
                return
            if to_csv and ok:
                if not csv_made:
                    csv_want += csv_header(ok[0]) + "\n"
                    csv_made = True
                csv_want += "".join(csv_row(w) + "\n" for w in ok)
            if to_json:
                json_want += ok
            path = os.path.join(cwd, csv)
            if os.path.exists(path) != csv_made:
                self.viol("results file", "exists: %s" % os.path.exists(path))
                return
            if csv_made:
                got = open(path, newline="").read()
                if got != csv_want:
                    i = next((i for i, (x, y) in enumerate(zip(got, csv_want)) if x != y), min(len(got), len(csv_want)))
                    self.viol("results file", "differs at byte %d: %r, expected %r" % (i, got[max(0, i - 60):i + 60], csv_want[max(0, i - 60):i + 60]))
                    return
            path = os.path.join(cwd, js)
            got = open(path).read() if os.path.exists(path) else ""
            if not got.startswith(json_head):
                self.viol("json file", "earlier contents lost")
                return
            try:
                o = objects(got)
            except ValueError as e:
                self.viol("json file", "unreadable: %s: %s" % (e, got[:200]))
                return
            if len(o) != len(json_want):
                self.viol("json file", "%d objects, expected %d" % (len(o), len(json_want)))
                return
            for i, (x, w) in enumerate(zip(o, json_want)):
                if json_head and i == 0:
                    continue
                dd = json_diff(x, w)
                if dd:
                    self.viol("json file", "object %d: %s" % (i, dd))
                    return
            with self.res.lock:
                self.res.cover.add(self.what + "".join("%.12g" % w["moslqo"] for w in ok))
                if len(self.res.samples) < 8:
                    self.res.samples.append(self.what.replace(root, "") + " -> scores %s, %d refused" % (["%.6f" % w["moslqo"] for w in ok], fails))

    def refusal(self, root):
        """Missing inputs: fails before anything is compared or written."""
        r = self.r
        cwd, good = self.workspace(root, 1)
        a, b = good[0]
        opt, flags = self.options()
        kind = r.choice(["ref", "deg", "both", "nothing", "only ref", "only deg", "batch", "default model", "explicit model",
                         "lattice model", "junk model"])
        flags = list(flags)
        speech = lambda on: flags.append(["--use_speech_mode=" + ("true" if on else "false")])
        if kind in ("ref", "both"):
            flags.append(self.flag("reference_file", r.choice(["gone.wav", "no/where.wav"])))
        elif kind not in ("nothing", "only deg", "batch"):
            flags.append(self.flag("reference_file", a))
        if kind in ("deg", "both"):
            flags.append(self.flag("degraded_file", "gone2.wav"))
        elif kind not in ("nothing", "only ref", "batch"):
            flags.append(self.flag("degraded_file", b))
        if kind == "batch":
            flags.append(self.flag("batch_input_csv", "gone.csv"))
            if r.random() < 0.5:
                flags += [self.flag("reference_file", a), self.flag("degraded_file", b)]
        elif kind == "default model":
            on = r.random() < 0.5
            speech(on)
            if on:
                flags.append(["--use_lattice_model=true"])
            os.unlink(os.path.join(cwd, "model", LATTICE if on else SVR))
        elif kind == "explicit model":
            speech(False)
            flags.append(self.flag("similarity_to_quality_model", "model/gone.txt"))
        elif kind == "lattice model":
            speech(True)
            flags += [["--use_lattice_model"], self.flag("similarity_to_quality_model", "model/gone.tflite")]
        elif kind == "junk model":
            speech(False)
            open(cwd + "/model/junk.txt", "w").write("no model at all\n")
            flags.append(self.flag("similarity_to_quality_model", "model/junk.txt"))
        if kind in ("default model", "explicit model", "lattice model", "junk model") and r.random() < 0.5:
            open(cwd + "/b.csv", "w").write("reference,degraded\n%s,%s\n" % (a, b))
            flags.append(self.flag("batch_input_csv", "b.csv"))
        flags += [self.flag("results_csv", "o.csv"), self.flag("output_debug", "o.json")]
        old = r.random() < 0.3
        if old:
            open(cwd + "/o.csv", "w").write("kept\n")
        self.what = "missing: %s: %s" % (kind, " ".join(x for f in flags for x in f))
        rc, out, err = self.run(cwd, flags)
        if rc == 0:
            self.viol("missing input accepted: " + kind, "exit code 0; %s" % err[-300:])
        elif rc < 0:
            self.viol("program crashed", "signal %d: %s" % (-rc, err[-600:]))
        if "MOS-LQO" in out or os.path.exists(cwd + "/o.json") or (os.path.exists(cwd + "/o.csv") and not old) or \
                (old and open(cwd + "/o.csv").read() != "kept\n"):
            self.viol("compared although input is missing: " + kind, out[-300:])
        if not err.strip() and not out.strip():
            self.viol("no error message", "nothing printed")
        self.res.stat("refused: " + kind, 1)
        with self.res.lock:
            self.res.cover.add(self.what)

    def go(self):
        root = tempfile.mkdtemp(prefix="verif_cli_")
        try:
            if self.mode == "refusal":
                self.refusal(root)
            else:
                self.program(root)
        except subprocess.TimeoutExpired:
            self.viol("program hung", "no end after 240 s")
        finally:
            shutil.rmtree(root, ignore_errors=True)


def runner(mode):
    def py(exes, n, opts, res, deadline, only=None):
        def one(i):
            if time.time() > deadline:
                with res.lock:
                    res.notes.append("stopped at the time limit (case %d)" % i)
                return
            with res.lock:
                res.evals += 1
            Case(exes, opts, res, mode, i, n).go()
        todo = range(n) if only is None else [only]
        with cf.ThreadPoolExecutor(8) as ex:
            for f in [ex.submit(one, i) for i in todo]:
                f.result()
    return py
