#!/usr/bin/env python3-vt
"""C30, C33: runs the data preparation and training scripts of /repo/scripts on
results files the library wrote, with the packages that are not in the sandbox
replaced by those in pystubs/, and compares what they produce.

Prints one JSON line per event: {"case":.., "viol":[key, detail]} | {"stat":..} |
{"cover":..} | {"sample":..}."""
import concurrent.futures
import csv
import io
import json
import math
import os
import pickle
import random
import re
import runpy
import shlex
import subprocess
import sys
import tempfile
import warnings

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXE, REPO, SEED, MODE, TIER = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4], sys.argv[5]
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
CASE = 0


def emit(**kw):
    print(json.dumps(dict(kw, case=CASE)), flush=True)


def viol(key, detail):
    emit(viol=[key, detail[:1500]])


# ------------------------------------------------------------------ running
def script(name, argv, cwd, after=None):
    """Runs a script as the main program in a child process.
    Returns (status, stdout, logged, what `after` gave); status "" when it ended well."""
    out, res = os.path.join(cwd, ".out"), os.path.join(cwd, ".res")
    for p in (out, res):
        if os.path.exists(p):
            os.unlink(p)
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        status, logged, extra = "", [], None
        try:
            os.chdir(cwd)
            fd = os.open(out, os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
            os.dup2(fd, 1)
            sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb", 0, closefd=False), write_through=True)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 2)
            sys.path.insert(0, os.path.join(HERE, "pystubs"))
            sys.argv = [name] + argv
            try:
                runpy.run_path(os.path.join(REPO, "scripts", name), run_name="__main__")
            except SystemExit as e:
                if e.code not in (None, 0):
                    status = "exit %s" % e.code
            if "absl.logging" in sys.modules:
                logged = sys.modules["absl.logging"].records
            if after and not status:
                extra = after()
        except BaseException as e:
            status = ("unsupported " if type(e).__name__ == "Unsupported" else "raised ") + type(e).__name__ + ": " + str(e)[:300]
        try:
            sys.stdout.flush()
            with open(res, "wb") as f:
                pickle.dump((status, [(l, str(t)) for l, t in logged], extra), f)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    try:
        status, logged, extra = pickle.load(open(res, "rb"))
    except (OSError, EOFError, pickle.UnpicklingError) as e:
        status, logged, extra = "died: %r" % (e,), [], None
    text = open(out, encoding="utf-8", errors="replace").read() if os.path.exists(out) else ""
    emit(stat="scripts run")
    return status, text, logged, extra


def failed(name, status, what):
    if status.startswith("unsupported"):
        emit(stat="inconclusive: beyond the stand-ins")
        return True
    if status:
        viol(name + " failed", what + ": " + status)
        return True
    return False


# ------------------------------------------------------------------ results files
def number(r):
    k = r.random()
    return r.uniform(0, 1) if k < 0.7 else r.choice([0.0, 1.0, 1e-12, 0.123456789012, 0.5]) if k < 0.85 else -r.uniform(0, 1)


def results_file(cwd, rows):
    """rows: [(reference, degraded, moslqo, [(nsim, nsim10, std, energy)])]"""
    path, job = os.path.join(cwd, "results.csv"), os.path.join(cwd, "job")
    with open(job, "w") as f:
        f.write(path + "\n")
        for a, b, m, bands in rows:
            f.write("\x1f".join([a, b, repr(m)] + [repr(x) for t in bands for x in t]) + "\n")
    if os.path.exists(path):
        os.unlink(path)
    subprocess.run([EXE, "--mode", "rows:" + job, "--n", "1", "--scratch", cwd, "--repo", REPO], cwd=cwd, check=True,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
    return path


def make_rows(r, n, bands, dirs=("a", "b/c", "/data/x y")):
    rows = []
    for i in range(n):
        d = r.choice(dirs)
        rows.append(("%s/ref%d.wav" % (d, i), "%s/deg_%d%s.wav" % (d, i, r.choice(["", ".x", "-é", "_nan"])), r.uniform(1, 5),
                     [(number(r), number(r), abs(number(r)), r.uniform(-40, 60)) for _ in range(bands)]))
    return rows


def nine(x):
    return float("%.9g" % x)


# ------------------------------------------------------------------ svm-train file
def svm(r, cwd):
    bands, n = r.choice([32, 32, 21, 1, 2, 11, r.randint(1, 40)]), r.choice([1, 2, 5, r.randint(1, 40)])
    rows = make_rows(r, n, bands)
    path = results_file(cwd, rows)
    labels = [r.choice([r.uniform(1, 5), round(r.uniform(1, 5), 1), float(r.randint(1, 5))]) for _ in range(n)]
    if r.random() < 0.2:
        labels = [r.randint(1, 5) for _ in range(n)]
    extra = r.choice([[], [], ["file"], ["id"], ["file", "listener_count"]])
    mos = os.path.join(cwd, "mos.csv")
    with open(mos, "w") as f:
        f.write(",".join(extra + ["moslqs"]) + "\n")
        for i, x in enumerate(labels):
            f.write(",".join(["f%d.wav" % i if e == "file" else str(100 + i) for e in extra] + [repr(x)]) + "\n")
    what = "%d rows of %d bands, label file with %s" % (n, bands, extra + ["moslqs"])
    status, text, _, _ = script("make_svm_train_file.py", ["--results_csv_path=" + path, "--moslqs_csv_path", mos], cwd)
    if failed("make_svm_train_file", status, what):
        return
    lines = text.splitlines()
    if len(lines) != n:
        viol("svm file rows", "%s: %d lines" % (what, len(lines)))
        return
    for i, l in enumerate(lines):
        f = l.split(" ")
        try:
            got = [(int(a), float(b)) for a, b in (x.split(":") for x in f[1:])]
            lab = float(f[0])
        except ValueError:
            viol("svm file syntax", "%s: %r" % (what, l[:200]))
            return
        if abs(lab - labels[i]) > 1e-14 * abs(labels[i]):
            viol("svm file label", "%s: row %d has %r, expected %r" % (what, i, lab, labels[i]))
            return
        want = [(k + 1, nine(t[0])) for k, t in enumerate(rows[i][3])]
        if len(got) != len(want) or any(a != c or abs(b - d) > 1e-14 * abs(d) for (a, b), (c, d) in zip(got, want)):
            bad = next((k for k, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
            viol("svm file features", "%s: row %d has %d values (expected %d), first difference at %d: %r, expected %r" %
                 (what, i, len(got), bands, bad, got[bad:bad + 1], want[bad:bad + 1]))
            return
    emit(stat="svm rows compared", v=n)
    emit(cover="svm " + what + repr(labels[:2]))
    emit(sample="svm-train file: " + what)


# ------------------------------------------------------------------ lattice training
def observe(seed):
    """In the child: what the (stand-in) estimators were given, as plain data."""
    def f():
        import tensorflow
        rng = np.random.RandomState(seed)
        got = {"data": [], "est": [], "feat": [], "taus": []}
        for e in tensorflow.log:
            if e[0] == "data":
                got["data"].append((e[1], e[2], e[3]))
            elif e[0] == "train" or e[0] == "evaluate":
                x, y = e[2]
                got["taus"].append((e[0], np.asarray(x["tau"], float).tolist(), len(y), sorted(x)))
            elif e[0] == "estimator":
                kw = e[2]
                mc = kw["model_config"]
                fc = [dict(c.kw) for c in mc.kw["feature_configs"]]
                for c in fc:
                    c.pop("regularizer_configs", None)
                    if "pwl_calibration_input_keypoints" in c:
                        c["pwl_calibration_input_keypoints"] = np.asarray(c["pwl_calibration_input_keypoints"], float).tolist()
                    c["name"] = str(c["name"])
                loss = []
                for _ in range(3):
                    b = rng.randint(1, 9)
                    lab, log = rng.uniform(1, 5, (b, 1)).astype(np.float32), rng.uniform(1, 5, (b, 1)).astype(np.float32)
                    tau = rng.uniform(0, 1, b).astype(np.float32)
                    v = kw["loss_fn"](lab, log, {"tau": tau})
                    loss.append((lab.tolist(), log.tolist(), tau.tolist(), np.asarray(v, float).tolist()))
                lat = mc.kw.get("lattices")
                got["est"].append({"min": mc.kw.get("output_min"), "max": mc.kw.get("output_max"), "loss": loss, "features": fc,
                                   "lattices": [[str(x) for x in l] for l in lat] if isinstance(lat, list) else None,
                                   "rank": mc.kw.get("lattice_rank"), "num": mc.kw.get("num_lattices")})
        return got
    return f


def lattice(r, cwd):
    bands, n = r.choice([21, 21, 1, 3, r.randint(1, 25)]), r.choice([3, 10, r.randint(2, 60)])
    rows = make_rows(r, n, bands)
    want, mos_lines, odd = {}, [], 0
    for i, (a, b, m, f) in enumerate(rows):
        if r.random() < 0.15:
            b = "/db/Speech_Databases/Genspeech/cond%d/lang/talker%d/same.wav" % (i, i % 3)
        if r.random() < 0.12 and n > 5:
            k = r.randrange(bands)
            t = list(f[k])
            t[r.randrange(4)] = math.nan
            f = f[:k] + [tuple(t)] + f[k + 1:]
        rows[i] = (a, b, m, f)
        key = "_".join(b.split("/")[-4:]) if "Genspeech" in b else os.path.basename(b)
        label = round(r.uniform(1, 5), r.choice([1, 3, 10]))
        known = r.random() < 0.9
        if known:
            mos_lines.append((r.choice(["", "some/dir/"]) + key, label))
        else:
            odd += 1
        if known and not any(math.isnan(x) for t in f for x in t):
            want[key] = (label, [nine(x) for t in f for x in t])
    if not want:
        return
    if r.random() < 0.5:
        mos_lines.append(("unused.wav", 2.5))
    r.shuffle(mos_lines)
    path, mos = results_file(cwd, rows), os.path.join(cwd, "mos.csv")
    cols = r.choice([["Filename", "MOS"], ["MOS", "Filename"], ["Filename", "Lang", "MOS"]])
    with open(mos, "w") as f:
        f.write(",".join(cols) + "\n")
        for k, v in mos_lines:
            f.write(",".join({"Filename": k, "MOS": repr(v), "Lang": "en"}[c] for c in cols) + "\n")
    kind = r.choice(["linear", "random_ensemble", "tau_ensemble", "tau_ensemble"])
    ratio, batch = r.choice([0.8, 0.5, 1.0, 0.3]), r.choice([1, 7, 300])
    lsize, rank, num = r.choice([2, 3, 4]), r.choice([3, 5, 12, 16]), r.choice([2, 15, 40])
    tf_n, tn_n = r.choice([1, 2, 4]), r.choice([5, 11])
    argv = ["--mos_csv=" + mos, "--fvnsim_csv", path, "--num_fvnsim_bands=%d" % bands, "--model=" + kind,
            "--train_set_ratio=%g" % ratio, "--batch_size=%d" % batch, "--lattice_size=%d" % lsize, "--lattice_rank=%d" % rank,
            "--num_lattices=%d" % num, "--target_fvnsim_per_lattice=%d" % tf_n, "--target_features_per_lattice=%d" % tn_n]
    what = "%d rows of %d bands (%d usable), %s" % (n, bands, len(want), " ".join(argv[3:]))
    first = None
    for again in range(2):
        status, text, logged, got = script("train_lattice.py", argv, cwd, observe(CASE))
        if failed("train_lattice", status, what):
            return
        names = [p + str(i) for i in range(bands) for p in ("fvnsim", "fvnsim10_", "fstdnsim", "fvdegenergy")]
        if not got["est"] or not got["data"]:
            viol("nothing trained", what)
            return
        sets = []
        for cols_, y, _ in got["data"]:
            if sorted(cols_) != sorted(names):
                viol("training features", "%s: %s" % (what, sorted(set(cols_) ^ set(names))[:8]))
                return
            sets.append([(float(y[k]), [float(cols_[c][k]) for c in names]) for k in range(len(y))])
        train, test = sets[0], (sets[1] if len(sets) > 1 else [])
        if len(train) != int(len(want) * ratio):
            viol("training set size", "%s: %d of %d" % (what, len(train), len(want)))
            return
        pool = sorted((v[0], [float(np.float32(x)) for x in v[1]]) for v in want.values())
        if sorted(train + test) != pool:
            both = train + test
            bad = next((t for t in both if t not in pool), None)
            viol("training data", "%s: %d training and %d test rows for %d labelled results%s" %
                 (what, len(train), len(test), len(pool), "" if bad is None else "; not among them: label %r, values %r..." % (bad[0], bad[1][:5])))
            return
        if first is None:
            first = (train, test)
        elif first != (train, test):
            viol("training split differs between runs", what)
            return
        for k, taus, size, feats in got["taus"]:
            if feats != sorted(names + ["tau"]) or len(taus) != size or any(t < 0 or t > 1 for t in taus):
                viol("quantile feature", "%s: %s taus %r for %d" % (what, k, taus[:5], size))
                return
        e = got["est"][0]
        for lab, log, tau, v in e["loss"]:
            lab, log, tau, v = map(np.array, (lab, log, tau, v))
            d = lab - log
            w = np.where(d >= 0, d * tau[:, None], d * (tau[:, None] - 1))
            if np.shape(v) != np.shape(w) and np.shape(v) != () or np.max(np.abs((v - w) if np.shape(v) else v - w.mean())) > 1e-5:
                viol("quantile loss", "%s: %r, expected %r" % (what, v.tolist(), w.tolist()))
                return
        if (e["min"], e["max"]) != (1, 5):
            viol("output range", "%s: %r" % (what, (e["min"], e["max"])))
            return
        cfg = {c["name"]: c for c in e["features"]}
        if sorted(cfg) != sorted(names + ["tau"]):
            viol("configured features", "%s: %s" % (what, sorted(set(cfg) ^ set(names + ["tau"]))[:6]))
            return
        for c in names + ["tau"]:
            up = c.startswith("fvnsim") or c == "tau"
            if (cfg[c].get("monotonicity") == "increasing") != up or cfg[c].get("lattice_size") != (lsize if c.startswith("fvnsim") else 2):
                viol("feature configuration", "%s: %s is %r" % (what, c, cfg[c]))
                return
        if kind == "tau_ensemble":
            lat = e["lattices"] or []
            limit = lsize ** tf_n * 2 ** (tn_n - tf_n)
            if any("tau" not in l for l in lat):
                viol("lattice without tau", what)
                return
            if set(x for l in lat for x in l) != set(names + ["tau"]):
                viol("features left out of all lattices", "%s: %s" % (what, sorted(set(names) - set(x for l in lat for x in l))[:6]))
                return
            for l in lat[:num]:
                size = np.prod([lsize if x.startswith("fvnsim") else 2 for x in l if x != "tau"] or [1.0])
                if size > limit or len(l) > rank:
                    viol("lattice too large", "%s: %r" % (what, l))
                    return
            emit(stat="lattices checked", v=len(lat))
    emit(stat="training rows compared", v=2 * len(want))
    emit(cover="lattice " + what)
    emit(sample="lattice training: " + what)


# ------------------------------------------------------------------ polynomial fit
def poly(r, cwd):
    n = r.randint(12, 80)
    nsim, mos = os.path.join(cwd, "nsim.csv"), os.path.join(cwd, "mos.csv")
    c = [r.uniform(-20, 160), r.uniform(-300, 20), r.uniform(0, 200), r.uniform(-70, 5)]
    pts, f1, f2 = [], ["reference,degraded,vnsim"], ["Filename,MOS"]
    for i in range(n):
        x, y = round(r.uniform(0.3, 1), 6), round(r.uniform(1, 5), 3)
        if r.random() < 0.5:
            y = round(float(max(1, min(5, np.polyval(c, x) + r.gauss(0, 0.3)))), 3)
        name = "C_%02d_%s.wav" % (i, r.choice(["ECHO", "NOISE", "nan"]))
        u = r.random()
        if u < 0.06:
            f1.append("/d/ref/R_%d.wav,/d/%s,nan" % (i, name))
            f2.append("%s,%r" % (name, y))
            continue
        f1.append("/d/ref/R_%d.wav,/d/%s,%r" % (i, name, x))
        if u < 0.12:
            continue
        f2.append("%s,%r" % (name, y))
        pts.append((x, y))
    if r.random() < 0.4:
        h, t = f2[:1], f2[1:]
        r.shuffle(t)
        f2 = h + t
    open(nsim, "w").write("\n".join(f1) + "\n")
    open(mos, "w").write("\n".join(f2) + "\n")
    ratio = r.choice([1.0, 1.0, 0.7, 0.5])
    what = "%d points of %d, ratio %g" % (len(pts), n, ratio)
    status, text, logged, _ = script("fit_nsim_to_mos_poly.py", ["--mos_csv", mos, "--nsim_csv=" + nsim, "--train_set_ratio=%g" % ratio], cwd)
    if failed("fit_nsim_to_mos_poly", status, what):
        return
    num = r"[-+]?(?:\d+\.\d+(?:e[-+]?\d+)?|nan|inf)"
    say = {}
    for level, t in logged:
        m = re.match(r"\[(\w+)\] (.*)", t)
        if m:
            v = [float(x) for x in re.findall(num, m.group(2))]
            kind = "coef" if "coefficients" in t else "train" if "train error" in t else "test" if "test error" in t else "scale" if "scale" in t else ""
            say[(m.group(1), kind)] = v
    x, y = np.array(pts).T
    k = int(len(pts) * ratio)
    need = [(a, b) for a in ("new_coefs", "v238") for b in ("coef", "train", "test", "scale")]
    if any(q not in say for q in need):
        viol("poly report", "%s: %s missing" % (what, [q for q in need if q not in say]))
        return
    old = np.array([158.7423, -373.5843, 295.5249, -75.2952])
    if not np.allclose(say[("v238", "coef")], old, atol=1e-6):
        viol("published coefficients", "%s: %r" % (what, say[("v238", "coef")]))
        return
    if ratio == 1.0:
        best = np.linalg.lstsq(np.vander(x, 4), y, rcond=None)[0]
        got = np.array(say[("new_coefs", "coef")])
        if np.max(np.abs(np.polyval(got, x) - np.polyval(best, x))) > 1e-4:
            viol("fitted polynomial", "%s: %r, expected %r" % (what, got.tolist(), best.tolist()))
            return
        if not all(math.isnan(v) for q in ("new_coefs", "v238") for v in say[(q, "test")]):
            viol("points both trained on and tested", "%s: %r" % (what, say[("v238", "test")]))
            return
    for q in ("new_coefs", "v238"):
        co = np.array(say[(q, "coef")])
        err = (np.clip(np.polyval(co, x), 1, 5) - y) ** 2
        a, b = say[(q, "train")][0], say[(q, "test")][0]
        total = (a * k if k else 0) + (b * (len(pts) - k) if k < len(pts) else 0)
        if abs(total - err.sum()) > 1e-3 + 2e-6 * len(pts) + 1e-4 * err.sum():
            viol("reported errors", "%s: %s errors %g and %g over %d and %d points, together %g, expected %g" %
                 (what, q, a, b, k, len(pts) - k, total, err.sum()))
            return
        top = np.polyval(co, 1.0)
        want = 1.0 if top > 5 else 5.0 / top
        if abs(say[(q, "scale")][0] - want) > 2e-6 + 1e-4 * abs(want):
            viol("scale", "%s: %s %g, expected %g" % (what, q, say[(q, "scale")][0], want))
            return
    emit(stat="polynomial fits compared")
    emit(cover="poly " + what + repr(pts[:1]))
    emit(sample="polynomial fit: " + what)


# ------------------------------------------------------------------ batch list
def tcd(r, cwd):
    want = set()
    for i in range(r.randint(1, 12)):
        cond = r.choice(["echo", "chop", "noise", "compspkr"])
        d = os.path.join(cwd, "Test_Set", cond)
        os.makedirs(os.path.join(d, "ref"), exist_ok=True)
        name = "%02d_%s_%s.wav" % (i, cond.upper(), r.choice(["FA", "MK", "R_1"]))
        open(os.path.join(d, "ref", "R_" + name), "w").close()
        open(os.path.join(d, "C_" + name), "w").close()
        want.add((os.path.join(d, "ref", "R_" + name), os.path.join(d, "C_" + name)))
        if r.random() < 0.3:
            open(os.path.join(d, "readme.txt"), "w").close()
    p = subprocess.run(["sh", os.path.join(REPO, "scripts", "make_tcd_voip_batch_csv.sh")], cwd=cwd, capture_output=True, text=True, timeout=60)
    emit(stat="scripts run")
    what = "%d pairs" % len(want)
    lines = p.stdout.splitlines()
    real = os.path.realpath(cwd)
    got = [tuple(l.replace(real, cwd).split(",")) for l in lines[1:]]
    if p.returncode or not lines or [x.strip() for x in lines[0].split(",")] != ["reference", "degraded"] or sorted(got) != sorted(want):
        viol("tcd batch list", "%s: exit %d: %r, expected %r" % (what, p.returncode, lines[:4], sorted(want)[:2]))
        return
    emit(stat="batch lists compared")
    emit(cover="tcd " + repr(sorted(os.path.basename(a) for a, b in want)))


# ------------------------------------------------------------------ model conversion
def convert(r, cwd):
    name = r.choice(["saved", "export_%d" % r.randint(0, 10 ** 9), "a.b", "model x"])
    src, out = os.path.join(cwd, r.choice(["in", "deep/er"]), name), os.path.join(cwd, "out")
    os.makedirs(src)
    os.makedirs(out)
    model = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 100, 5000])))
    with open(os.path.join(src, "saved_model.pb"), "wb") as f:
        f.write(model)
    if r.random() < 0.5:
        with open(os.path.join(out, name + ".tflite"), "wb") as f:
            f.write(b"earlier" * 2000)
    if r.random() < 0.3:
        with open(os.path.join(out, "other.tflite"), "wb") as f:
            f.write(b"other")
    others = {n: open(os.path.join(out, n), "rb").read() for n in os.listdir(out) if n != name + ".tflite"}

    def ops():
        import tensorflow
        return [e[1:] for e in tensorflow.log if e[0] == "convert"]
    what = "%s of %d bytes" % (name, len(model))
    status, _, _, used = script("convert_saved_model_to_tflite.py", ["--saved_model_dir=" + src, "--output_dir", out], cwd, ops)
    if failed("convert_saved_model_to_tflite", status, what):
        return
    if sorted(os.listdir(out)) != sorted(list(others) + [name + ".tflite"]) or any(open(os.path.join(out, n), "rb").read() != v for n, v in others.items()):
        viol("converted model's name", "%s: %r" % (what, sorted(os.listdir(out))))
        return
    got = open(os.path.join(out, name + ".tflite"), "rb").read()
    if got != b"TFL3" + model:
        viol("converted model's bytes", "%s: %d bytes" % (what, len(got)))
        return
    if len(used) != 1 or sorted(used[0][1]) != ["SELECT_TF_OPS", "TFLITE_BUILTINS"]:
        viol("operations of the converted model", "%s: %r" % (what, used))
        return
    emit(stat="models converted")
    emit(cover="convert " + what)


# ------------------------------------------------------------------ published scores
SET = "testdata/conformance_testdata_subset/"
SPEECH = "testdata/clean_speech/"
GUITAR, SHORT = SET + "guitar48_stereo.wav", "testdata/short_duration/5_second/guitar48_stereo_5_sec.wav"
MIS = ("testdata/alignment/reference.wav", "testdata/alignment/degraded.wav")
PUBLISHED = {
    "kConformanceSpeechCA01TranscodedLattice": (SPEECH + "CA01_01.wav", SPEECH + "transcoded_CA01_01.wav", "lattice"),
    "kConformanceSpeechCA01TranscodedExponential": (SPEECH + "CA01_01.wav", SPEECH + "transcoded_CA01_01.wav", "scaled"),
    "kConformanceCA01PerfectScoreLattice": (SPEECH + "CA01_01.wav", SPEECH + "CA01_01.wav", "lattice"),
    "kConformanceUnscaledPerfectScoreExponential": (SPEECH + "CA01_01.wav", SPEECH + "CA01_01.wav", "unscaled"),
    "kConformanceCastanetsIdentity": (SET + "castanets48_stereo.wav", SET + "castanets48_stereo.wav", "audio"),
    "kConformanceGuitarShortDegradedPatch": (GUITAR, SHORT, "audio"),
    "kConformanceGuitarShortReferencePatch": (SHORT, GUITAR, "audio"),
    "kConformanceDifferentAudiosLattice": (GUITAR, SPEECH + "CA01_01.wav", "lattice"),
    "kConformanceDifferentAudiosExponential": (GUITAR, SPEECH + "CA01_01.wav", "scaled"),
    "kConformanceBadDegradedLattice": MIS + ("lattice",),
    "kConformanceBadDegradedExponential": MIS + ("scaled",),
}
for _n, _f in [("StraussLp35", "strauss48_stereo lp35"), ("SteelyLp7", "steely48_stereo lp7"), ("Sopr256aac", "sopr48_stereo 256kbps_aac"),
               ("Ravel128opus", "ravel48_stereo 128kbps_opus"), ("Moonlight128aac", "moonlight48_stereo 128kbps_aac"),
               ("Harpsichord96mp3", "harpsichord48_stereo 96kbps_mp3"), ("Guitar64aac", "guitar48_stereo 64kbps_aac"),
               ("Glock48aac", "glock48_stereo 48kbps_aac"), ("Contrabassoon24aac", "contrabassoon48_stereo 24kbps_aac")]:
    _a, _b = _f.split()
    PUBLISHED["kConformance" + _n] = (SET + _a + ".wav", SET + _a + "_" + _b + ".wav", "audio")
OTHER = {"kCA01_01AsAudio": (SPEECH + "CA01_01.wav", SPEECH + "transcoded_CA01_01.wav", "audio")}  # the updater leaves it alone
AUDIO_MODEL = "model/libsvm_nu_svr_model.txt"
LATTICE_MODEL = "model/lattice_tcditugenmeetpackhref_ls2_nl60_lr12_bs2048_learn.005_ep2400_train1_7_raw.tflite"


def conformance(r, cwd):
    root = os.path.realpath(REPO)
    header = os.path.join(root, "src/include/conformance.h")
    before = open(header).read()
    constants = dict(re.findall(r"^#define (k\w+) \(([0-9.]+)\)", before, re.M))
    res = os.path.join(cwd, "resources")
    os.makedirs(os.path.join(res, "google3", "third_party"))
    os.symlink(root, os.path.join(res, "google3", "third_party", "visqol"))
    module = [EXE, "--scratch", cwd, "--repo", root]
    os.environ.update(VERIF_RESOURCES=res, VERIF_MODULE=json.dumps(module), VERIF_SCORES=os.path.join(cwd, "scores.json"))
    sys.path.insert(0, os.path.join(HERE, "pystubs"))
    from google3.third_party.visqol.python import visqol_lib_py as lib
    keys, want = {}, {}
    for name, (a, b, kind) in PUBLISHED.items():
        model = {"lattice": os.path.join(root, LATTICE_MODEL), "audio": os.path.join(root, AUDIO_MODEL)}.get(kind, "")
        keys[name] = json.dumps([kind, model, 60, False, False, os.path.join(root, a), os.path.join(root, b)])
    if CASE == 0:
        def score(name):
            a, b, kind = PUBLISHED.get(name) or OTHER[name]
            p = [lib.FilePath(os.path.join(root, x)) for x in (LATTICE_MODEL if kind == "lattice" else AUDIO_MODEL, a, b)]
            try:
                return float(lib.ask(lib.encode((p[0], kind != "audio", kind == "unscaled", 60, kind == "lattice", False, False), {}) + "\x1e" +
                                     lib.encode((p[1], p[2]), {})))
            except Exception as e:
                return "%s: %s" % (type(e).__name__, e)
        names = sorted(PUBLISHED) + sorted(OTHER)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            want = dict(zip(names, ex.map(score, names)))
        for name, v in want.items():
            if isinstance(v, str):
                viol("no score for a published recording", "%s: %s" % (name, v))
                return
            if name not in constants or abs(v - float(constants[name])) > 1e-4:
                viol("published score", "%s: %.9g, published %s" % (name, v, constants.get(name)))
                return
        emit(stat="published scores confirmed", v=len(want))
        for name in OTHER:
            want.pop(name)
        for name in PUBLISHED:
            want.setdefault(name, float(constants[name]))
    else:
        for name in PUBLISHED:
            u = r.random()
            want[name] = r.uniform(1, 5) if u < 0.6 else r.choice([1.0, 5.0, 4.0, 4.999999999999999, 1.0000000000000002]) if u < 0.8 else round(r.uniform(1, 5), r.randint(1, 8))
    json.dump({keys[n]: want[n] for n in want}, open(os.environ["VERIF_SCORES"], "w"))
    status, text, _, _ = script("create_conformance_scores.py", [], cwd)
    what = "with the engine's scores" if CASE == 0 else "with other scores"
    if failed("create_conformance_scores", status, what):
        return
    # a header renewed before, with scores of every shape
    if CASE % 2 == 1:
        for name in PUBLISHED:
            before = re.sub(r"(#define %s )\([0-9.]+\)" % name, lambda m: m.group(1) + "(%r)" % r.choice([1.0, 5.0, 2.0, r.uniform(1, 5), round(r.uniform(1, 5), 2), 4.999999999999999]), before)
    work = os.path.join(cwd, "work")
    copy = os.path.join(work, "third_party/visqol/src/include/conformance.h")
    os.makedirs(os.path.dirname(copy))
    with open(copy, "w") as f:
        f.write(before)
    lines = [l for l in text.splitlines() if l.strip()]
    for l in lines:
        argv = shlex.split(l)
        if argv[:1] != ["sed"]:
            viol("updater command", "%s: %r" % (what, l))
            return
        p = subprocess.run(["sed", "--sandbox"] + argv[1:], cwd=work, capture_output=True, text=True, timeout=60)
        if p.returncode or p.stdout:
            viol("updater command", "%s: %r: %s" % (what, l, (p.stderr + p.stdout)[:200]))
            return
    after = open(copy).read()
    shape = lambda t: re.sub(r"^(#define (k\w+) )\([0-9.]+\)", lambda m: m.group(1) + ("" if m.group(2) in PUBLISHED else m.group(0)), t, flags=re.M)
    if shape(after) != shape(before):
        viol("updater changes something else", "%s: %r" % (what, [l for l in after.splitlines() if l not in before.splitlines()][:4]))
        return
    new = dict(re.findall(r"^#define (k\w+) \(([0-9.]+)\)", after, re.M))
    for name, v in want.items():
        if abs(float(new[name]) - v) > 1e-12:
            viol("updated score", "%s: %s becomes %s, the engine gives %.17g" % (what, name, new[name], v))
            return
    emit(stat="scores renewed", v=len(want))
    emit(cover="scores " + what + repr([want[n] for n in sorted(want)][:3]))
    emit(sample="%d commands %s" % (len(lines), what))


def main():
    global CASE
    base = os.getcwd()
    for l in sys.stdin:
        CASE = int(l)
        r = random.Random("prep/%d/%d" % (SEED, CASE))
        random.seed(1000 + CASE)
        np.random.seed(1000 + CASE)
        with tempfile.TemporaryDirectory(prefix="verif_prep_", dir=base) as d:
            emit(begin=1)
            (conformance if MODE == "conformance" else r.choice([svm, svm, svm, lattice, lattice, lattice, poly, poly, tcd, convert]))(r, d)
        emit(end=1)


main()
