#!/usr/bin/env python3
"""Builds the code under test, with the stand-ins for its two missing third-party
libraries, in several instrumented variants. Objects are cached by content."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

COMMON = ["-std=c++17", "-g1", "-w", "-DARMA_DONT_USE_WRAPPER", "-pthread"]
VARIANTS = {
    # what the project ships: optimised, assertions off
    "plain": ["-O2", "-DNDEBUG"],
    # memory and undefined behaviour; libstdc++ container assertions on
    "asan": ["-O1", "-DNDEBUG", "-fsanitize=address,undefined,float-cast-overflow",
             "-fno-sanitize=vptr", "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-DNDEBUG", "-fsanitize=thread", "-fno-omit-frame-pointer"],
}
LINK = {
    "plain": [],
    "asan": ["-fsanitize=address,undefined,float-cast-overflow"],
    "tsan": ["-fsanitize=thread"],
}
ABSL = ("absl_base absl_raw_logging_internal absl_flags absl_flags_parse "
        "absl_flags_usage absl_memory absl_status absl_statusor absl_strings "
        "absl_synchronization absl_optional absl_span")
_hashes, _lock = {}, threading.Lock()


class BuildError(Exception):
    pass


def sha(b):
    return hashlib.sha256(b).hexdigest()


def file_hash(p):
    with _lock:
        if p in _hashes:
            return _hashes[p]
    try:
        with open(p, "rb") as f:
            h = sha(f.read())
    except OSError:
        h = "missing"
    with _lock:
        _hashes[p] = h
    return h


_pc = None


def pkg():
    """Link flags of the system libraries."""
    global _pc
    if _pc is None:
        r = subprocess.run(["pkg-config", "--libs", "protobuf"] + ABSL.split(),
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("pkg-config: " + r.stderr)
        _pc = r.stdout.split() + ["-lsvm", "-lpthread", "-ldl"]
    return _pc


def gen_protos():
    protos = sorted(glob.glob(REPO + "/src/proto/*.proto"))
    key = sha("".join(file_hash(p) for p in protos).encode())[:16]
    gen = os.path.join(BUILD, "gen", key)
    if not os.path.exists(gen + "/.done"):
        os.makedirs(gen, exist_ok=True)
        r = subprocess.run(["protoc", "--cpp_out=" + gen, "-I" + REPO] + protos,
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("protoc: " + r.stderr)
        open(gen + "/.done", "w").close()
    return gen


def norm(p):
    for name, root in (("@repo", REPO), ("@verif", HERE), ("@build", BUILD)):
        if p.startswith(root + "/"):
            return name + p[len(root):]
    return p


def denorm(p):
    for name, root in (("@repo", REPO), ("@verif", HERE), ("@build", BUILD)):
        if p.startswith(name + "/"):
            return root + p[len(name):]
    return p


def compile_one(variant, src, gen, extra=()):
    inc = ["-I" + HERE + "/shim", "-I" + REPO + "/src/include",
           "-I" + REPO + "/src/svr_training", "-I" + REPO, "-I" + gen,
           "-I/usr/include/libsvm", "-I" + HERE + "/harness"]
    flags = COMMON + VARIANTS[variant] + list(extra)
    cmdkey = sha(json.dumps([flags, norm(src), norm(gen)]).encode())[:24]
    mdir = os.path.join(BUILD, "obj", variant)
    os.makedirs(mdir, exist_ok=True)
    mpath = os.path.join(mdir, os.path.basename(src) + "." + cmdkey + ".json")
    entries = []
    try:
        with open(mpath) as f:
            entries = json.load(f)
    except (OSError, ValueError):
        pass
    for e in entries:
        obj = os.path.join(mdir, e["obj"])
        if os.path.exists(obj) and all(file_hash(denorm(p)) == h for p, h in e["deps"]):
            return obj
    tmp = os.path.join(mdir, "tmp.%d.%d.%s" % (os.getpid(), threading.get_ident(),
                                              os.path.basename(src)))
    base = ["g++"] + flags + ["-ffile-prefix-map=" + REPO + "=/repo"] + inc
    # A changed comment leaves the preprocessed text as it was.
    r = subprocess.run(base + ["-E", "-P", "-MD", "-MF", tmp + ".d", src, "-o", tmp + ".i"],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("compiling %s (%s):\n%s" % (src, variant, r.stderr[-4000:]))
    with open(tmp + ".i", "rb") as f:
        text = sha(f.read())
    with open(tmp + ".d") as f:
        words = f.read().replace("\\\n", " ").split(":", 1)[1].split()
    os.unlink(tmp + ".i")
    os.unlink(tmp + ".d")
    deps = []
    for p in sorted(set(os.path.normpath(w) for w in words)):
        n = norm(p)
        if n.startswith("@"):
            deps.append([n, file_hash(p)])
    name = "%s.%s.o" % (os.path.basename(src), sha(json.dumps([cmdkey, text]).encode())[:24])
    if not os.path.exists(os.path.join(mdir, name)):
        r = subprocess.run(base + ["-c", src, "-o", tmp + ".o"], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("compiling %s (%s):\n%s" % (src, variant, r.stderr[-4000:]))
        os.replace(tmp + ".o", os.path.join(mdir, name))
    entries = [{"deps": deps, "obj": name}] + entries[:40]
    with open(mpath + ".tmp%d" % os.getpid(), "w") as f:
        json.dump(entries, f)
    os.replace(mpath + ".tmp%d" % os.getpid(), mpath)
    return os.path.join(mdir, name)


def lib_sources():
    s = glob.glob(REPO + "/src/*.cc") + glob.glob(REPO + "/src/svr_training/*.cc")
    return sorted(x for x in s if os.path.basename(x) != "main.cc")


def targets():
    """name -> list of extra sources (besides the library and the stand-ins)."""
    h = HERE + "/harness/"
    t = {"visqol": [REPO + "/src/main.cc"]}
    for x in sorted(glob.glob(h + "mon_*.cc")):
        t[os.path.basename(x)[:-3]] = [x]
    t["mon_py"].append(REPO + "/python/visqol_lib_py.cc")
    common = sorted(glob.glob(h + "common_*.cc"))
    for k in t:
        if k != "visqol":
            t[k] = t[k] + common
    return t


def build(pairs):
    """pairs: [(variant, target)]; returns {(variant, target): exe}."""
    os.makedirs(BUILD, exist_ok=True)
    gen = gen_protos()
    tg = targets()
    base = (lib_sources() + sorted(glob.glob(gen + "/src/proto/*.cc")) +
            sorted(glob.glob(HERE + "/shim/*.cc")))
    jobs = {}
    for v, t in pairs:
        for s in base + tg[t]:
            jobs[(v, s)] = None
    # harness files include the most: start them first
    order = sorted(jobs, key=lambda k: (0 if k[1].startswith(HERE) else 1, -os.path.getsize(k[1])))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_one, v, s, gen): (v, s) for v, s in order}
        for f in cf.as_completed(futs):
            jobs[futs[f]] = f.result()
        out = {}

        def link(v, t):
            objs = [jobs[(v, s)] for s in base + tg[t]]
            key = sha(json.dumps([LINK[v], [os.path.basename(o) for o in objs]]).encode())[:20]
            bdir = os.path.join(BUILD, "bin", v)
            os.makedirs(bdir, exist_ok=True)
            exe = os.path.join(bdir, t + "." + key)
            if not os.path.exists(exe):
                tmp = exe + ".tmp%d" % os.getpid()
                r = subprocess.run(["g++", "-pthread", "-rdynamic"] + LINK[v] + objs + pkg() +
                                   ["-o", tmp], capture_output=True, text=True)
                if r.returncode != 0:
                    raise BuildError("linking %s (%s):\n%s" % (t, v, r.stderr[-4000:]))
                os.replace(tmp, exe)
            return exe
        lf = {(v, t): ex.submit(link, v, t) for v, t in pairs}
        for k, f in lf.items():
            out[k] = f.result()
    return out


def prune(max_bytes=6 << 30):
    files = []
    for d, _, fs in os.walk(BUILD):
        for f in fs:
            p = os.path.join(d, f)
            try:
                st = os.stat(p)
            except OSError:
                continue
            if p.endswith(".o") or "/bin/" in p:
                files.append((st.st_atime, st.st_size, p))
    total = sum(x[1] for x in files)
    for _, size, p in sorted(files):
        if total <= max_bytes:
            break
        os.unlink(p)
        total -= size


if __name__ == "__main__":
    want = [tuple(a.split(":")) for a in sys.argv[1:]]
    try:
        for k, v in build(want).items():
            print(k[0], k[1], v)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
