#!/usr/bin/env python3
"""Builds demo.cc with the sources of the repository in the current directory and runs it.
Usage: build_demo.py [asan|tsan] [cli]"""
import concurrent.futures as cf
import glob
import os
import shutil
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
san = {"asan": ["-fsanitize=address,undefined", "-fno-sanitize=vptr",
                "-fno-sanitize-recover=all"],
       "tsan": ["-fsanitize=thread"]}
flags = []
for a in sys.argv[1:]:
    flags += san.get(a, [])
tmp = tempfile.mkdtemp(prefix="demo.")
try:
    protos = glob.glob(repo + "/src/proto/*.proto")
    subprocess.run(["protoc", "--cpp_out=" + tmp, "-I" + repo] + protos, check=True)
    cxx = ["g++", "-std=c++17", "-O1", "-w", "-pthread", "-DNDEBUG",
           "-DARMA_DONT_USE_WRAPPER"] + flags + [
           "-I" + here, "-I" + here + "/shim", "-I" + repo + "/src/include",
           "-I" + repo + "/src/svr_training", "-I" + repo, "-I" + tmp,
           "-I/usr/include/libsvm"]
    srcs = [s for s in glob.glob(repo + "/src/*.cc") + glob.glob(repo + "/src/svr_training/*.cc")
            if "cli" in sys.argv or os.path.basename(s) != "main.cc"]
    srcs += glob.glob(here + "/shim/*.cc") + glob.glob(tmp + "/src/proto/*.cc")
    srcs += [here + "/demo.cc"]

    def comp(s):
        o = tmp + "/" + s.replace("/", "_") + ".o"
        subprocess.run(cxx + ["-c", s, "-o", o], check=True)
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(comp, srcs))
    libs = subprocess.run(
        ["pkg-config", "--libs", "protobuf"] +
        ("absl_base absl_raw_logging_internal absl_flags absl_flags_parse absl_flags_usage "
         "absl_memory absl_status absl_statusor absl_strings absl_synchronization "
         "absl_optional absl_span").split(),
        capture_output=True, text=True, check=True).stdout.split() + ["-lsvm", "-lpthread", "-ldl"]

    def link(out, os_):
        subprocess.run(["g++", "-pthread"] + flags + os_ + libs + ["-o", out], check=True)
    is_demo = lambda o: o.endswith("_demo.cc.o")
    is_main = lambda o: o.endswith("_src_main.cc.o")
    link(tmp + "/demo", [o for o in objs if not is_main(o)])
    args = [tmp + "/demo"]
    if "cli" in sys.argv:
        link(tmp + "/visqol", [o for o in objs if not is_demo(o)])
        args.append(tmp + "/visqol")
    os.mkdir(tmp + "/work")
    env = dict(os.environ, DEMO_WORK=tmp + "/work",
               ASAN_OPTIONS="detect_leaks=0", TSAN_OPTIONS="halt_on_error=1")
    try:
        rc = subprocess.run(args, env=env, timeout=200).returncode
    except subprocess.TimeoutExpired:
        print("demo: no answer")
        rc = 1
    sys.exit(0 if rc == 0 else 1)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
