"""Builds the Python module from /repo's working tree, plain and with the address sanitizer, and runs the Python checks."""
import glob
import os
import subprocess
import sys

import build

PY = "/opt/vp/venv/bin/python"
PYDIR = os.path.join(build.VERIF, "py")
PYINC = "/usr/include/python3.12"
SUFFIX = ".cpython-312-x86_64-linux-gnu.so"
ASAN_LIB = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.asan-x86_64.so"
PRE = """#include <Eigen/Core>
#include <pybind11/pybind11.h>
#include <pybind11/eigen.h>
#include <pybind11/eval.h>
#include <pybind11/numpy.h>
#include <pybind11/operators.h>
#include <pybind11/stl_bind.h>
#include <pybind11/stl.h>
"""


def sources():
    return sorted(glob.glob(os.path.join(build.REPO, "python", "src", "*.cpp")))


def module(asan=False):
    """directory that holds the built module"""
    hdr = sorted(glob.glob(os.path.join(build.REPO, "python", "src", "*.h*")) + [f for f in glob.glob(os.path.join(build.REPO, "include", "**", "*"), recursive=True) if os.path.isfile(f)])
    key = build.digest(*[x for f in hdr for x in (f, build.read(f))])
    flags = ["-std=c++17", "-O0", "-w", "-fPIC", "-fvisibility=hidden", "-DNDEBUG", '-DHYPERJET_VERSION="check"',
             "-I" + os.path.join(build.REPO, "include"), "-isystem", "/usr/include/eigen3", "-isystem", PYINC]
    cxx = "clang++"
    if asan:
        flags += ["-g1", "-fsanitize=address", "-shared-libasan"]
    pre = os.path.join(build.BUILD, "pch", build.digest(cxx, *flags))
    os.makedirs(pre, exist_ok=True)
    if not os.path.exists(os.path.join(pre, "pre.pch")):
        open(os.path.join(pre, "pre.h"), "w").write(PRE)
        tmp = os.path.join(pre, "pre.%d.pch" % os.getpid())
        p = build.run([cxx] + flags + ["-x", "c++-header", os.path.join(pre, "pre.h"), "-o", tmp])
        if p.returncode != 0:
            raise build.BuildError("precompiled header", p.stdout.decode(errors="replace"))
        os.replace(tmp, os.path.join(pre, "pre.pch"))
    cmd = [cxx] + flags + ["-include-pch", os.path.join(pre, "pre.pch")]
    jobs = [(f, cmd, f, key) for f in sources()]
    jobs.sort(key=lambda j: -os.path.getsize(j[2]) - (10 ** 9 if "16d" in j[2] else 0))
    objs, bad = build.compile_all(jobs)
    if bad:
        raise build.BuildError(bad[0][0], bad[0][1])
    d = os.path.join(build.BUILD, "pymod", build.digest(*sorted(objs)))
    out = os.path.join(d, "hyperjet" + SUFFIX)
    if not os.path.exists(out):
        os.makedirs(d, exist_ok=True)
        tmp = "%s.%d.tmp" % (out, os.getpid())
        p = build.run([cxx, "-shared"] + (["-fsanitize=address", "-shared-libasan"] if asan else []) + objs + ["-o", tmp])
        if p.returncode != 0:
            raise build.BuildError("link of the Python module", p.stdout.decode(errors="replace"))
        os.replace(tmp, out)
    return d


def reference():
    """shared library of the reference model"""
    key = build.digest(*[build.read(os.path.join(build.CPP, f)) for f in ("ref.hpp", "backend.hpp")])
    flags = ["g++", "-std=gnu++17", "-O2", "-fPIC", "-w", "-I" + build.CPP]
    objs, bad = build.compile_all([(f, flags, f, key) for f in (os.path.join(build.CPP, "ref.cpp"), os.path.join(build.CPP, "pyref", "capi.cpp"))])
    if bad:
        raise build.BuildError(bad[0][0], bad[0][1])
    out = os.path.join(build.BUILD, "bin", "libref-%s.so" % build.digest(*objs))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = "%s.%d.tmp" % (out, os.getpid())
        p = build.run(["g++", "-shared"] + objs + ["-o", tmp, "-lquadmath"])
        if p.returncode != 0:
            raise build.BuildError("link of the reference", p.stdout.decode(errors="replace"))
        os.replace(tmp, out)
    return out


def counter():
    """library that counts the blocks of memory that are alive"""
    out = os.path.join(build.BUILD, "bin", "libcount-%s.so" % build.digest(build.read(os.path.join(build.CPP, "alloc", "count.c"))))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = "%s.%d.tmp" % (out, os.getpid())
        p = build.run(["gcc", "-O1", "-fno-builtin", "-shared", "-fPIC", os.path.join(build.CPP, "alloc", "count.c"), "-o", tmp])
        if p.returncode != 0:
            raise build.BuildError("count.c", p.stdout.decode(errors="replace"))
        os.replace(tmp, out)
    return out


def environment(asan):
    env = dict(os.environ)
    env["HV_MODULE"] = module(asan)
    env["HV_REF"] = reference()
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        env[k] = "1"
    if asan:
        env["LD_PRELOAD"] = ASAN_LIB
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=2000:handle_abort=0:hard_rss_limit_mb=6000:detect_odr_violation=0:max_free_fill_size=65536:free_fill_byte=170"
        env["HV_ASAN"] = "1"
    return env


ASAN_PROPS = {"C22", "C23"}


def command(prop, args):
    env = environment(prop in ASAN_PROPS)
    if prop == "C28":  # all memory in one counter, see props_memory.py
        env["PYTHONMALLOC"] = "malloc"
        env["LD_PRELOAD"] = counter()
    return [PY, os.path.join(PYDIR, "worker.py")] + args, env


def replay_cmd(path):
    head = open(path, errors="replace").readline().split()
    return command(head[1], ["replay", path, "--out", os.path.dirname(os.path.abspath(path))])


def setup(say):
    say("reference: " + reference())
    say("Python module: " + module(False))
    say("Python module with sanitizer: " + module(True))


if __name__ == "__main__":
    import time
    t = time.time()
    try:
        setup(print)
    except build.BuildError as e:
        print(e.what, e.log[:3000])
    print("%.1f s" % (time.time() - t))
