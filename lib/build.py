"""Builds the harness against /repo's working tree. Objects are cached in
/verif/build by the content of everything they are made from."""
import concurrent.futures as cf
import glob
import hashlib
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CPP = os.path.join(VERIF, "cpp")
INC = ["-I" + os.path.join(REPO, "include"), "-isystem", "/usr/include/eigen3", "-I" + CPP]
JOBS = 8

BASE = ["-std=gnu++17", "-O1", "-g1", "-w", "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"]
INIT = ["-ftrivial-auto-var-init=pattern"]


class BuildError(Exception):
    def __init__(self, what, log):
        super().__init__(what)
        self.what = what
        self.log = log


def instantiations():
    """(order, scalar, size, name, eps) of the default configuration"""
    r = []

    def add(order, scalar, size):
        eps = {"float": 6.0e-8, "double": 1.2e-16, "long double": 1.2e-16}[scalar]
        r.append((order, scalar, size, "DDScalar<%d,%s,%s>" % (order, scalar, "Dynamic" if size < 0 else size), eps))

    for n in [-1, 0, 1, 2, 3, 4, 6, 9, 16]:
        add(1, "double", n)
    for n in [-1] + list(range(17)):
        add(2, "double", n)
    for o, n in [(1, -1), (1, 3), (2, -1), (2, 2), (2, 6)]:
        add(o, "float", n)
    for o, n in [(1, 3), (2, -1), (2, 4)]:
        add(o, "long double", n)
    return r


def config_instantiations():
    return [x for x in instantiations() if (x[0], x[1], x[2]) in {(1, "double", -1), (2, "double", -1), (1, "double", 3), (2, "double", 3), (2, "double", 6), (2, "float", 2)}]


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def headers_digest():
    fs = sorted(glob.glob(os.path.join(REPO, "include", "**", "*"), recursive=True)) + sorted(glob.glob(os.path.join(CPP, "*.hpp")))
    return digest(*[x for f in fs if os.path.isfile(f) for x in (f, read(f))])


def run(cmd, timeout=600):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def compile_one(job):
    """job: (label, command without -o, source, extra key) -> object path"""
    label, cmd, src, key = job
    obj = os.path.join(BUILD, "obj", digest(" ".join(cmd), read(src), key) + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = "%s.%d.tmp" % (obj, os.getpid())
        p = run(cmd + ["-c", src, "-o", tmp])
        if p.returncode != 0:
            raise BuildError(label, p.stdout.decode(errors="replace"))
        os.replace(tmp, obj)
    return obj


def compile_all(jobs):
    """returns objects in order, and the list of (label, log) that failed"""
    out, bad = [], []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(compile_one, j) for j in jobs]
        for f in futs:
            try:
                out.append(f.result())
            except BuildError as e:
                out.append(None)
                bad.append((e.what, e.log))
    return out, bad


def tu_job(inst, config, ns, cxx, flags, key):
    order, scalar, size, name, eps = inst
    defs = ["-DHV_ORDER=%d" % order, "-DHV_SCALAR=%s" % scalar, "-DHV_SIZE=%d" % size, '-DHV_NAME="%s"' % name, "-DHV_EPS=%g" % eps, '-DHV_CONFIG="%s"' % config]
    if ns:
        defs.append("-DHV_NAMESPACE=" + ns)
    return (name + " (%s)" % config, [cxx] + flags + defs + INC, os.path.join(CPP, "tu.cpp"), key)


# the configurations of property C24: name -> compiler, flags
def configs():
    asan = ["-std=gnu++17", "-w", "-g1"]
    return {
        "ndebug": ("g++", asan + ["-O3", "-DNDEBUG"] + SAN[:2]),
        "noexc": ("g++", asan + ["-O1", "-DHYPERJET_NO_EXCEPTIONS"] + SAN),
        "noeigen": ("g++", asan + ["-O1", "-DHV_NO_EIGEN"] + SAN),
        "clang": ("clang++", asan + ["-O2"]),
    }


# the properties of these files once more under other configurations
AGAIN = {"props_sscalar.cpp": ("ndebug", "noexc", "clang"), "props_eigen_a.cpp": ("ndebug", "noexc", "clang")}


def owner(label):
    """the property that claims that this translation unit compiles"""
    if any("(%s)" % c in label for c in configs()):
        return "C24"
    if "props_eigen" in label:
        return "C16"
    if "props_sscalar" in label:
        return "C14"
    if label.endswith("(default)"):
        return "C06"
    return "C24" if label.endswith(")") else None


def harness_sources(with_configs=True):
    """sources of the properties; those that include the library are marked"""
    return [(f, b"hyperjet" in read(f)) for f in sorted(glob.glob(os.path.join(CPP, "*.cpp"))) if os.path.basename(f) != "tu.cpp"]


def harness(with_configs=False, keep_going=False):
    """builds the harness binary; returns (path, failures)"""
    key = headers_digest()
    jobs = []
    for f, uses_lib in harness_sources():
        if os.path.basename(f) == "ref.cpp":
            jobs.append((f, ["g++", "-std=gnu++17", "-O2", "-g1", "-w"] + INC, f, key))
        else:
            jobs.append((f, ["g++"] + BASE + SAN + INIT + INC, f, key))
    for inst in instantiations():
        jobs.append(tu_job(inst, "default", None, "g++", BASE + SAN + INIT, key))
    if with_configs:
        for c, (cxx, flags) in configs().items():
            for inst in config_instantiations():
                jobs.append(tu_job(inst, c, "hyperjet_" + c, cxx, flags, key))
            for f in [x for x in ("props_sscalar.cpp", "props_eigen_a.cpp") if c in AGAIN[x]]:
                f = os.path.join(CPP, f)
                jobs.append(("%s (%s)" % (f, c), [cxx] + flags + ["-Dhyperjet=hyperjet_" + c, "-DHV_AS_C24=" + c] + INC, f, key))
    jobs.sort(key=lambda j: 0 if "props" in j[2] else 1)
    objs, bad = compile_all(jobs)
    if bad and not keep_going:
        raise BuildError(bad[0][0], bad[0][1])
    objs = [o for o in objs if o]
    exe = os.path.join(BUILD, "bin", "hv-" + digest(*sorted(objs)))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        p = run(["g++", "-fsanitize=address,undefined"] + objs + ["-o", tmp, "-lrapidcheck", "-lquadmath"])
        if p.returncode != 0:
            raise BuildError("link", p.stdout.decode(errors="replace"))
        os.replace(tmp, exe)
    return exe, bad


SUBSET = {(1, "double", -1), (2, "double", -1), (1, "double", 3), (2, "double", 1), (2, "double", 3), (2, "double", 9), (2, "float", -1), (1, "double", 9)}


def side_harness(name, flags, libs=()):
    """an executable with its own instrumentation: threads (C27) or alloc (C28, C29)"""
    key = headers_digest()
    flags = ["-std=gnu++17", "-O1", "-g1", "-w", "-fno-omit-frame-pointer"] + flags + INC
    jobs = [(f, ["g++"] + flags, f, key) for f in [os.path.join(CPP, name, "props_%s.cpp" % name)] + [os.path.join(CPP, x) for x in ("main.cpp", "gen.cpp", "ref.cpp")]]
    for inst in instantiations():
        if (inst[0], inst[1], inst[2]) in SUBSET:
            jobs.append(tu_job(inst, "default", None, "g++", flags, key))
    objs, bad = compile_all(jobs)
    if bad:
        raise BuildError(bad[0][0], bad[0][1])
    exe = os.path.join(BUILD, "bin", "hv%s-%s" % (name, digest(*sorted(objs))))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        p = run(["g++"] + [f for f in flags if f.startswith("-fsanitize")] + objs + ["-o", tmp, "-lrapidcheck", "-lquadmath"] + list(libs))
        if p.returncode != 0:
            raise BuildError("link", p.stdout.decode(errors="replace"))
        os.replace(tmp, exe)
    return exe


def threads_harness():
    return side_harness("threads", ["-fsanitize=thread"], ["-pthread"])


def alloc_harness():
    return side_harness("alloc", ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])


def harness_for(prop, configs):
    """the executable of the C++ generators of a property"""
    if prop == "C27":
        return threads_harness(), []
    if prop in ("C28", "C29"):
        return alloc_harness(), []
    return harness(configs, keep_going=True)


if __name__ == "__main__":
    t = time.time()
    try:
        print(harness("--configs" in sys.argv))
    except BuildError as e:
        print(e.what)
        print(e.log[:3000])
    print("%.1f s" % (time.time() - t))
