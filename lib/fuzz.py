"""Coverage-guided search (libFuzzer) over the same generators, on the thorough tier."""
import os
import random

import build

FLAGS = ["-std=gnu++17", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-DHV_FUZZ",
         "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=undefined", "-ftrivial-auto-var-init=pattern"]
JOBS = 8
QUIET = ["-handle_abrt=0", "-handle_segv=0", "-handle_bus=0", "-handle_fpe=0", "-handle_ill=0", "-timeout=0", "-detect_leaks=0", "-rss_limit_mb=3500", "-print_final_stats=0", "-verbosity=0"]


def harness():
    key = build.headers_digest()
    jobs = []
    for f, _ in build.harness_sources():
        if os.path.basename(f) == "ref.cpp":
            jobs.append((f, ["g++", "-std=gnu++17", "-O2", "-g1", "-w"] + build.INC, f, key))
        else:
            jobs.append((f, ["clang++"] + FLAGS + build.INC, f, key))
    for inst in build.instantiations():
        jobs.append(build.tu_job(inst, "default", None, "clang++", FLAGS, key))
    jobs.sort(key=lambda j: 0 if "props" in j[2] else 1)
    objs, bad = build.compile_all(jobs)
    if bad:
        raise build.BuildError(bad[0][0], bad[0][1])
    exe = os.path.join(build.BUILD, "bin", "hvfuzz-" + build.digest(*sorted(objs)))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        p = build.run(["clang++", "-fsanitize=fuzzer,address,undefined"] + objs + ["-o", tmp, "-lrapidcheck", "-lquadmath"])
        if p.returncode != 0:
            raise build.BuildError("link of the fuzzer", p.stdout.decode(errors="replace"))
        os.replace(tmp, exe)
    return exe


def start(exe, prop, seed, scratch, seconds, popen):
    """the running jobs: [(directory, process)]"""
    procs = []
    for i in range(JOBS):
        out = os.path.join(scratch, "job%d" % i)
        corpus = os.path.join(out, "corpus")
        os.makedirs(corpus)
        rnd = random.Random(seed * 1000 + i)
        for j in range(100):
            with open(os.path.join(corpus, "seed%d" % j), "wb") as f:
                f.write(rnd.randbytes(1 + 2 * rnd.choice([10, 50, 200, 1000])))
        env = dict(os.environ, HV_PROP=prop, HV_OUT=out)
        cmd = [exe, corpus, "-seed=%d" % (seed * 1000 + i + 1), "-max_total_time=%d" % seconds, "-max_len=2001", "-len_control=0", "-artifact_prefix=%s/" % out] + QUIET
        procs.append((out, popen(cmd, os.path.join(out, "log"), env)))
    return procs
