#!/usr/bin/env python3
"""run.py ID            run the check of one property (VERIF_SEED, VERIF_TIER)
run.py --setup         build everything
run.py --replay FILE   run one saved case again

Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: no answer."""
import array
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build  # noqa: E402
import plan  # noqa: E402

SHARDS = 8


def env_seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def say(s):
    print(s, flush=True)


class NoAnswer(Exception):
    pass


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def popen(cmd, log, env=None):
    return subprocess.Popen(cmd, stdout=open(log, "wb"), stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True, env=env, cwd=VERIF)


# ---------------------------------------------------------------- replay
def replay_cmd(path):
    head = open(path, errors="replace").readline().split()
    if head[:1] == ["property"] and len(head) > 2 and not head[2].startswith("py_"):
        exe, _ = build.harness_for(head[1], head[1] in plan.NEEDS_CONFIGS)
        return [exe, "replay", path, "--out", os.path.dirname(os.path.abspath(path))], None
    if head[:1] == ["compile"]:
        return [sys.executable, os.path.join(VERIF, "run.py"), "--recompile", path], None
    import pybuild
    return pybuild.replay_cmd(path)


def replay_once(path, scratch, timeout=300):
    """exit code of one replay: 1, 77, 78 violated; 0 held"""
    cmd, env = replay_cmd(path)
    if "hvthreads-" in cmd[0]:
        env = dict(os.environ, TSAN_OPTIONS="symbolize=1")
    if "--out" in cmd:
        cmd = cmd[:-1] + [scratch]
    p = popen(cmd, os.path.join(scratch, "replay.log"), env)
    try:
        c = p.wait(timeout)
        return 77 if c < 0 else c
    except subprocess.TimeoutExpired:
        return 78
    finally:
        kill(p)


BROKEN = (1, 77, 78)


def shrink_crash(path, scratch, budget=60.0):
    """a crash ends the process, so it is shrunk from outside: drop chunks, then zero and halve entries"""
    text = open(path, errors="replace").read()
    m = re.search(r"^choices(.*)$", text, re.M)
    choices = [int(x) for x in m.group(1).split()]
    cand = os.path.join(scratch, "candidate.txt")
    t0 = time.time()

    def bad(c):
        if time.time() - t0 > budget:
            return False
        open(cand, "w").write(text[:m.start()] + "choices " + " ".join(map(str, c)) + text[m.end():])
        return replay_once(cand, scratch, 150) in BROKEN

    n = len(choices)
    while n >= 1 and time.time() - t0 < budget:
        i, progress = 0, False
        while i < len(choices):
            c = choices[:i] + choices[i + n:]
            if bad(c):
                choices, progress = c, True
            else:
                i += n
        if not progress:
            n //= 2
    for i in range(len(choices)):
        for v in (0, choices[i] // 2, choices[i] % 256, choices[i] % 16):
            if v < choices[i] and bad(choices[:i] + [v] + choices[i + 1:]):
                choices = choices[:i] + [v] + choices[i + 1:]
                break
    # run the minimum once more for its description
    open(cand, "w").write(text[:m.start()] + "choices " + " ".join(map(str, choices)) + text[m.end():])
    for f in ("crash.txt", "fail.txt"):
        if os.path.exists(os.path.join(scratch, f)):
            os.remove(os.path.join(scratch, f))
    replay_once(cand, scratch, 150)
    for f in ("crash.txt", "fail.txt"):
        p = os.path.join(scratch, f)
        if os.path.exists(p):
            log = open(os.path.join(scratch, "replay.log"), errors="replace").read()
            err = [x for x in log.splitlines() if re.search(r"ERROR: |runtime error:|Assertion", x)][:3]
            s = open(p, errors="replace").read()
            if not re.search(r"^choices", s, re.M):
                continue
            return s + ("\n" + "\n".join(err) if err else "") + "\n"
    return open(cand).read()


def report(prop, src, scratch):
    """confirms a failing case by replaying it; returns True if it is a violation. What depends on a schedule or on
    the contents of memory need not fail each time: one failing replay of six is enough."""
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    text = open(src, errors="replace").read()
    if os.path.basename(src) == "crash.txt":
        text = shrink_crash(src, scratch)
    dst = os.path.join(VERIF, "replays", "%s-%s.txt" % (prop, build.digest(text)[:10]))
    open(dst, "w").write(text)
    codes = [replay_once(dst, scratch) for _ in range(3)]
    if codes.count(0) == 3:
        codes += [replay_once(dst, scratch) for _ in range(3)]
    if all(c in BROKEN for c in codes) or 1 in codes or 77 in codes:
        say(text[:4000])
        say("VIOLATION property=%s replay=%s" % (prop, dst))
        return True
    say("a failing case did not reproduce (%s): %s" % (codes, dst))
    return False


# ---------------------------------------------------------------- C++ part
def run_cpp(prop, spec, seed, scratch, ev):
    conf = prop in plan.NEEDS_CONFIGS
    exe, bad = build.harness_for(prop, conf)
    if bad:
        # what does not compile counts against the property that claims it; the others go on without it.
        # It counts only if the bare header still compiles.
        bare = os.path.join(scratch, "bare.cpp")
        open(bare, "w").write("#include <Eigen/Core>\n#include <hyperjet/hyperjet.h>\nint main() {}\n")
        if build.run(["g++", "-std=gnu++17", "-fsyntax-only"] + build.INC + [bare]).returncode != 0:
            raise NoAnswer("the library does not compile:\n" + bad[0][1][:3000])
        mine = [x for x in bad if build.owner(x[0]) == prop]
        if mine:
            p = os.path.join(VERIF, "replays", prop + "-compile.txt")
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write("compile %s\n%s\n" % (mine[0][0], mine[0][1][:6000]))
            say(open(p).read()[:3000])
            say("VIOLATION property=%s replay=%s" % (prop, p))
            ev["violations"] += 1
            return
        ev["notes"].append("not compiled, left out: " + ", ".join(x[0] for x in bad))
    st = subprocess.run([exe, "selftest"], stdout=subprocess.PIPE)
    if st.returncode != 0:
        raise NoAnswer("self test of the reference failed: " + st.stdout.decode())
    shards(prop, spec, seed, scratch, ev, lambda args: ([exe] + args, None))


def run_fuzz(prop, spec, seed, scratch, ev):
    """coverage-guided search over the same generators"""
    import fuzz
    collect(prop, fuzz.start(fuzz.harness(), prop, seed, scratch, int(os.environ.get("HV_FUZZ_SECONDS", spec["seconds"])), popen), spec["seconds"] + 300, scratch, ev)


def run_py(prop, spec, seed, scratch, ev):
    import pybuild
    shards(prop, spec, seed, scratch, ev, lambda args: pybuild.command(prop, args))


def crashed(out, code):
    """a worker that was killed leaves the case it was working on"""
    cur, crash = os.path.join(out, "current"), os.path.join(out, "crash.txt")
    if code < 0 and os.path.exists(cur) and not os.path.exists(crash):
        text = build.read(cur).split(b"\0")[0].decode(errors="replace")
        if text:
            open(crash, "w").write(text + "\nreason the interpreter was ended by signal %d\ncase\n" % -code)
    cur = os.path.join(out, "current.bin")
    if code < 0 and os.path.exists(cur) and not os.path.exists(crash):
        b = build.read(cur)
        head = b[:128].split(b"\0")[0].decode(errors="replace")
        if head:
            n = int.from_bytes(b[128:132], "little")
            open(crash, "w").write("property %s\nchoices %s\nreason the process was ended by signal %d\ncase\n" % (head, " ".join(map(str, array.array("I", b[132:132 + 4 * n]))), -code))


def shards(prop, spec, seed, scratch, ev, command):
    t = tier()
    cases = spec["cases"] * (spec.get("thorough", 25) if t == "thorough" else 1)
    cap = 420 if t == "quick" else 3000
    procs = []
    for i in range(SHARDS):
        out = os.path.join(scratch, "shard%d" % i)
        os.makedirs(out)
        cmd, env = command(["run", prop, "--seed", str(seed * 1000 + i), "--cases", str(cases), "--out", out, "--cap", str(cap)])
        procs.append((out, popen(cmd, os.path.join(out, "log"), env)))
    collect(prop, procs, cap + 300, scratch, ev)


def collect(prop, procs, limit, scratch, ev):
    codes = []
    end = time.time() + limit
    for out, p in procs:
        try:
            codes.append(p.wait(max(1, end - time.time())))
        except subprocess.TimeoutExpired:
            codes.append("timeout")
        kill(p)
        if codes[-1] != "timeout":
            crashed(out, codes[-1])
    hashes = set()
    for (out, _), c in zip(procs, codes):
        stats = os.path.join(out, "stats.json")
        if os.path.exists(stats):
            s = json.load(open(stats))
            ev["evaluations"] += s["evaluations"]
            for k, v in s["labels"].items():
                ev["labels"][k] = ev["labels"].get(k, 0) + v
            for k, v in s["per"].items():
                a = ev["per"].setdefault(k, [0, 0])
                a[0] += v[0]
                a[1] += v[1]
            ev["rules"].update(s["rules"])
            ev["discards"] += s["discards"]
            if len(ev["samples"]) < 8:
                ev["samples"] += s["samples"][:8 - len(ev["samples"])]
            ev["capped"] |= s["capped"]
            h = array.array("Q")
            h.frombytes(build.read(os.path.join(out, "hashes.bin")))
            hashes.update(h)
    ev["distinct"] += len(hashes)
    for (out, _), c in zip(procs, codes):
        if c in BROKEN or (isinstance(c, int) and c < 0):
            f = os.path.join(out, "fail.txt" if c == 1 else "crash.txt")
            if c == 1 and os.path.basename(out).startswith("job") and os.path.exists(f):
                # found by the fuzzer, not shrunk yet
                f = os.path.join(out, "crash.txt")
                os.replace(os.path.join(out, "fail.txt"), f)
            if os.path.exists(f) and report(prop, f, out):
                ev["violations"] += 1
                return
    for (out, _), c in zip(procs, codes):
        if c != 0:
            raise NoAnswer("shard ended with %s:\n%s" % (c, open(os.path.join(out, "log"), errors="replace").read()[-3000:]))


def check(prop):
    spec = plan.CHECKS[prop]
    seed, t = env_seed(), tier()
    t0 = time.time()
    ev = dict(evaluations=0, distinct=0, labels={}, per={}, rules={}, samples=[], discards=0, capped=False, violations=0, notes=[])
    scratch = os.path.join(VERIF, "build", "scratch", "%s-%d" % (prop, os.getpid()))
    os.makedirs(scratch)
    err = None
    try:
        import known
        known.announce(prop, scratch, say, ev)
        for part in spec["parts"]:
            if ev["violations"]:
                break
            d = os.path.join(scratch, part["kind"])
            os.makedirs(d, exist_ok=True)
            if part["kind"] == "cpp":
                run_cpp(prop, part, seed, d, ev)
            elif part["kind"] == "fuzz":
                if t == "thorough":
                    run_fuzz(prop, part, seed, d, ev)
            else:
                run_py(prop, part, seed, d, ev)
    except build.BuildError as e:
        err = "build of %s failed:\n%s" % (e.what, e.log[:3000])
    except NoAnswer as e:
        err = str(e)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if err and not ev["violations"]:
        say("no answer for %s: %s" % (prop, err))
        return 2
    rules = "; ".join("%s: %s" % (k, v) for k, v in ev["rules"].items())
    cov = {
        "evaluations": ev["evaluations"],
        "distinct_nontrivial": ev["distinct"],
        "rule": plan.RULE + " Non-trivial, by generator: " + rules,
        "samples": ev["samples"],
        "per_generator": {k: {"evaluations": v[0], "nontrivial": v[1]} for k, v in ev["per"].items()},
        "classes": ev["labels"],
        "discarded": ev["discards"],
        "stopped_by_time_cap": ev["capped"],
    }
    if ev["notes"]:
        cov["notes"] = ev["notes"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump({
        "property": prop, "tier": t, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": plan.ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": ev["violations"],
    }, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if ev["violations"]:
        return 1
    say("%s held: %d cases, %d distinct and non-trivial, %.0f s" % (prop, ev["evaluations"], ev["distinct"], time.time() - t0))
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        try:
            exe, _ = build.harness(True)
            say("C++ harness: " + exe)
            say("thread harness: " + build.threads_harness())
            say("memory harness: " + build.alloc_harness())
            import pybuild
            pybuild.setup(say)
        except build.BuildError as e:
            say("setup: build of %s failed\n%s" % (e.what, e.log[:2000]))
        return 0
    if a[:1] == ["--replay"]:
        d = os.path.join(VERIF, "build", "scratch", "replay-%d" % os.getpid())
        os.makedirs(d)
        try:
            c = replay_once(os.path.abspath(a[1]), d)
            say(open(os.path.join(d, "replay.log"), errors="replace").read()[-6000:])
            return 1 if c in BROKEN else c
        finally:
            shutil.rmtree(d, ignore_errors=True)
    if a[:1] == ["--recompile"]:
        _, bad = build.harness(False, keep_going=True)
        for what, log in bad:
            say("does not compile: %s\n%s" % (what, log[:3000]))
        return 1 if bad else 0
    if len(a) == 1 and a[0] in plan.CHECKS:
        return check(a[0])
    say(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
