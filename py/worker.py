"""worker.py run ID --seed N --cases N --out DIR --cap S | replay FILE --out DIR | list"""
import array
import glob
import hashlib
import importlib
import json
import mmap
import os
import signal
import sys
import time

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import hv  # noqa: E402

for m in sorted(glob.glob(os.path.join(HERE, "props_*.py"))):
    importlib.import_module(os.path.basename(m)[:-3])


def encode(p, choices, used):
    c = list(choices[:used])
    while c and c[-1] == 0:
        c.pop()
    return "property %s %s\nchoices %s" % (p.id, p.name, " ".join(map(str, c)))


def full(p, choices, used, reason, ctx):
    return encode(p, choices, used) + "\nreason " + reason + "\ncase\n" + "\n".join(ctx.desc) + "\n"


signal.signal(signal.SIGVTALRM, signal.SIG_DFL)


def execute(p, choices, ctx):
    """None if it held, else the reason"""
    src = hv.Src(choices)
    reason = None
    signal.setitimer(signal.ITIMER_VIRTUAL, 60)
    try:
        p.fn(src, ctx)
    except hv.Violation as e:
        reason = str(e)
    except hv.Discard:
        raise
    except (AssertionError, NameError) as e:
        raise RuntimeError("harness error in %s: %r\n%s" % (p.name, e, "\n".join(ctx.desc))) from e
    except Exception as e:
        reason = "unexpected exception: %s: %s" % (type(e).__name__, e)
        if os.environ.get("HV_TRACE"):
            import traceback
            traceback.print_exc()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return reason, src.pos


def run(id, seed, cases, out, cap):
    from hypothesis import HealthCheck, Phase, given, seed as hseed, settings, strategies as st
    s = hv._L.r_selftest().decode()
    if s:
        print("self test of the reference failed:", s)
        return 2
    mine = [p for p in hv.PROPS if p.id == id]
    if not mine:
        print("no such property", id)
        return 2
    total = sum(p.weight for p in mine)
    size = 1 << 20
    with open(os.path.join(out, "current"), "wb") as f:
        f.truncate(size)
    fd = open(os.path.join(out, "current"), "r+b")
    cur = mmap.mmap(fd.fileno(), size)
    labels, per, hashes, samples = {}, {}, set(), []
    stat = dict(evaluations=0, discards=0, capped=False)
    t0 = time.time()
    share = 0
    failures = 0
    for p in mine:
        n = max(20, cases * p.weight // total)
        share += cap * p.weight / total
        state = dict(failed=None, shrinks=0, kept=0)
        per[p.name] = [0, 0]

        @hseed(seed * 1000 + sum(map(ord, p.name)))
        @settings(database=None, deadline=None, max_examples=n, suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                  phases=[Phase.generate, Phase.shrink], print_blob=False)
        @given(st.binary(min_size=2 * max(4, p.maxlen // 2), max_size=2 * p.maxlen))
        def test(b):
            if state["failed"] is None and (stat["capped"] or time.time() - t0 > share):
                stat["capped"] = True
                return
            choices = array.array("H")
            choices.frombytes(b[:len(b) // 2 * 2])
            if state["failed"] is not None:
                state["shrinks"] += 1
                if state["shrinks"] > 3000 and bytes(b) != state["failed"][0]:
                    return
            text = encode(p, choices, len(choices)).encode()
            cur[:len(text) + 1] = text + b"\0"
            ctx = hv.Ctx(labels if state["failed"] is None else None)
            try:
                reason, used = execute(p, choices, ctx)
            except hv.Discard:
                if state["failed"] is None:
                    stat["discards"] += 1
                return
            if reason is not None:
                state["failed"] = (bytes(b), full(p, choices, used, reason, ctx))
                raise hv.Violation(p.name)
            if state["failed"] is not None:
                return
            stat["evaluations"] += 1
            per[p.name][0] += 1
            if ctx.nontrivial:
                h = int.from_bytes(hashlib.blake2b(p.name.encode() + bytes(b[:2 * used]), digest_size=8).digest(), "little")
                if h not in hashes:
                    hashes.add(h)
                    per[p.name][1] += 1
                if state["kept"] < 2 and ctx.desc and per[p.name][0] > 3:
                    state["kept"] += 1
                    samples.append(p.name + ": " + "\n".join(ctx.desc)[:1500])
        try:
            test()
        except Exception as e:
            if state["failed"] is None:
                print("harness error:", e)
                import traceback
                traceback.print_exc()
                return 2
        if state["failed"] is not None:
            failures = 1
            open(os.path.join(out, "fail.txt"), "w").write(state["failed"][1])
            print(state["failed"][1])
            break
        if stat["discards"] > 5 * (stat["evaluations"] + 100):
            print("the generator discards too much:", p.name)
            return 2
    json.dump(dict(evaluations=stat["evaluations"], discards=stat["discards"], failures=failures, capped=stat["capped"], wall=time.time() - t0, labels=labels,
                   rules={p.name: p.rule for p in mine}, per=per, samples=samples), open(os.path.join(out, "stats.json"), "w"))
    with open(os.path.join(out, "hashes.bin"), "wb") as f:
        array.array("Q", sorted(hashes)).tofile(f)
    return 1 if failures else 0


def replay(path, out):
    lines = open(path, errors="replace").read().splitlines()
    _, id, name = lines[0].split()[:3]
    choices = array.array("H", [int(x) & 0xffff for x in lines[1].split()[1:]])
    for p in hv.PROPS:
        if p.id == id and p.name == name:
            ctx = hv.Ctx()
            ctx.log = lambda s: (ctx.desc.append(s), print(s, flush=True))
            try:
                reason, used = execute(p, choices, ctx)
            except hv.Discard:
                reason, used = None, 0
            if reason is not None:
                print("violated:", reason)
                open(os.path.join(out, "fail.txt"), "w").write(full(p, choices, used, reason, ctx))
                return 1
            print("held")
            return 0
    print("no such property", id, name)
    return 2


if __name__ == "__main__":
    a = sys.argv[1:]
    opt = {a[i]: a[i + 1] for i in range(2, len(a) - 1, 2)}
    if a[0] == "run":
        rc = run(a[1], int(opt["--seed"]), int(opt["--cases"]), opt["--out"], float(opt["--cap"]))
    elif a[0] == "replay":
        rc = replay(a[1], opt.get("--out", "."))
    else:
        for p in hv.PROPS:
            print(p.id, p.name, p.weight)
        rc = 0
    sys.stdout.flush()
    os._exit(rc)
