"""C26: the sparse number in Python."""
import math
import numpy as np
import hyperjet as hj
import routes
from hv import *  # noqa: F403

NAMES = ["x", "y", "x1", "X", "", "\u03b1\u03b2", "a name with blanks, longer than any small string buffer", "f"]
NN = len(NAMES)
S = hj.SScalar


class SNum:
    def __init__(self, s, ref, names):
        self.s, self.ref, self.names = s, ref, frozenset(names)


def dense(s):
    return [s.f] + [s.d(n) for n in NAMES]


def make(src, f):
    f = float(f)
    k = src.range(0, 5)
    ref = [f] + [0.0] * NN
    names = set()
    if k == 0:
        i = src.range(0, NN - 1)
        s = S.variable(NAMES[i], f) if src.chance(50) else S.variable(name=NAMES[i], value=f)
        ref[1 + i] = 1.0
        names.add(i)
    elif k == 1 and src.chance(40):
        s = [S.constant, S, lambda v: S(f=v), lambda v: S.constant(value=v), lambda v: S(v, {})][src.range(0, 4)](f)
        if f == 0 and src.chance(50):
            s = S()
    else:
        d = {}
        for _ in range(src.range(1, NN if src.chance(30) else 4)):
            i = src.range(0, NN - 1 if src.chance(30) else 3)
            v = small(src)
            d[NAMES[i]] = v
            ref[1 + i] = v
            names.add(i)
        keep = dict(d)
        s = S(f, d) if src.chance(50) else S(f=f, d=d)
        if d != keep:
            raise Violation("the constructor changes the dictionary")
        d["x"] = 17.0  # the number keeps its own copy
    return SNum(s, Ref.of(ref, NN, 1), names)


def show(a):
    return "%r %s" % (a.s.f, {NAMES[i]: a.s.d(NAMES[i]) for i in sorted(a.names)})


def check_s(ctx, a, what):
    if type(a.s) is not S:
        ctx.fail("%s: result is a %s" % (what, type(a.s).__name__))
    n0 = a.s.size
    d = dense(a.s)
    s = a.ref.compare(d)
    if s:
        ctx.fail(what + ": " + s)
    lower = 0
    for i in range(NN):
        if i not in a.names and d[1 + i] != 0:
            ctx.fail("%s: derivative %r with respect to %r, which occurs in no operand" % (what, d[1 + i], NAMES[i]))
        lower += d[1 + i] != 0
    ctx.require(a.s.d("no such name") == 0.0 and a.s.d(variable="x ") == 0.0, what + ": derivative with respect to an unknown name is not zero")
    ctx.require(a.s.size == n0 == len(a.s), what + ": size changes by lookups, or differs from len()")
    ctx.require(lower <= n0 <= len(a.names), "%s: size %d with %d derivatives that are not zero and %d names" % (what, n0, lower, len(a.names)))


def check_text(ctx, a):
    d = dense(a.s)
    if any(x != x or (x == 0 and math.copysign(1, x) < 0) for x in d):
        return
    for text in (repr(a.s), str(a.s)):
        f = "%g" % d[0]
        ctx.require(text.startswith(f), "text %r does not start with the value %s" % (text, f))
        rest = text[len(f):]
        for i in sorted(range(NN), key=lambda q: -len(NAMES[q])):
            term = (" " if d[1 + i] < 0 else " +") + "%g" % d[1 + i] + "*d" + NAMES[i]
            at = rest.find(term)
            if at < 0:
                ctx.require(d[1 + i] == 0, "text %r lacks the term %r" % (text, term))
                continue
            ctx.require(i in a.names, "text %r contains %r" % (text, term))
            rest = rest[:at] + rest[at + len(term):]
        ctx.require(rest == "", "text %r contains %r beyond the terms of its derivatives" % (text, rest))


@prop("C26", 4, "every operand has named derivatives")
def sparse_functions(src, ctx):
    kind = src.range(0, 9)
    if kind <= 2:
        op = src.pick(UN)
        a = make(src, argument(src, op))
        ctx.log("%s of %s" % (op, show(a)))
        if not in_domain(op, a.s.f):
            ctx.discard()
        how, r = routes.un(src, op, a.s)
        res, ops = SNum(r, a.ref.un(op), a.names), [a]
    elif kind <= 5:
        op = src.pick(BIN)
        a, b = make(src, small(src)), make(src, small(src))
        if src.chance(20):
            b = a
        ctx.log("%s of %s and %s" % (op, show(a), "itself" if a is b else show(b)))
        if not bin_domain(op, a.s.f, b.s.f):
            ctx.discard()
        want = a.ref.bin(op, b.ref)
        if op in routes.OPER and src.chance(35):
            how = "x %s= y" % op
            r = routes.inplace(op, a.s, b.s)
            ops = [] if a is b else [b]
        else:
            how, r = routes.binary(src, op, a.s, b.s, False)
            ops = [a, b]
        res = SNum(r, want, a.names | b.names)
        ctx.label("no common name" if not (a.names & b.names) else "common names")
    elif kind <= 7:
        op = src.pick(BIN[:4])
        a = make(src, small(src))
        s, v = routes.scalar(src, small(src))
        form = src.range(0, 2)
        ctx.log("%s %s %r form %d" % (show(a), op, s, form))
        if op == "/" and (a.s.f if form == 1 else v) == 0:
            ctx.discard()
        want = a.ref.sd(op, v) if form == 1 else a.ref.ds(op, v)
        how = ["number op scalar", "scalar op number", "in place"][form] + " " + type(s).__name__
        r = routes.OPER[op](a.s, s) if form == 0 else routes.OPER[op](s, a.s) if form == 1 else routes.inplace(op, a.s, s)
        res, ops = SNum(r, want, a.names), [a] if form != 2 else []
    elif kind == 8:
        if src.chance(30):
            base = src.pick([2.0, 10.0, 0.5, 3.0, 7.5])
            a = make(src, argument(src, "log"))
            ctx.log("log base %r of %s" % (base, show(a)))
            how, r = "log(base)", a.s.log(base) if src.chance(50) else a.s.log(base=base)
            res = SNum(r, a.ref.log_base(base), a.names)
        else:
            e = float(src.range(-4, 6)) if src.chance(60) else src.range(-8, 8) / 2
            x0 = small(src)
            if x0 == 0 or (x0 < 0 and e != int(e)):
                x0 = 1.25
            a = make(src, x0)
            ctx.log("%s to the power %r" % (show(a), e))
            how, r = routes.power(src, a.s, int(e) if e == int(e) and src.chance(50) else e)
            res = SNum(r, a.ref.pow(e), a.names)
        ops = [a]
    else:
        a, b, c = [make(src, small(src)) for _ in range(3)]
        if src.chance(25):
            c = a
        if src.chance(15):
            b = a
        ctx.log("hypot of %s" % ", ".join(map(show, (a, b, c))))
        if a.s.f == 0 and b.s.f == 0 and c.s.f == 0:
            ctx.discard()
        how, r = routes.hypot3(src, a.s, b.s, c.s, False)
        res, ops = SNum(r, a.ref.hypot3(b.ref, c.ref), a.names | b.names | c.names), [a, b, c]
    ctx.log(how)
    ctx.label(how)
    check_s(ctx, res, how)
    for o in ops:
        check_s(ctx, o, "operand after the call")
    ctx.nontrivial = all(o.names for o in ops) and bool(res.names)


@prop("C26", 4, "four or more steps with an update on a pool of four numbers", 240)
def sparse_history(src, ctx):
    v = [make(src, src.range(-20, 40) / 10) for _ in range(4)]
    for i, a in enumerate(v):
        ctx.log("n%d = %s" % (i, show(a)))
        check_s(ctx, a, "n%d" % i)
    done = updates = 0
    for _ in range(src.range(3, 24)):
        if src.exhausted():
            break
        i, j, q = [src.range(0, 3) for _ in range(3)]
        a, b, c = v[i], v[j], v[q]
        kind = src.range(0, 9)
        if kind <= 2:
            op = src.pick(BIN[:4])
            if op == "/" and abs(b.ref.f) < 0.02:
                continue
            w = a.ref.bin(op, b.ref)
            if not w.fits(limit=1e8):
                continue
            what = "n%d %s= n%d" % (i, op, j)
            # += on a shared object changes the object: the pool holds every object once
            v[i] = SNum(routes.inplace(op, a.s, b.s), w, a.names | b.names)
            updates += 1
        elif kind == 3:
            op = src.pick(BIN[:4])
            s, val = routes.scalar(src, small(src))
            if op == "/" and abs(val) < 1e-3:
                continue
            w = a.ref.ds(op, val)
            if not w.fits(limit=1e8):
                continue
            what = "n%d %s= %r" % (i, op, s)
            v[i] = SNum(routes.inplace(op, a.s, s), w, a.names)
            updates += 1
        elif kind == 4:
            op = src.pick(BIN)
            if (op == "/" and abs(c.ref.f) < 0.02) or (op in ("atan2", "hypot") and math.hypot(b.ref.f, c.ref.f) < 0.02) or (op == "atan2" and abs(b.ref.f) < 0.02 and c.ref.f < 0.02):
                continue
            w = b.ref.bin(op, c.ref)
            if not w.fits(limit=1e8):
                continue
            how, r = routes.binary(src, op, b.s, c.s, False)
            what = "n%d = %s of n%d and n%d" % (i, how, j, q)
            v[i] = SNum(r, w, b.names | c.names)
        elif kind == 5:
            op = src.pick(UN)
            if not safe(op, b.ref.f):
                continue
            w = b.ref.un(op)
            if not w.fits(limit=1e8):
                continue
            how, r = routes.un(src, op, b.s)
            what = "n%d = %s of n%d" % (i, how, j)
            v[i] = SNum(r, w, b.names)
        elif kind == 6:
            step = {}
            for _ in range(src.range(0, 5)):
                step[src.pick(NAMES + ["z"])] = small(src)
            keep = dict(step)
            want = err = 0.0
            for p, name in enumerate(NAMES):
                if name in step:
                    want += a.ref.g(p) * step[name]
                    err += (a.ref.eg(p) * 1.01 + 1e-14 * abs(a.ref.g(p))) * abs(step[name])
            r = a.s.eval(step) if src.chance(50) else a.s.eval(d=step)
            what = "n%d.eval(%r)" % (i, step)
            ctx.require(abs(r - want) <= err + 1e-280, "%s gives %r, expected %r" % (what, r, want))
            ctx.require(step == keep, what + " changes the dictionary")
        elif kind == 7:
            x, y = a.s.f, b.s.f
            s = x if src.chance(40) else small(src)
            what = "compare n%d, n%d and %r" % (i, j, s)
            for op, f in routes.CMP.items():
                for how, have, want in (("number %s number" % op, f(a.s, b.s), f(x, y)), ("number %s scalar" % op, f(a.s, s), f(x, s)), ("scalar %s number" % op, f(s, a.s), f(s, x))):
                    ctx.require(isinstance(have, (bool, np.bool_)) and bool(have) == want, "%s is %r for values %r, %r and scalar %r" % (how, have, x, y, s))
        elif kind == 8:
            what = "print n%d" % i
            check_text(ctx, a)
        else:
            v[i] = make(src, src.range(-20, 40) / 10)
            what = "n%d = %s" % (i, show(v[i]))
        ctx.log(what)
        done += 1
        for p in range(4):
            check_s(ctx, v[p], "n%d after %s" % (p, what))
        if src.chance(40):
            v[i].ref = Ref.of(dense(v[i].s), NN, 1)
    ctx.nontrivial = done >= 4 and updates >= 1


@prop("C26", 2, "two or more entries with named derivatives")
def sparse_arrays(src, ctx):
    shape = src.pick([(2,), (3,), (1, 2), (2, 2), (4,), (2, 3)])
    m = int(np.prod(shape))
    a, b = [make(src, src.range(-20, 40) / 8) for _ in range(m)], [make(src, src.range(1, 40) / 8) for _ in range(m)]

    def arr(v):
        x = np.empty(m, dtype=object)
        for i, e in enumerate(v):
            x[i] = e.s
        return x.reshape(shape)
    A, B = arr(a), arr(b)
    op = src.pick(BIN)
    ctx.log("%s of arrays of shape %s: %s and %s" % (op, shape, ", ".join(map(show, a)), ", ".join(map(show, b))))
    if src.chance(40):
        D = np.array([src.range(1, 20) / 4 for _ in range(m)]).reshape(shape)
        op = src.pick(BIN[:4])
        left = src.chance(50)
        if op == "/" and left and any(e.s.f == 0 for e in a):
            ctx.discard()
        R = routes.OPER[op](D, A) if left else routes.OPER[op](A, D)
        want = [e.ref.sd(op, float(d)) if left else e.ref.ds(op, float(d)) for e, d in zip(a, D.ravel())]
        names = [e.names for e in a]
    else:
        if any(not bin_domain(op, x.s.f, y.s.f) for x, y in zip(a, b)):
            ctx.discard()
        how, R = routes.binary(src, op, A, B, False) if op in routes.OPER else (op, {"atan2": np.arctan2, "hypot": np.hypot}[op](A, B))
        want = [x.ref.bin(op, y.ref) for x, y in zip(a, b)]
        names = [x.names | y.names for x, y in zip(a, b)]
    ctx.require(isinstance(R, np.ndarray) and R.shape == shape, "result has shape %s" % (np.shape(R),))
    for r, w, n in zip(R.ravel(), want, names):
        check_s(ctx, SNum(r, w, n), op)
    for e in a + b:
        check_s(ctx, e, "operand after the call")
    ctx.nontrivial = m >= 2 and all(e.names for e in a)
