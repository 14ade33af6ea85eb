"""C10 and C13 through the Python module: sizes change with the derivatives kept, invalid sizes are rejected."""
import numpy as np
import hyperjet as hj
from hv import *  # noqa: F403

DYNAMIC = [k for k in KINDS if k.dynamic]


def at(n, i, j):
    """position of the Hessian entry in the packed data"""
    i, j = min(i, j), max(i, j)
    return 1 + n + sum(n - r for r in range(i)) + j - i


def moved(d, n, order, m, shift):
    """the data for m variables, the old variable i at position i + shift"""
    r = [0.0] * length(m, order)
    r[0] = d[0]
    for i in range(n):
        if not 0 <= i + shift < m:
            continue
        r[1 + i + shift] = d[1 + i]
        if order == 2:
            for j in range(i, n):
                if j + shift < m:
                    r[at(m, i + shift, j + shift)] = d[at(n, i, j)]
    return r


def held(ctx, x, d, n, k, what):
    if type(x) is not k.cls:
        ctx.fail("%s: a %s" % (what, type(x).__name__))
    if x.size != n or len(x) != n:
        ctx.fail("%s: size %d, expected %d" % (what, x.size, n))
    check_data(ctx, x, d, what)
    if not same(x.f, d[0]) or not same_list([float(v) for v in x.g], d[1:1 + n]):
        ctx.fail("%s: f or g differ from the data" % what)
    if k.order == 2:
        H = x.hm()
        if H.shape != (n, n) or not all(same(H[i, j], d[at(n, i, j)]) for i in range(n) for j in range(n)):
            ctx.fail("%s: Hessian differs from the data" % what)


@prop("C10", 1, "two or more size changes of a number with two or more variables", 160)
def sizes(src, ctx):
    k = src.pick(DYNAMIC)
    n = src.range(0, 7)
    d = gen_data(src, n, k.order, any_float(src))
    if src.chance(50):
        d = [1.0 + i for i in range(len(d))]
    x = k.make(d)
    ctx.log("%s n=%d %s" % (k.name, n, brief(d)))
    changes = 0
    for _ in range(src.range(1, 7)):
        what = src.range(0, 4)
        ctx.label(["resize", "pad_right", "pad_left", "write", "update"][what])
        if what == 0:
            m = src.range(0, 9)
            ctx.log("resize(%d)" % m)
            r = x.resize(m) if src.chance(60) else x.resize(size=m)
            ctx.require(r is None, "resize returns %r" % (r,))
            d, changes = moved(d, n, k.order, m, 0), changes + (n >= 2 and m != n)
            n = m
        elif what <= 2:
            m = n + src.range(0, 5)
            name = "pad_right" if what == 1 else "pad_left"
            ctx.log("%s(%d)" % (name, m))
            y = getattr(x, name)(m) if src.chance(60) else getattr(x, name)(new_size=m)
            held(ctx, x, d, n, k, "operand of " + name)
            e = moved(d, n, k.order, m, 0 if what == 1 else m - n)
            held(ctx, y, e, m, k, name)
            changes += n >= 2 and m != n
            if src.chance(30) and len(d):
                y.f = 123.0  # independent of the operand
                held(ctx, x, d, n, k, "operand after a write to the result of " + name)
                y.f = e[0]
            if src.chance(70):
                x, d, n = y, e, m
        elif what == 3:
            i = src.range(0, len(d) - 1)
            v = small(src)
            ctx.log("data[%d] = %r" % (i, v))
            x.data[i] = v
            d[i] = v
        else:
            s = float(src.pick([2, -1, 0.5, 4]))
            ctx.log("*= %r" % s)
            x *= s
            d = [v * s for v in d]
        held(ctx, x, d, n, k, "number")
    ctx.nontrivial = changes >= 2


def error_of(f):
    try:
        f()
    except Exception as e:
        if isinstance(e, (Violation, Discard)):
            raise
        return e
    return None


@prop("C13", 1, "all", 120)
def classes(src, ctx):
    """numbers of different classes, or of a class and the sparse number, do not mix"""
    k = pick_kind(src)
    n = k.n(src, 5)
    x = k.make([1.5 + i / 4 for i in range(length(n, k.order))])
    q = src.pick([z for z in KINDS if z is not k] + [None] * 5)
    if q is None:
        y = hj.SScalar(2.0, {"x": 3.0})
    else:
        m = n if q.dynamic else q.size
        y = q.make([2.5 + i / 8 for i in range(length(m, q.order))])
    a, b = (x, y) if src.chance(50) else (y, x)
    d, e = list(map(float, x.data)), None if q is None else list(map(float, y.data))
    names = ["+", "-", "*", "/", "+=", "-=", "*=", "/=", "<", ">", "<=", ">=", "atan2", "np.arctan2", "hypot", "method hypot", "hypot3", "power"]
    w = src.pick(names)
    ctx.log("%s %s %s" % (type(a).__name__, w, type(b).__name__))
    ctx.label(w)
    v = {"a": a, "b": b}
    if w in ("atan2", "np.arctan2"):
        f = (lambda: a.atan2(b)) if w == "atan2" else (lambda: np.arctan2(a, b))
    elif w == "hypot":
        f = lambda: hj.hypot(a, b)
    elif w == "method hypot":
        f = lambda: type(a).hypot(a, b)
    elif w == "hypot3":
        f = src.pick([lambda: hj.hypot(a, a, b), lambda: hj.hypot(a, b, a), lambda: hj.hypot(b, a, a)])
    elif w == "power":
        f = lambda: a ** b
    elif w.endswith("=") and w[0] in "+-*/":
        f = lambda: exec("a %s b" % w, {}, v)
    else:
        f = lambda: eval("a %s b" % w, {}, v)
    ctx.require(error_of(f) is not None, "accepted")
    check_data(ctx, x, d, "operand after the rejected call")
    if e is not None:
        check_data(ctx, y, e, "operand after the rejected call")
    ctx.nontrivial = True


@prop("C13", 3, "every rejected call counts", 120)
def rejected(src, ctx):
    """the request with one dimension wrong raises and changes nothing, the same request with all of them right succeeds"""
    k = pick_kind(src) if src.chance(50) else src.pick(DYNAMIC)
    n = k.n(src, 8)
    o = k.order
    d = [1.5 + i / 4 for i in range(length(n, o))]
    x = k.make(d)
    wrong = src.range(0, 12)
    if src.chance(50):
        wrong = n + src.range(0, 1)
    e = [2.0 + i / 8 for i in range(length(wrong, o))]
    y = k.cls(e) if k.dynamic else None
    bad = wrong != n
    other = k.make([3.0 + i for i in range(len(d))])
    fx = [("eval", lambda m: x.eval([0.5] * m)), ("eval array", lambda m: x.eval(np.full(m, 0.5)))]
    if o == 1:
        fx += [("from_gradient", lambda m: k.cls(1.0, np.full(m, 99.0)) if not k.dynamic else None)]  # 99: a single entry would pass for a size
    else:
        fx += [("set_hm", lambda m: x.set_hm(np.ones((m, m)))), ("set_hm wide", lambda m: x.set_hm(np.ones((n, m)))), ("set_hm high", lambda m: x.set_hm(np.ones((m, n)))),
               ("from_arrays hm", lambda m: k.cls(1.0, np.zeros(n), np.zeros((m, m)))), ("from_arrays g", lambda m: k.cls(1.0, np.zeros(m), np.zeros((n, n)))),
               ("from_arrays wide", lambda m: k.cls(1.0, np.zeros(n), np.zeros((n, m))))]
    if k.dynamic:
        fx += [(op, lambda m, op=op: eval("x %s y" % op, {}, {"x": x, "y": y if m != n else other})) for op in ("+", "-", "*", "/")]
        fx += [("in-place " + op, lambda m, op=op: exec("x %s= y" % op, {}, {"x": x, "y": y if m != n else other})) for op in ("+", "-", "*", "/")]
        fx += [("arctan2", lambda m: np.arctan2(x, y if m != n else other)), ("atan2", lambda m: x.atan2(y if m != n else other)), ("hypot", lambda m: hj.hypot(x, y if m != n else other)),
               ("hypot3 b", lambda m: hj.hypot(x, y if m != n else other, x)), ("hypot3 c", lambda m: hj.hypot(x, other, y if m != n else other)), ("hypot3 a", lambda m: hj.hypot(y if m != n else other, x, other))]
    else:
        fx += [("constant", lambda m: k.cls.constant(1.0, m)), ("zero", lambda m: k.cls.zero(m)), ("empty", lambda m: k.cls.empty(m)), ("init", lambda m: k.cls(1.0, m)),
               ("variables", lambda m: k.cls.variables([1.0] * m)), ("data", lambda m: k.cls([1.0] * length(m, o)))]
    name, f = src.pick(fx)
    # other kinds of invalid values
    if src.chance(40):
        odd = [("negative size", lambda m: k.cls.zero(-m)), ("negative constant", lambda m: k.cls.constant(1.0, -m)), ("negative empty", lambda m: k.cls.empty(-m)), ("variable", lambda m: k.cls.variable(n + m - 1, 1.0, n)), ("variable -", lambda m: k.cls.variable(-m, 1.0, n))]
        if k.dynamic:
            odd += [("resize", lambda m: x.resize(-m)), ("pad_right", lambda m: x.pad_right(n - m)), ("pad_left", lambda m: x.pad_left(n - m)), ("pad_right -", lambda m: x.pad_right(-m)), ("pad_left -", lambda m: x.pad_left(-m))]
        if o == 2:
            odd += [("h row", lambda m: x.h(n + m - 1, 0)), ("h col", lambda m: x.h(0, n + m - 1)), ("h -row", lambda m: x.h(-m, 0)), ("h -col", lambda m: x.h(0, -m)),
                    ("set_h row", lambda m: x.set_h(n + m - 1, 0, 9.0)), ("set_h col", lambda m: x.set_h(0, n + m - 1, 9.0)), ("set_h -", lambda m: x.set_h(-m, 0, 9.0)), ("mode", lambda m: x.hm("none"[:m]))]
            if k.dynamic:
                odd += [("data length", lambda m: k.cls([1.0] * (length(n, 2) + 1 + m % (n + 1))))]
        odd += [("no data", lambda m: k.cls([]))] if k.dynamic or n or o else []
        name, f = src.pick(odd)
        m = src.range(1, 6)
        ctx.log("%s n=%d %s %d" % (k.name, n, name, m))
        ctx.label("odd values")
        if name == "no data" and error_of(lambda: f(m)) is None:
            ctx.fail("empty data accepted")
        err = error_of(lambda: f(m))
        ctx.require(err is not None, "accepted")
        check_data(ctx, x, d, "operand after the rejected call")
        ctx.require(x.size == n and len(x) == n, "size after the rejected call")
        ctx.nontrivial = True
        return
    ctx.log("%s n=%d %s with %d" % (k.name, n, name, wrong))
    ctx.label("wrong size" if bad else "right size")
    if bad:
        err = error_of(lambda: f(wrong))
        # a Hessian argument with one row or column is a vector for the module: only its length counts
        ctx.require(err is not None or name == "from_gradient" and k.dynamic, "accepted")
        check_data(ctx, x, d, "operand after the rejected call")
        ctx.require(x.size == n and len(x) == n, "size after the rejected call")
        if y is not None:
            check_data(ctx, y, e, "right operand after the rejected call")
    else:
        err = error_of(lambda: f(n))
        ctx.require(err is None, "a valid call raised %r" % (err,))
    ctx.nontrivial = bad
