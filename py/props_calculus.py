"""C18: the exported classes; C25: their text."""
import math
import numpy as np
import hyperjet as hj
import routes
from hv import *  # noqa: F403


def exponent(s):
    k = s.range(0, 3)
    if k <= 1:
        return float(s.range(-4, 6))
    if k == 2:
        return s.range(-8, 8) / 2
    return round(6 * s.unit() - 3, 3)


@prop("C18", 4, "the operand carries derivatives")
def unary(src, ctx):
    k = pick_kind(src)
    n = k.n(src)
    op = src.pick(UN)
    d = gen_data(src, n, k.order, argument(src, op))
    x = k.make(d)
    ctx.log("%s n=%d %s of %s" % (k.name, n, op, brief(d)))
    if not in_domain(op, d[0]):
        ctx.discard()
    how, r = routes.un(src, op, x)
    ctx.log(how)
    ctx.label(how)
    check(ctx, r, ref_of(x, n, k.order).un(op), k, how)
    check_data(ctx, x, d, "operand after the call")
    ctx.nontrivial = n > 0 and any(d[1:])


@prop("C18", 4, "both operands carry derivatives")
def operators(src, ctx):
    k = pick_kind(src)
    n = k.n(src)
    op = src.pick(BIN)
    d1, d2 = gen_data(src, n, k.order, small(src)), gen_data(src, n, k.order, small(src))
    x, y = k.make(d1), k.make(d2)
    if src.chance(15):
        y, d2 = x, d1
    ctx.log("%s n=%d %s of %s and %s" % (k.name, n, op, brief(d1), "itself" if y is x else brief(d2)))
    if not bin_domain(op, d1[0], d2[0]):
        ctx.discard()
    want = ref_of(x, n, k.order).bin(op, ref_of(y, n, k.order))
    if op in routes.OPER and src.chance(35):
        how = "x %s= y" % op
        r = routes.inplace(op, x, y)
        if y is not x:
            check_data(ctx, y, d2, "right operand after " + how)
    else:
        how, r = routes.binary(src, op, x, y)
        check_data(ctx, x, d1, "left operand after " + how)
        check_data(ctx, y, d2, "right operand after " + how)
    ctx.log(how)
    ctx.label(how)
    check(ctx, r, want, k, how)
    ctx.nontrivial = n > 0 and any(d1[1:]) and any(d2[1:])


@prop("C18", 3, "the number carries derivatives")
def scalars(src, ctx):
    k = pick_kind(src)
    n = k.n(src)
    op = src.pick(BIN[:4])
    d = gen_data(src, n, k.order, small(src))
    x = k.make(d)
    s, v = routes.scalar(src, small(src))
    form = src.range(0, 2)
    ctx.log("%s n=%d %s %s %s (%s)" % (k.name, n, brief(d), op, repr(s), ["number op scalar", "scalar op number", "in place"][form]))
    ctx.label(type(s).__name__ + " " + ["right", "left", "in place"][form])
    if op == "/" and (d[0] if form == 1 else v) == 0:
        ctx.discard()
    j = ref_of(x, n, k.order)
    if form == 0:
        r, want = routes.OPER[op](x, s), j.ds(op, v)
    elif form == 1:
        r, want = routes.OPER[op](s, x), j.sd(op, v)
    else:
        r, want = routes.inplace(op, x, s), j.ds(op, v)
    check(ctx, r, want, k, "result")
    if form != 2:
        check_data(ctx, x, d, "operand after the call")
    ctx.nontrivial = n > 0 and any(d[1:])


@prop("C18", 3, "the operand carries derivatives")
def other_functions(src, ctx):
    k = pick_kind(src)
    n = k.n(src)
    what = src.range(0, 4)
    if what == 0:
        e = exponent(src)
        x0 = small(src)
        if x0 == 0 or (x0 < 0 and e != int(e)):
            x0 = 1.25
        d = gen_data(src, n, k.order, x0)
        x = k.make(d)
        arg = int(e) if e == int(e) and src.chance(50) else (np.float64(e) if src.chance(20) else e)
        ctx.log("%s n=%d %s to the power %r" % (k.name, n, brief(d), arg))
        how, r = routes.power(src, x, arg)
        want = ref_of(x, n, k.order).pow(e)
    elif what == 1:
        base = src.pick([2.0, 10.0, 0.5, 3.0, 7.5, 1.25])
        d = gen_data(src, n, k.order, argument(src, "log"))
        x = k.make(d)
        ctx.log("%s n=%d log of %s base %r" % (k.name, n, brief(d), base))
        how = "x.log(base)"
        r = x.log(base) if src.chance(50) else x.log(base=base)
        want = ref_of(x, n, k.order).log_base(base)
    elif what == 2:
        ds = [gen_data(src, n, k.order, small(src)) for _ in range(3)]
        d = ds[0]
        x, y, z = [k.make(q) for q in ds]
        if src.chance(20):
            z, ds[2] = x, ds[0]
        ctx.log("%s n=%d hypot of %s" % (k.name, n, ", ".join(map(brief, ds))))
        if max(abs(q[0]) for q in ds) == 0:
            ctx.discard()
        how, r = routes.hypot3(src, x, y, z)
        want = ref_of(x, n, k.order).hypot3(ref_of(y, n, k.order), ref_of(z, n, k.order))
        check_data(ctx, y, ds[1], "operand after the call")
        check_data(ctx, z, ds[2], "operand after the call")
    elif what == 3:
        d = gen_data(src, n, k.order, small(src))
        x = k.make(d)
        step = [small(src) for _ in range(n)]
        arg = [list, tuple, np.array][src.range(0, 2)](step)
        ctx.log("%s n=%d %s eval at %s" % (k.name, n, brief(d), step))
        v, e = ref_of(x, n, k.order).eval(step)
        r = x.eval(arg) if src.chance(50) else x.eval(d=arg)
        ctx.label("eval")
        ctx.require(type(r) is float, "eval returns a " + type(r).__name__)
        ctx.require(abs(r - v) <= e + 1e-280, "eval gives %r, expected %r" % (r, v))
        check_data(ctx, x, d, "operand after the call")
        ctx.nontrivial = n > 0 and any(d[1:])
        return
    else:
        d = gen_data(src, n, k.order, small(src))
        x = k.make(d)
        ctx.log("%s n=%d np.square of %s" % (k.name, n, brief(d)))
        how, r = "np.square(x)", np.square(x)
        j = ref_of(x, n, k.order)
        want = j.bin("*", j)
    ctx.label(how)
    check(ctx, r, want, k, how)
    check_data(ctx, x, d, "operand after the call")
    ctx.nontrivial = n > 0 and any(d[1:])


@prop("C18", 2, "the numbers carry derivatives")
def comparisons(src, ctx):
    k = pick_kind(src)
    n = k.n(src)
    a = any_float(src)
    b = a if src.chance(25) else any_float(src)
    d1, d2 = gen_data(src, n, k.order, a), gen_data(src, n, k.order, b)
    x, y = k.make(d1), k.make(d2)
    s = np.float64(b) if src.chance(25) else b
    ctx.log("%s n=%d compare %r and %r" % (k.name, n, a, b))
    for op, f in routes.CMP.items():
        want = f(a, b)
        for what, have in (("number %s number" % op, f(x, y)), ("number %s scalar" % op, f(x, s)), ("scalar %s number" % op, f(type(s)(a), y))):
            ctx.require(isinstance(have, (bool, np.bool_)), "%s returns a %s" % (what, type(have).__name__))
            ctx.require(bool(have) == want, "%s is %s for values %r and %r" % (what, have, a, b))
    check_data(ctx, x, d1, "operand after the call")
    ctx.nontrivial = n > 0 and any(d1[1:])


def program(src, ctx, order, start, kind, module=True, most=16):
    """a random program on numbers; start: list of (number, reference)"""
    v = list(start)
    done = 0
    want = src.range(2, most)
    for _ in range(3 * want):
        if src.exhausted() or done >= want:
            break
        i, j, q = [len(v) - 1 - src.range(0, min(len(v) - 1, 4)) if src.chance(50) else src.range(0, len(v) - 1) for _ in range(3)]
        (x, rx), (y, ry), (z, rz) = v[i], v[j], v[q]
        kind_of = src.range(0, 9)
        if kind_of <= 2:
            op = src.pick(UN)
            if not safe(op, rx.f):
                continue
            w = rx.un(op)
            if not w.fits():
                continue
            how, r = routes.un(src, op, x)
            how = "v%d: %s" % (i, how)
        elif kind_of <= 5:
            op = src.pick(BIN)
            if (op == "/" and abs(ry.f) < 0.02) or (op in ("atan2", "hypot") and math.hypot(rx.f, ry.f) < 0.02) or (op == "atan2" and abs(rx.f) < 0.02 and ry.f < 0.02):
                continue
            w = rx.bin(op, ry)
            if not w.fits():
                continue
            how, r = routes.binary(src, op, x, y, module)
            how = "v%d, v%d: %s" % (i, j, how)
        elif kind_of <= 7:
            op = src.pick(BIN[:4])
            s, val = routes.scalar(src, small(src))
            left = src.chance(50)
            if op == "/" and abs(rx.f if left else val) < 0.02:
                continue
            w = rx.sd(op, val) if left else rx.ds(op, val)
            if not w.fits():
                continue
            r = routes.OPER[op](s, x) if left else routes.OPER[op](x, s)
            how = "%r %s v%d" % (s, op, i) if left else "v%d %s %r" % (i, op, s)
        elif kind_of == 8:
            e = exponent(src)
            if abs(rx.f) < 0.02 or (rx.f < 0 and e != int(e)):
                continue
            w = rx.pow(e)
            if not w.fits():
                continue
            how, r = routes.power(src, x, e)
            how = "v%d: %s, e = %r" % (i, how, e)
        else:
            if math.sqrt(rx.f ** 2 + ry.f ** 2 + rz.f ** 2) < 0.02:
                continue
            w = rx.hypot3(ry, rz)
            if not w.fits():
                continue
            how, r = routes.hypot3(src, x, y, z, module)
            how = "v%d, v%d, v%d: %s" % (i, j, q, how)
        done += 1
        ctx.log("v%d = %s" % (len(v), how))
        v.append((r, w))
        check(ctx, r, w, kind, "v%d" % (len(v) - 1))
    return v, done


@prop("C18", 4, "four or more operations", 220)
def programs(src, ctx):
    n = src.range(1, 6) if src.chance(70) else src.range(1, 17)
    order = src.range(1, 2)
    at = [src.range(-20, 40) / 10 for _ in range(n)]
    xs = hj.variables(at, order=order) if src.chance(50) or order == 1 else hj.variables(at)
    ctx.log("order %d, variables at %s" % (order, at))
    kind = next(k for k in KINDS if k.order == order and (k.size == n if n < 16 else k.dynamic))
    v = []
    for i in range(n):
        d = [0.0] * length(n, order)
        d[0], d[1 + i] = at[i], 1.0
        check_data(ctx, xs[i], d, "variable %d" % i)
        v.append((xs[i], Ref.of(d, n, order)))
    v, done = program(src, ctx, order, v, kind)
    for i, (x, w) in enumerate(v):
        check(ctx, x, w, kind, "v%d at the end" % i)
    ctx.nontrivial = done >= 4


@prop("C25", 2, "the number has derivatives")
def text(src, ctx):
    k = pick_kind(src)
    n = k.n(src)
    f = any_float(src)
    d = gen_data(src, n, k.order, f)
    x = k.make(d)
    want = ("%g" % f).replace("-nan", "nan") + "hj"
    ctx.log("%s n=%d value %r" % (k.name, n, f))
    for how, have in (("repr", repr(x)), ("str", str(x)), ("format", "%s" % x), ("in a list", repr([x])[1:-1])):
        ctx.require(have.replace("-nan", "nan") == want, "%s gives %r, expected %r" % (how, have, want))
    check_data(ctx, x, d, "number after printing")
    ctx.nontrivial = n > 0 and any(d[1:])
