"""C19: arrays of numbers; C20: serialisation and copies; C21: variables, f, d, dd."""
import copy
import pickle
import numpy as np
import hyperjet as hj
import routes
from hv import *  # noqa: F403


def pick_shape(src, most=12):
    k = src.range(0, 9)
    if k <= 3:
        return (src.range(1, 6),)
    if k <= 6:
        return (src.range(1, 4), src.range(1, 3))
    if k == 7:
        return (src.range(1, 3), src.range(1, 2), src.range(1, 2))
    return () if k == 8 else (src.pick([(0,), (2, 0), (0, 3), (1, 0, 2)]))


def pick_array_kind(src):
    k = pick_kind(src)
    return k if k.dynamic or k.size <= 9 or src.chance(40) else SMALL_KINDS[k.size % len(SMALL_KINDS)]


class Arr:
    """array of numbers with the references of its elements"""

    def __init__(self, a, r, kind, n):
        self.a, self.r, self.kind, self.n = a, r, kind, n


def layout(src, a, r):
    """the same elements with another memory layout"""
    k = src.range(0, 5)
    if a.ndim == 0:
        return a, r
    if k == 0:
        return a[::-1], r[::-1]
    if k == 1:
        return a.T, r.T
    if k == 2:
        return np.asfortranarray(a), np.asfortranarray(r)
    if k == 3:
        b = np.empty((2 * a.shape[0],) + a.shape[1:], dtype=object)
        b[::2] = a
        return b[::2], r
    return a, r


def make(src, k, n, shape, gen=small, keep=False):
    m = int(np.prod(shape, dtype=int))
    a, r = np.empty(m, dtype=object), np.empty(m, dtype=object)
    for i in range(m):
        if i and src.chance(10):
            j = src.range(0, i - 1)
            a[i], r[i] = a[j], r[j]  # the same object twice
            continue
        d = gen_data(src, n, k.order, gen(src))
        a[i], r[i] = k.make(d), Ref.of(d, n, k.order)
    a, r = a.reshape(shape), r.reshape(shape)
    if not keep:
        a, r = layout(src, a, r)
    return Arr(a, r, k, n)


def of(a, fn, *others):
    """fn element by element with broadcasting on arrays of references"""
    ins = np.broadcast_arrays(a, *others) if others else [np.asarray(a)]
    out = np.empty(ins[0].shape, dtype=object)
    for i in np.ndindex(*ins[0].shape):
        out[i] = fn(*[x[i] for x in ins])
    return out


def show(A):
    return "%s shape %s [%s]" % (A.kind.name, A.a.shape, "; ".join(brief(data_of(x)) for x in A.a.flat))


def values(A):
    return of(A.r, lambda r: r.f)


def check_array(ctx, R, want, k, what):
    """R: array or, for shape (), a number"""
    if want.shape == () and not isinstance(R, np.ndarray):
        check(ctx, R, want[()], k, what)
        return
    ctx.require(isinstance(R, np.ndarray), "%s: result is a %s" % (what, type(R).__name__))
    ctx.require(R.dtype == object, "%s: result has type %s" % (what, R.dtype))
    ctx.require(R.shape == want.shape, "%s: result has shape %s, expected %s" % (what, R.shape, want.shape))
    for i in np.ndindex(*want.shape):
        check(ctx, R[i], want[i], k, "%s, element %s" % (what, i))


def unchanged(ctx, A, what="array after the call"):
    for i in np.ndindex(*A.a.shape):
        x, r = A.a[i], A.r[i]
        check(ctx, x, r, A.kind, "%s, element %s" % (what, i))


def floats(src, shape, gen=small):
    k = src.range(0, 3)
    v = np.array([gen(src) for _ in range(int(np.prod(shape, dtype=int)))], dtype=float).reshape(shape)
    if k == 1:
        v = np.trunc(np.clip(v, -1e6, 1e6)).astype(np.int64)
    elif k == 2:
        v = v.astype(np.float32)
    elif k == 3 and v.ndim == 2:
        v = np.asfortranarray(v)
    return v


def broadcastable(src, shape):
    k = src.range(0, 3)
    if k <= 1 or not shape:
        return shape
    if k == 2:
        return shape[src.range(0, len(shape)):]
    return tuple(1 if src.chance(50) else s for s in shape)


@prop("C19", 3, "two or more elements with derivatives")
def array_functions(src, ctx):
    k = pick_array_kind(src)
    n = k.n(src, 5)
    op = src.pick(UN)
    A = make(src, k, n, pick_shape(src), lambda s: argument(s, op))
    ctx.log("%s of %s" % (op, show(A)))
    how = "np"
    if op == "reciprocal":
        R = np.reciprocal(A.a) if src.chance(50) else 1 / A.a
    elif op == "neg":
        R = -A.a if src.chance(50) else np.negative(A.a)
    elif op == "abs":
        R = abs(A.a) if src.chance(50) else np.abs(A.a)
    else:
        f = getattr(np, routes.ALIAS.get(op, op))
        way = src.range(0, 2) if A.a.ndim else 0
        if way == 0:
            R = f(A.a)
        elif way == 1:
            R = np.empty(A.a.shape, dtype=object)
            ctx.require(f(A.a, out=R) is R, "out= is not returned")
        else:
            how = "where"
            mask = np.array([src.chance(50) for _ in range(A.a.size)], dtype=bool).reshape(A.a.shape)
            R = A.a.copy()
            f(A.a, out=R, where=mask)
            want = of(A.r, lambda r, m: r.un(op) if m else r, mask)
    ctx.label(op)
    if how == "np":
        want = of(A.r, lambda r: r.un(op))
    check_array(ctx, R, want, k, op)
    unchanged(ctx, A)
    ctx.nontrivial = A.a.size >= 2 and n > 0


@prop("C19", 5, "two or more elements with derivatives")
def array_arithmetic(src, ctx):
    k = pick_array_kind(src)
    n = k.n(src, 5)
    shape = pick_shape(src)
    form = src.range(0, 6)
    op = src.pick(BIN if form <= 1 else BIN[:4])
    A = make(src, k, n, shape)
    shape = A.a.shape
    if form <= 1:  # with an array of numbers
        B = make(src, k, n, broadcastable(src, shape), keep=True) if src.chance(85) else A
        ctx.log("%s of %s and %s" % (op, show(A), show(B)))
        if any(not bin_domain(op, x.f, y.f) for x, y in zip(*[v.flat for v in np.broadcast_arrays(A.r, B.r)])):
            ctx.discard()
        want = of(A.r, lambda x, y: x.bin(op, y), B.r)
        if op in routes.OPER:
            if src.chance(30) and want.shape == shape and A.a.ndim and B is not A:
                before = [A.a.copy(), A.a]
                R = routes.inplace(op, A.a, B.a)
                ctx.require(R is before[1], "%s= gives another array" % op)
                A = Arr(before[0], A.r, k, n)
                ctx.label("in place with an array")
            else:
                R = routes.binary(src, op, A.a, B.a, False)[1]
        else:
            R = {"atan2": np.arctan2, "hypot": np.hypot}[op](A.a, B.a)
        check_array(ctx, R, want, k, "array %s array" % op)
        unchanged(ctx, B)
    elif form == 2:  # with a single number
        d = gen_data(src, n, k.order, small(src))
        y, ry = k.make(d), Ref.of(d, n, k.order)
        left = src.chance(50)
        ctx.log("%s of %s and the number %s %s" % (op, show(A), brief(d), "left" if left else "right"))
        if op == "/" and (any(v == 0 for v in values(A).flat) if left else d[0] == 0):
            ctx.discard()
        R = routes.OPER[op](y, A.a) if left else routes.OPER[op](A.a, y)
        want = of(A.r, lambda x: ry.bin(op, x) if left else x.bin(op, ry))
        check_array(ctx, R, want, k, "array and number " + op)
        check_data(ctx, y, d, "number after the call")
    elif form == 3:  # with a plain scalar
        s, v = routes.scalar(src, small(src))
        left = src.chance(50)
        ctx.log("%s of %s and %r %s" % (op, show(A), s, "left" if left else "right"))
        if op == "/" and (any(v == 0 for v in values(A).flat) if left else v == 0):
            ctx.discard()
        want = of(A.r, lambda x: x.sd(op, v) if left else x.ds(op, v))
        if not left and A.a.ndim and src.chance(30):
            keep = A.a.copy()
            R = routes.inplace(op, A.a, s)
            A = Arr(keep, A.r, k, n)
        else:
            R = routes.OPER[op](s, A.a) if left else routes.OPER[op](A.a, s)
        check_array(ctx, R, want, k, "array and scalar " + op)
    elif form <= 5:  # with a plain array
        B = floats(src, broadcastable(src, shape))
        left = src.chance(50)
        ctx.log("%s of %s and %s array %s %s" % (op, show(A), B.dtype, B.tolist(), "left" if left else "right"))
        if op == "/" and (any(v == 0 for v in values(A).flat) if left else not np.all(B)):
            ctx.discard()
        want = of(A.r, lambda x, b: x.sd(op, float(b)) if left else x.ds(op, float(b)), B)
        other = B.tolist() if src.chance(20) and B.ndim and B.size and B.dtype != np.float32 else B
        if not left and want.shape == shape and A.a.ndim and src.chance(30):
            keep = A.a.copy()
            R = routes.inplace(op, A.a, other)
            A = Arr(keep, A.r, k, n)
        else:
            R = routes.OPER[op](other, A.a) if left else routes.OPER[op](A.a, other)
        check_array(ctx, R, want, k, "array and plain array " + op)
    else:  # powers
        e = src.range(-3, 5)
        A = make(src, k, n, shape, lambda s: s.range(1, 40) / 8 * (-1 if s.chance(30) else 1))
        arr = src.chance(40)
        E = np.array([src.range(-3, 5) for _ in range(A.a.size)], dtype=float).reshape(A.a.shape) if arr else float(e) if src.chance(50) else e
        ctx.log("%s to the power %s" % (show(A), E.tolist() if arr else E))
        R = A.a ** E if src.chance(50) else np.power(A.a, E)
        want = of(A.r, lambda x, v: x.pow(float(v)), E) if A.a.size else A.r
        check_array(ctx, R, want, k, "power")
    ctx.label(["array", "array", "number", "scalar", "plain array", "plain array", "power"][form])
    unchanged(ctx, A)
    ctx.nontrivial = A.a.size >= 2 and n > 0


def acc(refs, op):
    r = refs[0]
    for x in refs[1:]:
        r = r.bin(op, x)
    return r


def dot(ra, rb):
    return acc([x.bin("*", y) for x, y in zip(ra, rb)], "+")


def dotf(ra, b, left):
    return acc([x.sd("*", float(y)) if left else x.ds("*", float(y)) for x, y in zip(ra, b)], "+")


@prop("C19", 4, "three or more elements with derivatives", 240)
def array_reductions(src, ctx):
    k = pick_array_kind(src)
    n = k.n(src, 5)
    what = src.range(0, 8)

    def value(s):
        return s.range(-24, 24) / 8
    shape = pick_shape(src)
    A = make(src, k, n, shape if 0 not in shape else (3,), value)
    shape = A.a.shape
    nd = len(shape)
    axis = None if nd == 0 or src.chance(40) else src.range(-nd, nd - 1)

    def along(fn):
        if axis is None:
            r = np.empty((), dtype=object)
            r[()] = fn(list(A.r.flat))
            return r
        moved = np.moveaxis(A.r, axis, -1)
        out = np.empty(moved.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = fn(list(moved[i]))
        return out
    name = ["sum", "prod", "mean", "cumsum", "difference", "extremum", "sort", "built-in sum", "selection"][what]
    ctx.log("%s axis %s of %s" % (name, axis, show(A)))
    ctx.label(name)
    keep = src.chance(25)
    if what == 0:
        R = [lambda: np.sum(A.a, axis=axis, keepdims=keep), lambda: A.a.sum(axis=axis, keepdims=keep), lambda: np.add.reduce(A.a, axis=axis, keepdims=keep)][src.range(0, 2)]()
        want = along(lambda r: acc(r, "+"))
        if keep:
            want = np.expand_dims(want, axis) if axis is not None else want.reshape((1,) * nd)
        check_array(ctx, R, want, k, name)
    elif what == 1:
        R = np.prod(A.a, axis=axis) if src.chance(50) else A.a.prod(axis=axis)
        check_array(ctx, R, along(lambda r: acc(r, "*")), k, name)
    elif what == 2:
        R = np.mean(A.a, axis=axis) if src.chance(50) else A.a.mean(axis=axis)
        check_array(ctx, R, along(lambda r: acc(r, "+").ds("/", float(len(r)))), k, name)
    elif what == 3:
        if nd == 0:
            ctx.discard()
        op = "+" if src.chance(60) else "*"
        R = (np.cumsum if op == "+" else np.cumprod)(A.a, axis=axis)
        base = A.r.reshape(-1) if axis is None else np.moveaxis(A.r, axis, -1)
        out = np.empty(base.shape, dtype=object)
        for i in np.ndindex(*base.shape[:-1]):
            for j in range(base.shape[-1]):
                out[i + (j,)] = acc(list(base[i][:j + 1]), op)
        check_array(ctx, R, out if axis is None else np.moveaxis(out, -1, axis), k, name)
    elif what == 4:
        if nd == 0 or axis is None:
            axis = -1
        if nd == 0:
            ctx.discard()
        m = np.moveaxis(A.r, axis, -1)
        want = of(m[..., 1:], lambda x, y: x.bin("-", y), m[..., :-1]) if m.shape[-1] > 1 else m[..., 1:]
        check_array(ctx, np.diff(A.a, axis=axis), np.moveaxis(want, -1, axis), k, name)
    elif what == 5:
        f = [np.max, np.min][src.range(0, 1)]
        R = f(A.a, axis=axis)
        want = along(lambda r: (max if f is np.max else min)(x.f for x in r))
        flat = [R] if not isinstance(R, np.ndarray) else list(R.flat)
        ctx.require([x.f for x in flat] == list(want.flat), "extremum: values %s, expected %s" % ([x.f for x in flat], list(want.flat)))
        ctx.require(all(any(x is y or same_list(data_of(x), data_of(y)) for y in A.a.flat) for x in flat), "extremum is not one of the elements")
        g = np.argmax if f is np.max else np.argmin
        v = values(A).astype(float)
        ctx.require(np.array_equal(g(A.a, axis=axis), g(v, axis=axis)), "arg of the extremum")
    elif what == 6:
        if nd == 0:
            ctx.discard()
        v = values(A).astype(float)
        ax = -1 if axis is None else axis
        R = np.sort(A.a, axis=ax, kind="stable")
        ix = np.argsort(v, axis=ax, kind="stable")
        ctx.require(np.array_equal(np.argsort(A.a, axis=ax, kind="stable"), ix), "order of the elements")
        check_array(ctx, R, np.take_along_axis(A.r, ix, axis=ax), k, name)
    elif what == 7:
        R = sum(list(A.a.flat))
        check(ctx, R, acc(list(A.r.flat), "+"), k, name)
    else:
        t = value(src)
        v = values(A).astype(float)
        for op, f in routes.CMP.items():
            for w, have in (("array %s scalar" % op, f(A.a, t)), ("scalar %s array" % op, f(t, A.a))):
                ctx.require(np.array_equal(np.asarray(have, dtype=bool), f(v, t) if w.startswith("array") else f(t, v)), w)
        mask = v < t
        want = of(A.r, lambda x, m: x if m else x.bin("+", x), mask)
        check_array(ctx, np.where(A.a < t, A.a, A.a + A.a), want, k, "np.where")
        if nd:
            check_array(ctx, A.a[A.a >= t], A.r[v >= t], k, "selection by mask")
    unchanged(ctx, A)
    ctx.nontrivial = A.a.size >= 3 and n > 0


@prop("C19", 4, "an inner dimension of two or more and derivatives", 240)
def array_products(src, ctx):
    k = pick_array_kind(src)
    n = k.n(src, 4)
    p, q, r = src.range(1, 3), src.range(1, 4), src.range(1, 3)
    what = src.range(0, 8)

    def value(s):
        return s.range(-24, 24) / 8
    name = ["dot", "matrix vector", "vector matrix", "matrix matrix", "outer", "cross", "norm", "trace", "stack of matrices"][what]
    ctx.label(name)
    plain = src.range(0, 3)  # 0: plain left, 1: plain right

    def shaped(shape_a, shape_b):
        A = make(src, k, n, shape_a, value) if plain != 0 else None
        B = make(src, k, n, shape_b, value) if plain != 1 else None
        a = floats(src, shape_a, value) if A is None else A.a
        b = floats(src, shape_b, value) if B is None else B.a
        # the layout may have transposed
        if A is not None and A.a.shape != shape_a:
            A.a, A.r = A.a.T, A.r.T
            a = A.a
        if B is not None and B.a.shape != shape_b:
            B.a, B.r = B.a.T, B.r.T
            b = B.a
        ctx.log("%s of %s and %s" % (name, show(A) if A else a.tolist(), show(B) if B else b.tolist()))
        ctx.label("plain left" if A is None else "plain right" if B is None else "both numbers")

        def d(ia, ib):  # sum over products of the given index tuples
            if A is None:
                return dotf([B.r[j] for j in ib], [a[i] for i in ia], True)
            if B is None:
                return dotf([A.r[i] for i in ia], [b[j] for j in ib], False)
            return dot([A.r[i] for i in ia], [B.r[j] for j in ib])
        return A, B, a, b, d

    def table(shape, fn):
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = fn(*i)
        return out
    K = range(q)
    if what == 0:
        A, B, a, b, d = shaped((q,), (q,))
        R = [lambda: a @ b, lambda: np.dot(a, b), lambda: np.inner(a, b), lambda: np.einsum("i,i", a, b), lambda: np.tensordot(a, b, 1)][src.range(0, 4)]()
        want = table((), lambda: d([(i,) for i in K], [(i,) for i in K]))
    elif what == 1:
        A, B, a, b, d = shaped((p, q), (q,))
        R = [lambda: a @ b, lambda: np.dot(a, b), lambda: np.matmul(a, b), lambda: np.einsum("ij,j->i", a, b)][src.range(0, 3)]()
        want = table((p,), lambda i: d([(i, s) for s in K], [(s,) for s in K]))
    elif what == 2:
        A, B, a, b, d = shaped((q,), (q, r))
        R = [lambda: a @ b, lambda: np.dot(a, b), lambda: np.matmul(a, b)][src.range(0, 2)]()
        want = table((r,), lambda j: d([(s,) for s in K], [(s, j) for s in K]))
    elif what == 3:
        A, B, a, b, d = shaped((p, q), (q, r))
        R = [lambda: a @ b, lambda: np.dot(a, b), lambda: np.matmul(a, b), lambda: np.tensordot(a, b, 1), lambda: np.einsum("ij,jk->ik", a, b), lambda: (b.T @ a.T).T][src.range(0, 5)]()
        want = table((p, r), lambda i, j: d([(i, s) for s in K], [(s, j) for s in K]))
    elif what == 4:
        A, B, a, b, d = shaped((p,), (q,))
        R = [lambda: np.outer(a, b), lambda: np.multiply.outer(a, b), lambda: a[:, None] * b, lambda: np.kron(a, b).reshape(p, q)][src.range(0, 3)]()
        want = table((p, q), lambda i, j: d([(i,)], [(j,)]))
    elif what == 5:
        A, B, a, b, d = shaped((3,), (3,))
        R = np.cross(a, b)
        want = table((3,), lambda i: d([((i + 1) % 3,)], [((i + 2) % 3,)]).bin("-", d([((i + 2) % 3,)], [((i + 1) % 3,)])))
    elif what == 6:
        A = make(src, k, n, (q,) if src.chance(60) else (p, q), value)
        B = None
        ctx.log("norm of " + show(A))
        if not np.any(values(A).astype(float)):
            ctx.discard()
        fl = list(A.r.flat)
        R = np.linalg.norm(A.a)
        want = table((), lambda: dot(fl, fl).un("sqrt"))
        plain = 3
    elif what == 7:
        A = make(src, k, n, (q, q), value)
        B = None
        ctx.log("trace of " + show(A))
        R = np.trace(A.a)
        want = table((), lambda: acc([A.r[i, i] for i in K], "+"))
        plain = 3
    else:
        A, B, a, b, d = shaped((2, p, q), (q, r))
        R = a @ b
        want = table((2, p, r), lambda c, i, j: d([(c, i, s) for s in K], [(s, j) for s in K]))
    check_array(ctx, R, want, k, name)
    for o in (A, B):
        if o is not None:
            unchanged(ctx, o)
    ctx.nontrivial = q >= 2 and n > 0


@prop("C19", 2, "two or more steps", 260)
def array_programs(src, ctx):
    """element-wise programs: the array against single numbers"""
    n = src.range(1, 4)
    order = src.range(1, 2)
    k = next(q for q in KINDS if q.order == order and q.size == n)
    m = src.range(2, 4)
    d0 = [gen_data(src, n, order, src.range(2, 24) / 8) for _ in range(m)]
    A = np.empty(m, dtype=object)
    A[:] = [k.make(d) for d in d0]
    v = [(A, [Ref.of(d, n, order) for d in d0])]
    ctx.log("%s: %s" % (k.name, "; ".join(map(brief, d0))))
    done = 0
    for _ in range(src.range(2, 10)):
        if src.exhausted():
            break
        (x, rx), (y, ry) = src.pick(v), src.pick(v)
        kind = src.range(0, 3)
        if kind == 0:
            op = src.pick(UN)
            if not all(safe(op, r.f) for r in rx):
                continue
            w = [r.un(op) for r in rx]
            f = (lambda: np.reciprocal(x)) if op == "reciprocal" else (lambda: -x) if op == "neg" else (lambda: getattr(np, routes.ALIAS.get(op, op))(x))
        elif kind == 1:
            op = src.pick(BIN)
            if (op == "/" and any(abs(r.f) < 0.02 for r in ry)) or (op in ("atan2", "hypot") and any(math.hypot(p.f, q.f) < 0.02 for p, q in zip(rx, ry))) or (op == "atan2" and any(abs(p.f) < 0.02 and q.f < 0.02 for p, q in zip(rx, ry))):
                continue
            w = [p.bin(op, q) for p, q in zip(rx, ry)]
            f = (lambda: routes.OPER[op](x, y)) if op in routes.OPER else (lambda: {"atan2": np.arctan2, "hypot": np.hypot}[op](x, y))
        elif kind == 2:
            op = src.pick(BIN[:3])
            D = np.array([src.range(-16, 16) / 4 for _ in range(m)])
            left = src.chance(50)
            w = [r.sd(op, float(c)) if left else r.ds(op, float(c)) for r, c in zip(rx, D)]
            f = (lambda: routes.OPER[op](D, x)) if left else (lambda: routes.OPER[op](x, D))
        else:
            op = "mean subtracted"
            mu = acc(list(rx), "+").ds("/", float(m))
            w = [r.bin("-", mu) for r in rx]
            f = (lambda: x - x.mean())
        if not all(r.fits() for r in w):
            continue
        R = f()
        ctx.log("v%d = %s" % (len(v), op))
        want = np.empty(m, dtype=object)
        want[:] = w
        check_array(ctx, R, want, k, "v%d" % len(v))
        v.append((R, w))
        done += 1
    for i, (x, w) in enumerate(v):
        for j in range(m):
            check(ctx, x[j], w[j], k, "v%d at the end, element %d" % (i, j))
    ctx.nontrivial = done >= 2


# ---------------------------------------------------------------- C20
def wild_data(src, n, order):
    d = gen_data(src, n, order, any_float(src))
    for _ in range(src.range(0, 6)):
        d[src.range(0, len(d) - 1)] = any_float(src)
    return d


def exact(ctx, x, d, k, n, what):
    ctx.require(type(x) is k.cls, "%s is a %s, expected %s" % (what, type(x).__name__, k.name))
    ctx.require(x.size == n and len(x) == n, "%s has size %s, expected %d" % (what, x.size, n))
    have = data_of(x)
    ctx.require(len(have) == len(d) and all(same_bits(p, q) for p, q in zip(have, d)), "%s: %s, expected %s" % (what, brief(have), brief(d)))
    ctx.require(same_bits(x.f, d[0]) and all(same_bits(p, q) for p, q in zip(x.g, d[1:1 + n])), what + ": value or gradient differs from the data")


def clone(src, x):
    k = src.range(0, 9)
    if k <= 5:
        return "pickle protocol %d" % k, pickle.loads(pickle.dumps(x, protocol=k))
    if k == 6:
        return "copy", copy.copy(x)
    if k == 7:
        return "pickle", pickle.loads(pickle._dumps(x, src.range(2, 5)))
    return "deepcopy", copy.deepcopy(x)


class Box:
    """a user's object"""

    def __init__(self, **k):
        self.__dict__.update(k)


@prop("C20", 4, "the number has derivatives")
def copies(src, ctx):
    k = pick_kind(src)
    n = k.n(src, 9)
    d = wild_data(src, n, k.order)
    x = k.make(d)
    ctx.log("%s n=%d %s" % (k.name, n, brief(d)))
    exact(ctx, x, d, k, n, "original")
    y, have = x, []
    for _ in range(src.range(1, 3)):
        how, y = clone(src, y)
        have.append(how)
        ctx.label(how)
        exact(ctx, y, d, k, n, " then ".join(have))
    ctx.log(" then ".join(have))
    ctx.require(y is not x, "the copy is the same object")
    # independence, in both directions
    for a, b, name in ((x, y, "copy"), (y, x, "original")):
        da = data_of(a)
        keep = data_of(b)
        w = src.range(0, 4)
        i = src.range(0, len(da) - 1)
        if w == 0:
            a.f = 12.5
        elif w == 1:
            a.data[i] = 17.0
        elif w == 2:
            a += a
        elif w == 3 and n:
            a.g[src.range(0, n - 1)] = -3.0
        elif w == 4 and k.order == 2 and n:
            a.set_hm(np.full((n, n), 2.5))
        have_b = data_of(b)
        ctx.require(len(keep) == len(have_b) and all(same_bits(p, q) for p, q in zip(keep, have_b)), "writing to one number changes its " + name)
    ctx.nontrivial = n > 0 and any(d[1:])


@prop("C20", 3, "three or more numbers in the structure", 200)
def structures(src, ctx):
    items = []

    def number():
        k = pick_kind(src)
        n = k.n(src, 4)
        if n > 6:
            k, n = KINDS[-1], 3
        d = wild_data(src, n, k.order)
        x = k.make(d)
        items.append((x, d, k, n))
        return x

    def node(depth):
        w = src.range(0, 7) if depth < 3 else 0
        if w <= 1 or src.exhausted():
            return number()
        if w == 2:
            return [node(depth + 1) for _ in range(src.range(0, 3))]
        if w == 3:
            return tuple(node(depth + 1) for _ in range(src.range(0, 3)))
        if w == 4:
            return {("k%d" % i): node(depth + 1) for i in range(src.range(0, 3))}
        if w == 5:
            shape = src.pick([(2,), (1, 2), (), (2, 1, 1), (3,)])
            a = np.empty(shape, dtype=object)
            for i in np.ndindex(*shape):
                a[i] = number()
            return a
        if w == 6:
            return Box(a=node(depth + 1), b=src.range(0, 5))
        return items[src.range(0, len(items) - 1)][0] if items else number()  # shared
    top = [node(1) for _ in range(src.range(1, 4))]
    if src.chance(30):
        top.append(top[0])
    p = src.range(0, 6)
    ctx.log("structure with %d numbers: %r" % (len(items), top) + " " + ("protocol %d" % p if p <= 5 else "deepcopy"))
    out = pickle.loads(pickle.dumps(top, protocol=p)) if p <= 5 else copy.deepcopy(top)
    ctx.label("protocol %d" % p if p <= 5 else "deepcopy")
    which = {id(it[0]): it for it in items}
    seen = {}

    def walk(a, b, path):
        ctx.require(type(a) is type(b), "%s is a %s, expected %s" % (path, type(b).__name__, type(a).__name__))
        if id(a) in which:
            x, d, k, n = which[id(a)]
            exact(ctx, b, d, k, n, path)
            exact(ctx, x, d, k, n, "original of " + path)
            ctx.require(b is not a, path + " is the original")
            if p <= 5:  # pickle keeps shared numbers shared
                ctx.require(seen.setdefault(id(a), b) is b, path + ": a number that occurs twice was split")
            return
        if isinstance(a, (list, tuple)):
            ctx.require(len(a) == len(b), path + ": length")
            for i in range(len(a)):
                walk(a[i], b[i], "%s[%d]" % (path, i))
        elif isinstance(a, dict):
            ctx.require(list(a) == list(b), path + ": keys")
            for key in a:
                walk(a[key], b[key], "%s[%r]" % (path, key))
        elif isinstance(a, np.ndarray):
            ctx.require(a.shape == b.shape and a.dtype == b.dtype, path + ": shape")
            for i in np.ndindex(*a.shape):
                walk(a[i], b[i], "%s%s" % (path, i))
        elif isinstance(a, Box):
            walk(a.a, b.a, path + ".a")
            ctx.require(a.b == b.b, path + ".b")
    walk(top, out, "top")
    ctx.nontrivial = len(items) >= 3


@prop("C20", 2, "the state is malformed")
def malformed_state(src, ctx):
    k = pick_kind(src)
    n = k.n(src, 5)
    good = length(n, k.order)
    w = src.range(0, 8)
    vals = [float(i) for i in range(40)]
    if w <= 2:
        m = src.range(0, min(170, good + 6))
        if k.dynamic:
            ok = any(length(j, k.order) == m for j in range(60))
        else:
            ok = m == good
        state = ([float(i) for i in range(m)],)
    elif w == 3:
        state, ok = (), False
    elif w == 4:
        state, ok = (vals[:good] if good <= 40 else [1.0], vals[:1]), False
    elif w == 5:
        state, ok = src.pick([None, 5, 1.5, "abc", {}, {"a": 1}]), False
    elif w == 6:
        state, ok = ([src.pick(["x", None, 1j, [1.0]]) if i == src.range(0, good - 1) or i == 0 else 1.0 for i in range(good)],), False
    elif w == 7:
        state, ok = (src.pick([None, "abc", 4, {}, 2.5, object()]),), False
    else:
        state, ok = (np.array([1.0] * good).reshape(-1, 1),), None  # rejected or taken: either, but consistent
    ctx.log("%s n=%d state %s" % (k.name, n, repr(state)[:300]))
    x = k.cls.__new__(k.cls)
    try:
        x.__setstate__(state)
    except Exception as e:
        ctx.require(ok is not True, "valid state rejected: %r" % e)
        ctx.label("rejected")
        ctx.nontrivial = True
        return
    ctx.label("accepted")
    if ok is None:
        ctx.require(len(data_of(x)) == length(x.size, k.order), "inconsistent number from an odd state")
        return
    ctx.require(ok, "malformed state accepted; size %d data %s" % (x.size, brief(x.data)))
    have = data_of(x)
    ctx.require(have == list(state[0]) and length(x.size, k.order) == len(have), "state %s gives size %d, data %s" % (state, x.size, brief(have)))




# ---------------------------------------------------------------- C21
def kind_of(order, n):
    return next(k for k in KINDS if k.order == order and (k.size == n if n < 16 else k.dynamic))


def check_variables(ctx, xs, vals, k):
    n = len(vals)
    ctx.require(type(xs) is list and len(xs) == n, "gives %s of length %s, expected a list of length %d" % (type(xs).__name__, len(xs), n))
    for i, x in enumerate(xs):
        d = [0.0] * length(n, k.order)
        d[0], d[1 + i] = vals[i], 1.0
        exact(ctx, x, d, k, n, "variable %d" % i)
        if k.order == 2:
            ctx.require(np.array_equal(x.hm(), np.zeros((n, n))), "variable %d: Hessian is not zero" % i)


@prop("C21", 3, "two or more values, or an invalid request")
def module_variables(src, ctx):
    n = src.range(0, 5) if src.chance(40) else src.range(0, 20) if src.chance(80) else src.range(0, 40)
    vals = [any_float(src) if src.chance(30) else small(src) for _ in range(min(n, 6))]
    vals += [float(i + 1) for i in range(n - len(vals))]
    c = src.range(0, 5)
    arg = vals
    if c == 1:
        arg = tuple(vals)
    elif c == 2:
        arg = np.array(vals)
    elif c == 3:
        vals = [float(int(v)) if abs(v) < 1e9 else 1.0 for v in vals]
        arg = [int(v) for v in vals]
    elif c == 4:
        vals = [float(np.float32(v)) if abs(v) < 1e30 else 2.0 for v in vals]
        arg = np.array(vals, dtype=np.float32)
    elif c == 5:
        b = np.zeros(2 * n)
        b[::2] = vals
        arg = b[::2]
    if src.chance(15):
        bad = src.range(0, 3)
        if bad <= 1:
            order = src.pick([3, -1, 4, 100, -2 ** 62, 2 ** 62])
            ctx.log("variables of %d values, order %d" % (n, order))
            ctx.require(throws(hj.variables, arg, order), "order %d is accepted" % order)
        else:
            wrong = src.pick([None, 1.5, "abc", ["a"], [None, 1.0], {"a": 1.0}, [[1.0, 2.0], [3.0, 4.0]], [1.0, 1j], object()])
            ctx.log("variables of %r" % (wrong,))
            ctx.require(throws(hj.variables, wrong), "%r is accepted" % (wrong,))
        ctx.label("invalid")
        ctx.nontrivial = True
        return
    order = src.range(0, 2)
    form = src.range(0, 3)
    ctx.log("variables of %s %s, order %d" % (type(arg).__name__, vals, order))
    ctx.label("order %d %s" % (order, "none" if n == 0 else "fixed" if n < 16 else "dynamic"))
    if form == 0 and order == 2:
        xs = hj.variables(arg)
    elif form == 1:
        xs = hj.variables(values=arg, order=order)
    elif form == 2:
        xs = hj.variables(arg, order=order)
    else:
        xs = hj.variables(arg, order)
    if order == 0:
        ctx.require(type(xs) is list and len(xs) == n and all(type(x) is float for x in xs), "order 0 gives %r" % (xs,))
        ctx.require(all(same_bits(x, v) for x, v in zip(xs, vals)), "order 0 gives %r for %r" % (xs, vals))
    elif n == 0:
        ctx.require(xs == [], "no values give %r" % (xs,))
    else:
        check_variables(ctx, xs, vals, kind_of(order, n))
    ctx.nontrivial = n >= 2


@prop("C21", 2, "two or more variables")
def class_variables(src, ctx):
    k = pick_kind(src)
    n = k.n(src, 12)
    vals = [any_float(src) for _ in range(n)]
    what = src.range(0, 6)
    ctx.label(["variables", "variables", "variable", "constant", "zero", "construction", "attributes"][what])
    ctx.log("%s n=%d %s %s" % (k.name, n, what, vals))
    zeros = [0.0] * length(n, k.order)
    if what <= 1:
        arg = [list, tuple, np.array][src.range(0, 2)](vals)
        xs = k.cls.variables(arg) if src.chance(70) else k.cls.variables(values=arg)
        check_variables(ctx, xs, vals, k)
        if not k.dynamic:
            m = src.range(0, 20)
            if m != n:
                ctx.require(throws(k.cls.variables, [1.0] * m), "%d values accepted" % m)
    elif what == 2:
        i = src.range(-2, n + 2)
        f = any_float(src)
        if k.dynamic:
            ways = [lambda: k.cls.variable(i, f, n), lambda: k.cls.variable(i=i, f=f, size=n)]
        else:
            ways = [lambda: k.cls.variable(i, f, n), lambda: k.cls.variable(i, f), lambda: k.cls.variable(i=i, f=f)]
        w = src.pick(ways)
        if not 0 <= i < n:
            ctx.require(throws(w), "variable %d of %d accepted" % (i, n))
        else:
            zeros[0], zeros[1 + i] = f, 1.0
            exact(ctx, w(), zeros, k, n, "variable")
    elif what == 3:
        f = any_float(src)
        zeros[0] = f
        ways = [lambda: k.cls.constant(f, n), lambda: k.cls.constant(f=f, size=n), lambda: k.cls(f, n), lambda: k.cls(f=f, size=n)]
        if not k.dynamic or n == 0:
            ways += [lambda: k.cls.constant(f), lambda: k.cls.constant(f=f), lambda: k.cls(f), lambda: k.cls(f=f)]
        exact(ctx, src.pick(ways)(), zeros, k, n, "constant")
    elif what == 4:
        ways = [lambda: k.cls.zero(n), lambda: k.cls.zero(size=n), lambda: k.cls(size=n)]
        if not k.dynamic or n == 0:
            ways += [lambda: k.cls.zero(), lambda: k.cls()]
        exact(ctx, src.pick(ways)(), zeros, k, n, "zero")
    elif what == 5:
        d = wild_data(src, n, k.order)
        g = d[1:1 + n]
        if k.order == 1:
            ways = [lambda: k.cls(d), lambda: k.cls(data=d), lambda: k.cls(np.array(d)), lambda: k.cls(d[0], g), lambda: k.cls(f=d[0], g=np.array(g))]
        else:
            H = np.zeros((n, n))
            H[np.triu_indices(n)] = d[1 + n:]
            F = np.where(np.tri(n, dtype=bool), H.T, H)
            ways = [lambda: k.cls(d), lambda: k.cls(data=d), lambda: k.cls(np.array(d)), lambda: k.cls(d[0], np.array(g), F), lambda: k.cls(f=d[0], g=np.array(g), hm=H), lambda: k.cls(d[0], np.array(g), np.asfortranarray(F))]
        exact(ctx, src.pick(ways)(), d, k, n, "number")
        if k.order == 2:
            x = k.cls(d)
            for i in range(n):
                for j in range(n):
                    ctx.require(same_bits(x.h(i, j), F[i, j]), "h(%d, %d)" % (i, j))
    else:
        x = k.cls([1.0] * length(n, k.order))
        for o in (k.cls, x):
            ctx.require(o.order == k.order and o.is_dynamic == k.dynamic, "order or is_dynamic")
        ctx.require(x.size == n, "size")
        e = k.cls.empty(n) if k.dynamic or src.chance(50) else k.cls.empty()
        ctx.require(type(e) is k.cls and e.size == n and len(e.data) == length(n, k.order), "empty")
    ctx.nontrivial = n >= 2


@prop("C21", 4, "two or more elements with derivatives")
def extraction(src, ctx):
    k = pick_array_kind(src)
    n = k.n(src, 5)
    shape = pick_shape(src)
    m = int(np.prod(shape, dtype=int))
    form = src.range(0, 5)
    cells, ds = np.empty(m, dtype=object), []
    for i in range(m):
        ds.append(gen_data(src, n, k.order, any_float(src)))
        cells[i] = k.make(ds[i])
    A = cells.reshape(shape)
    D = np.array(ds, dtype=float).reshape(m, -1) if m else np.zeros((0, length(n, k.order)))
    what = src.range(0, 2)
    name = ["f", "d", "dd"][what]
    ctx.log("%s of %s n=%d shape %s form %d: %s" % (name, k.name, n, shape, form, "; ".join(map(brief, ds))))
    arg = A
    if form == 1 and (m or not shape):
        arg = A.tolist() if shape != () else A[()]
    elif form == 2 and m and shape != ():
        arg = tuple(A)
    elif form == 3 and A.ndim == 2:
        arg = np.asfortranarray(A)
    if form == 4:  # plain values only
        P = np.array([d[0] for d in ds]).reshape(shape)
        arg = P if src.chance(50) or not m else P.tolist()
        ctx.label(name + " of plain values")
        if what == 0:
            ctx.require(np.array_equal(hj.f(arg), P, equal_nan=True) and np.shape(hj.f(arg)) == shape, "f of plain values")
        elif m:
            have = (hj.d if what == 1 else hj.dd)(arg)
            ctx.require(have.shape == shape + (0,) * what, "shape %s" % (have.shape,))
        return
    if form == 5 and what == 0:  # mixture
        flat = A.reshape(-1).copy()
        for i in range(m):
            if src.chance(40):
                flat[i] = ds[i][0] if src.chance(50) else np.float64(ds[i][0])
        arg = flat.reshape(shape)
        ctx.label("mixture")
    ctx.label("%s %d-d" % (name, len(shape)))
    if what == 0:
        have, want = hj.f(arg), D[:, 0].reshape(shape)
    elif m == 0:
        ctx.discard()
    elif what == 1:
        have, want = hj.d(arg), D[:, 1:1 + n].reshape(shape + (n,))
    else:
        s = n if k.order == 2 else 0
        want = np.zeros((m, s, s))
        if k.order == 2:
            for q in range(m):
                H = np.zeros((n, n))
                H[np.triu_indices(n)] = D[q, 1 + n:]
                want[q] = np.where(np.tri(n, dtype=bool), H.T, H)
        have, want = hj.dd(arg), want.reshape(shape + (s, s))
    ctx.require(isinstance(have, (np.ndarray, np.floating, float)) and np.asarray(have).dtype == float, "result is %r" % type(have))
    ctx.require(np.shape(have) == want.shape, "shape %s, expected %s" % (np.shape(have), want.shape))
    ctx.require(np.array_equal(have, want, equal_nan=True), "%s gives %s, expected %s" % (name, np.asarray(have).tolist(), want.tolist()))
    # results are copies
    if what and isinstance(have, np.ndarray) and have.size:
        have[...] = 99.0
    for i in range(m):
        exact(ctx, cells[i], ds[i], k, n, "element %d after the call" % i)
    ctx.nontrivial = m >= 2 and n > 0
