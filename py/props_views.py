"""C23: live views and accessors."""
import copy
import gc
import pickle
import numpy as np
import hyperjet as hj
import routes
from hv import *  # noqa: F403

np.seterr(all="ignore")


class Num:
    """a number and what its data should be"""

    def __init__(self, x, m, k, n, name):
        self.x, self.m, self.k, self.n, self.name = x, m, k, n, name

    def at(self, i, j):
        """position of a second derivative in the data"""
        if i > j:
            i, j = j, i
        return 1 + self.n + i * self.n - i * (i - 1) // 2 + (j - i)

    def hessian(self, mode="full"):
        H = np.zeros((self.n, self.n))
        for i in range(self.n):
            for j in range(i, self.n):
                H[i, j] = self.m[self.at(i, j)]
                if mode == "full":
                    H[j, i] = H[i, j]
        return H


class View:
    """a view, with the positions of its elements in the data of its number"""

    def __init__(self, a, pos, num, name):
        self.a, self.pos, self.num, self.name = a, pos, num, name


def value(src):
    return any_float(src) if src.chance(10) else small(src)


def eq(a, b):
    return all(same_bits(p, q) for p, q in zip(a, b))


def check_state(ctx, nums, views, what):
    for v in views:
        ctx.require(memory_ok(v.a), "%s: view %s of %s refers to memory that is not its own" % (what, v.name, v.num.name))
        have = v.a.ravel().tolist()
        want = [v.num.m[p] for p in v.pos.ravel()]
        ctx.require(len(have) == len(want) and eq(have, want), "%s: view %s of %s shows %s, expected %s" % (what, v.name, v.num.name, brief(have), brief(want)))
    for u in nums:
        if u.x is None:
            continue
        x, n = u.x, u.n
        have = data_of(x)
        ctx.require(len(have) == len(u.m) and eq(have, u.m), "%s: %s has data %s, expected %s" % (what, u.name, brief(have), brief(u.m)))
        ctx.require(same_bits(x.f, u.m[0]), "%s: %s.f is %r, expected %r" % (what, u.name, x.f, u.m[0]))
        ctx.require(eq(x.g.tolist(), u.m[1:1 + n]) and len(x.g) == n and x.size == n, "%s: %s.g is %s, expected %s" % (what, u.name, brief(x.g), brief(u.m[1:1 + n])))


def setting(src, u, H):
    """a form in which the matrix H may be given"""
    k = src.range(0, 5)
    if k == 0:
        return np.asfortranarray(H)
    if k == 1 and u.n:
        return H.tolist()
    if k == 2:
        b = np.zeros((2 * u.n, 3 * u.n))
        b[::2, ::3] = H
        return b[::2, ::3]
    if k == 3:
        return H.T.copy().T
    return H.copy()


def step(src, ctx, nums, views, dead):
    act = src.range(0, 15)
    u = src.pick(nums)
    x, n, k = u.x, u.n, u.k
    if act <= 2:
        which = src.range(0, 1)
        if which == 0:
            a, pos = x.data, np.arange(len(u.m))
        else:
            a, pos = x.g, np.arange(1, 1 + n)
        ctx.require(isinstance(a, np.ndarray) and a.dtype == float and a.ndim == 1 and a.size == pos.size, "%s is %r" % (["data", "g"][which], a))
        ctx.require(a.flags.writeable, "the view is read-only")
        name = "%s.%s" % (u.name, ["data", "g"][which])
        w = src.range(0, 5)
        if w == 0 and a.size:
            a, pos, name = a[::-1], pos[::-1], name + "[::-1]"
        elif w == 1 and a.size:
            i = src.range(0, a.size - 1)
            a, pos, name = a[i:], pos[i:], name + "[%d:]" % i
        elif w == 2 and a.size % 2 == 0:
            a, pos, name = a.reshape(2, -1), pos.reshape(2, -1), name + ".reshape(2, -1)"
        elif w == 3:
            a, pos, name = a[::2], pos[::2], name + "[::2]"
        views.append(View(a, pos, u, name))
        ctx.label("view of " + ["data", "g"][which])
        return "take " + name
    if act <= 5:
        if not views:
            return None
        v = src.pick(views)
        if v.a.size == 0:
            return None
        m = v.num.m
        w = src.range(0, 4)
        ctx.label("write through a view" + (" of a deleted number" if v.num.x is None else ""))
        if w == 0:
            i = src.range(0, v.a.size - 1)
            val = value(src)
            ix = np.unravel_index(i, v.a.shape)
            v.a[ix] = val
            m[v.pos[ix]] = val
            return "%s%s = %r" % (v.name, list(map(int, ix)), val)
        if w == 1:
            val = value(src)
            v.a[...] = val
            for p in v.pos.ravel():
                m[p] = val
            return "%s[...] = %r" % (v.name, val)
        if w == 2:
            vals = np.array([small(src) for _ in range(v.a.size)]).reshape(v.a.shape)
            v.a[...] = vals
            for p, q in zip(v.pos.ravel(), vals.ravel()):
                m[p] = float(q)
            return "%s[...] = %s" % (v.name, vals.tolist())
        if w == 3:
            v.a *= 2.0
            for p in v.pos.ravel():
                m[p] *= 2.0
            return "%s *= 2" % v.name
        v.a.fill(0.5)
        for p in v.pos.ravel():
            m[p] = 0.5
        return "%s.fill(0.5)" % v.name
    if act == 6:
        val = value(src)
        x.f = val
        u.m[0] = val
        ctx.label("set f")
        return "%s.f = %r" % (u.name, val)
    if act <= 8 and k.order == 2 and n:
        i, j = src.range(0, n - 1), src.range(0, n - 1)
        val = value(src)
        if src.chance(50):
            x.set_h(i, j, val)
        else:
            x.set_h(row=i, col=j, value=val)
        u.m[u.at(i, j)] = val
        ctx.label("set_h " + ("diagonal" if i == j else "upper" if i < j else "lower"))
        ctx.require(same_bits(x.h(i, j), val) and same_bits(x.h(row=j, col=i), val), "h after set_h(%d, %d)" % (i, j))
        return "%s.set_h(%d, %d, %r)" % (u.name, i, j, val)
    if act == 9 and k.order == 2:
        H = np.array([value(src) if q < 8 else q / 4 for q in range(n * n)]).reshape(n, n)
        up = np.triu_indices(n)
        S = np.where(np.tri(n, dtype=bool), H.T, H) if src.chance(60) else np.triu(H)
        x.set_hm(setting(src, u, S)) if src.chance(70) else x.set_hm(value=S)
        u.m[1 + n:] = [float(q) for q in H[up]]
        ctx.label("set_hm")
        return "%s.set_hm(%s)" % (u.name, S.tolist())
    if act == 10 and k.order == 2:
        mode = src.pick(["full", "zeros", None])
        H = x.hm() if mode is None else x.hm(mode) if src.chance(50) else x.hm(mode=mode)
        want = u.hessian(mode or "full")
        ctx.require(isinstance(H, np.ndarray) and H.shape == (n, n), "hm has shape %s" % (np.shape(H),))
        ctx.require(eq(H.ravel().tolist(), want.ravel().tolist()), "hm(%s) of %s is %s, expected %s" % (mode, u.name, H.tolist(), want.tolist()))
        for i in range(n):
            for j in range(n):
                ctx.require(same_bits(x.h(i, j), u.m[u.at(i, j)]), "h(%d, %d) of %s" % (i, j, u.name))
        H[...] = 123.0  # an independent matrix
        ctx.label("hm")
        return "%s.hm(%s)" % (u.name, mode)
    if act == 11:
        bad = [lambda: setattr(x, "f", "text"), lambda: setattr(x, "f", None), lambda: setattr(x, "g", np.zeros(n)), lambda: setattr(x, "data", np.zeros(len(u.m))), lambda: setattr(x, "size", 3), lambda: setattr(x, "f", [1.0, 2.0])]
        if k.order == 2:
            far = src.pick([n, -1, n + 5, -n - 1, 2 ** 31, -2 ** 31, 2 ** 62, 2 ** 64])
            bad += [lambda: x.set_h(far, 0, 1.0), lambda: x.set_h(0, far, 1.0), lambda: x.h(far, 0), lambda: x.h(0, far), lambda: x.set_hm(np.zeros((n + 1, n + 1))), lambda: x.set_hm(np.zeros((n, n + 1))), lambda: x.set_hm(np.zeros((n + 2, n))),
                    lambda: x.hm("other"), lambda: x.hm(""), lambda: x.set_h(0.5, 0, 1.0), lambda: x.set_hm(None), lambda: x.set_hm("text"), lambda: x.hm(5)]
        i = src.range(0, len(bad) - 1)
        ctx.require(throws(bad[i]), "invalid access %d on %s is accepted" % (i, u.name))
        ctx.label("invalid access")
        return "invalid access %d on %s" % (i, u.name)
    if act == 12:
        w = src.pick(nums)
        if w.k is not k or w.n != n:
            w = u
        op = src.pick(BIN[:4])
        ru, rw = Ref.of(u.m, n, k.order), Ref.of(w.m, n, k.order)
        if not all(map(math.isfinite, u.m + w.m)) or max(map(abs, u.m + w.m)) > 1e9 or (op == "/" and abs(rw.f) < 0.02):
            return None
        want = ru.bin(op, rw)
        if not want.fits():
            return None
        r = routes.inplace(op, x, w.x)
        ctx.require(r is x, "%s= gives another object" % op)
        check(ctx, r, want, k, "%s %s= %s" % (u.name, op, w.name))
        u.m[:] = data_of(x)
        ctx.label("in place")
        return "%s %s= %s" % (u.name, op, w.name)
    if act == 13:
        y = [lambda: copy.copy(x), lambda: copy.deepcopy(x), lambda: pickle.loads(pickle.dumps(x)), lambda: k.make(x.data), lambda: k.cls(x.data)][src.range(0, 4)]()
        if len(nums) < 6:
            nums.append(Num(y, list(u.m), k, n, "n%d" % (len(nums) + len(dead))))
            ctx.label("copy")
            return "%s = copy of %s" % (nums[-1].name, u.name)
        return None
    if act == 14:
        if len(nums) < 2:
            return None
        nums.remove(u)
        dead.append(u)
        u.x = None
        del x
        if src.chance(30):
            gc.collect()
        junk = [k.make([7.0] * len(u.m)) for _ in range(4)]
        del junk
        held = any(v.num is u for v in views)
        ctx.label("delete" + (" with live views" if held else ""))
        return "del " + u.name
    if act == 15:
        # results of operations see what was written through views
        if not all(map(math.isfinite, u.m)) or max(map(abs, u.m)) > 1e6:
            return None
        r = x * x + 1.0
        ru = Ref.of(u.m, n, k.order)
        check(ctx, r, ru.bin("*", ru).ds("+", 1.0), k, "%s * %s + 1" % (u.name, u.name))
        ctx.label("use")
        return "%s * %s + 1" % (u.name, u.name)
    return None


@prop("C23", 1, "a write through a view or an accessor and three or more steps", 260)
def views(src, ctx):
    k = pick_kind(src)
    n = k.n(src, 6)
    nums = []
    for i in range(src.range(1, 3)):
        d = gen_data(src, n, k.order, small(src))
        nums.append(Num(k.make(d), list(d), k, n, "n%d" % i))
        ctx.log("n%d: %s %s" % (i, k.name, brief(d)))
    vs, dead = [], []
    done = writes = 0
    for _ in range(src.range(4, 30)):
        if src.exhausted():
            break
        what = step(src, ctx, nums, vs, dead)
        if what is None:
            continue
        ctx.log(what)
        done += 1
        writes += "=" in what or "set_" in what
        check_state(ctx, nums, vs, "after " + what)
        if len(vs) > 6:
            del vs[src.range(0, 5)]
    # the views outlive the numbers
    for u in nums:
        u.x = None
    junk = [np.full(len(u.m), 3.0) for u in nums for _ in range(3)]
    check_state(ctx, [], vs, "after the numbers were deleted")
    for v in vs:
        if v.a.size:
            v.a.flat[0] = 1.25
            v.num.m[v.pos.flat[0]] = 1.25
    check_state(ctx, [], vs, "after a write to the views that were left")
    del junk
    ctx.nontrivial = done >= 3 and writes >= 1
