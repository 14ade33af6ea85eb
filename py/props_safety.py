"""C22: any call succeeds or raises; nothing is damaged."""
import collections
import copy
import decimal
import fractions
import pickle
import warnings
import numpy as np
import hyperjet as hj
import routes
from hv import *  # noqa: F403

np.seterr(all="ignore")
warnings.simplefilter("ignore")

# no size between 10^5 and 2^61: these would really be allocated
INTS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 15, 16, 17, 21, 33, 100, -1, -2, -3, -17, 2 ** 61, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 2 ** 64 - 1, -2 ** 31, -2 ** 62, -2 ** 63, -2 ** 63 - 1, 10 ** 30, 4814665733036938099, -10 ** 30]
STRINGS = ["", "x", "full", "zeros", "y", "abc", "\u03b1", "nul\0inside", "\ud800", "x" * 300, "Full", "1.5"]


class Raising:
    def __float__(self):
        raise ValueError("float")

    def __index__(self):
        raise KeyError("index")

    def __len__(self):
        raise OSError("len")

    def __getitem__(self, i):
        raise IndexError("item")


class Sequence:
    def __init__(self, length, items):
        self.length, self.items = length, items

    def __len__(self):
        return self.length

    def __getitem__(self, i):
        if i < len(self.items):
            return self.items[i]
        raise IndexError(i)


class Floaty:
    def __float__(self):
        return 2.5

    def __index__(self):
        return 1


class Odd:
    def __float__(self):
        return "no float"

    def __array__(self, *a, **k):
        raise RuntimeError("array")


class OwnFloat(float):
    pass


class OwnList(list):
    pass


TAME = False  # C28: only arguments for which Python and numpy themselves lose no memory


def tame(src, pool, n, depth):
    k = src.range(0, 13)
    if k <= 2:
        return small(src) if src.chance(60) else any_float(src)
    if k <= 4:
        return src.pick([n, n - 1, n + 1, 0, 1]) if src.chance(70) else src.pick(INTS)
    if k <= 7:
        return src.pick(pool)[0] if pool else None
    if k == 8:
        return src.pick(STRINGS[:6])
    if k == 9:
        return src.pick([list, tuple, np.array])([1.0 + i for i in range(max(1, src.pick([n, n + 1, length(n, 1), length(n, 2), 1, 3])))])
    if k == 10:
        m = src.pick([max(1, n), n + 1])
        return np.full((m, src.pick([m, m, m + 1])), 1.5)
    if k == 11:
        return {src.pick(["x", "y", "z", 1, None, ""]): src.pick([1.0, 2, "a", None]) for _ in range(src.range(0, 3))}
    if k == 12:
        return src.pick([None, Raising(), Floaty(), OwnFloat(1.5), True, 1j, Sequence(3, [1.0, 2.0, 3.0]), Sequence(n, [1.0] * n), Sequence(3, [1.0])])
    return [tame(src, pool, n, depth + 1) for _ in range(src.range(0, 4))] if depth < 2 else None


def weird(src, pool, n, depth=0):
    """any argument; n: the size of the number at hand"""
    if TAME:
        return tame(src, pool, n, depth)
    k = src.range(0, 23)
    if k <= 3:
        return small(src) if src.chance(60) else any_float(src)
    if k <= 6:
        return src.pick([n, n - 1, n + 1, 0, 1]) if src.chance(50) else src.pick(INTS)
    if k <= 9:
        return src.pick(pool)[0] if pool else None
    if k == 10:
        return src.pick(STRINGS)
    if k == 11:
        return src.pick([None, True, False, 1j, complex(1, 2), b"bytes", bytearray(3), object(), type, len, Ellipsis, NotImplemented, ValueError("x"), range(3), slice(1, 2), frozenset([1.0]), memoryview(b"ab"), decimal.Decimal("1.5"), fractions.Fraction(1, 3), collections.OrderedDict(x=1.0)])
    if k <= 14:
        m = src.pick([n, n + 1, length(n, 1), length(n, 2)]) if src.chance(60) else src.range(0, 12) if src.chance(80) else src.range(0, 170)
        v = [1.0 + i for i in range(max(0, m))]
        return src.pick([list, tuple, np.array, OwnList, collections.deque])(v)
    if k <= 16:
        shape = src.pick([(n, n), (n, n), (n,), (n, n + 1), (n + 1, n), (1, n), (n, 1), (0,), (), (2, 2, 2), (0, 0), (n * n,), (2 * n, n)])
        a = np.arange(float(np.prod(shape))).reshape(shape)
        w = src.range(0, 9)
        if w == 0:
            a = np.asfortranarray(a)
        elif w == 1:
            a = a.astype(src.pick([np.float32, np.int64, np.int8, bool, complex, object, "U4", np.float16, ">f8"]))
        elif w == 2:
            a = a.T
        elif w == 3 and a.ndim:
            a = a[::-1]
        elif w == 4 and a.ndim:
            a = np.repeat(a, 2, axis=0)[::2]
        elif w == 5:
            a.flags.writeable = False
        elif w == 6:
            a = np.broadcast_to(np.float64(2.0), shape)
        elif w == 7 and a.size:
            a.flat[0] = src.pick(EXTREME)
        return a
    if k == 17:
        return {src.pick(["x", "y", "z", 1, None, ""]): src.pick([1.0, 2, "a", None, [1.0]]) for _ in range(src.range(0, 3))}
    if k == 18:
        return src.pick([Raising(), Odd(), Floaty(), OwnFloat(1.5), Sequence(3, [1.0, 2.0, 3.0]), Sequence(3, [1.0]), Sequence(-1, []), Sequence(2 ** 62, [1.0]), Sequence(0, [1.0, 2.0]), Sequence(n, [1.0] * n), Sequence(length(n, 2), [1.0] * length(n, 2))])
    if k == 19 and depth < 2:
        return [weird(src, pool, n, depth + 1) for _ in range(src.range(0, 4))]
    if k == 20 and depth < 2:
        v = [weird(src, pool, n, depth + 1) for _ in range(src.range(0, 4))]
        a = np.empty(len(v), dtype=object)
        for i, x in enumerate(v):
            a[i] = x
        return a
    if k == 21:
        return [[1.0, 2.0], (3.0, [4.0])]
    if k == 22:
        return src.pick(KINDS).cls
    if k == 23:
        return (x for x in [1.0, 2.0])
    return 1.0


METHODS = ["abs", "eval", "h", "set_h", "hm", "set_hm", "resize", "pad_right", "pad_left", "reciprocal", "sqrt", "cbrt", "cos", "sin", "tan", "acos", "asin", "atan", "atan2", "arccos", "arcsin", "arctan", "arctan2", "hypot", "cosh", "sinh", "tanh", "acosh", "arccosh",
           "asinh", "arcsinh", "atanh", "arctanh", "exp", "log", "log2", "log10", "d", "__abs__", "__len__", "__pow__", "__repr__", "__copy__", "__deepcopy__", "__getstate__", "__setstate__", "__reduce_ex__", "__reduce__", "__init__", "__add__", "__radd__", "__iadd__", "__sub__",
           "__rsub__", "__isub__", "__mul__", "__rmul__", "__imul__", "__truediv__", "__rtruediv__", "__itruediv__", "__neg__", "__eq__", "__ne__", "__lt__", "__gt__", "__le__", "__ge__", "__hash__", "__str__", "__format__", "__sizeof__", "__dir__"]
USUAL = {"eval": 1, "h": 2, "set_h": 3, "hm": 1, "set_hm": 1, "resize": 1, "pad_right": 1, "pad_left": 1, "atan2": 1, "arctan2": 1, "hypot": 2, "log": 1, "d": 1, "__pow__": 1, "__deepcopy__": 1, "__setstate__": 1, "__reduce_ex__": 1, "__init__": 2, "__format__": 1}
for _m in METHODS[METHODS.index("__add__"):METHODS.index("__hash__")]:
    USUAL[_m] = 0 if _m == "__neg__" else 1
MUTATORS = {"set_h", "set_hm", "resize", "__iadd__", "__isub__", "__imul__", "__itruediv__", "__setstate__", "__init__"}
STATIC = ["constant", "empty", "variable", "variables", "zero", "hypot"]
NAMES = {"eval": ["d"], "h": ["row", "col"], "set_h": ["row", "col", "value"], "hm": ["mode"], "set_hm": ["value"], "resize": ["size"], "pad_right": ["new_size"], "pad_left": ["new_size"], "log": ["base"], "d": ["variable"], "constant": ["f", "size", "value"], "empty": ["size"],
         "variable": ["i", "f", "size", "name", "value"], "variables": ["values", "order"], "zero": ["size"], "new": ["f", "g", "hm", "data", "size", "d"]}
BUILTIN = [("len", len), ("bool", bool), ("hash", hash), ("str", str), ("repr", repr), ("float", float), ("int", int), ("list", list), ("abs", abs), ("iter", iter), ("dir", dir), ("sorted", lambda x: sorted([x, x])), ("round", round), ("divmod", lambda x: divmod(x, 2)), ("x[0]", lambda x: x[0]), ("x in x", lambda x: x in x),
           ("del x.f", lambda x: delattr(x, "f")), ("x.unknown", lambda x: x.unknown), ("x.new = 1", lambda x: setattr(x, "new", 1)), ("copy", copy.copy), ("deepcopy", copy.deepcopy), ("pickle", lambda x: pickle.loads(pickle.dumps(x, 0))), ("pickle 4", lambda x: pickle.loads(pickle.dumps(x, 4))), ("vars", vars),
           ("format", lambda x: format(x, ".3f")), ("pow3", lambda x: pow(x, 2, 3)), ("~x", lambda x: ~x), ("+x", lambda x: +x), ("-x", lambda x: -x), ("x.size = 3", lambda x: setattr(x, "size", 3)), ("x.g = 1", lambda x: setattr(x, "g", 1.0)), ("x.data = []", lambda x: setattr(x, "data", [])), ("bytes", bytes),
           ("np.array", np.array), ("np.asarray float", lambda x: np.asarray(x, dtype=float)), ("sum", lambda x: sum([x, x, x])), ("hj.f", hj.f), ("hj.d", hj.d), ("hj.dd", hj.dd), ("max", lambda x: max(x, x)), ("weakref", lambda x: __import__("weakref").ref(x)), ("x.order", lambda x: x.order), ("x.is_dynamic", lambda x: x.is_dynamic)]
NP = ["sin", "sqrt", "arctan2", "hypot", "add", "multiply", "power", "exp", "maximum", "sum", "dot", "matmul", "mean", "log", "absolute", "equal", "divide", "prod", "cross", "outer", "where", "isnan", "floor", "cumsum", "vectorize", "sort", "linspace", "cbrt", "reciprocal", "square"]
OPS = [("+", routes.plus), ("-", routes.minus), ("*", routes.times), ("/", routes.over), ("**", lambda a, b: a ** b), ("//", lambda a, b: a // b), ("%", lambda a, b: a % b), ("@", lambda a, b: a @ b), ("&", lambda a, b: a & b), ("<<", lambda a, b: a << b)] + list(routes.CMP.items())


class Own(hj.DDScalar):
    """a user's class"""
    note = 1


def brief_arg(a):
    try:
        r = repr(a)
    except Exception:
        r = "?"
    return (r if len(r) < 90 else r[:90] + "...").encode("ascii", "backslashreplace").decode() + (" (%s)" % type(a).__name__ if not isinstance(a, (int, float, str)) else "")


def kind_name(x):
    return type(x).__name__


def is_number(x):
    return hasattr(type(x), "is_dynamic") and isinstance(x, tuple(k.cls for k in KINDS))


KIND_OF = {k.cls: k for k in KINDS}


def shape_of(x):
    for c in type(x).__mro__:
        if c in KIND_OF:
            return KIND_OF[c]
    return None


class Entry(list):
    """[object, data of it or None]"""


def snapshot(x):
    return data_of(x) if is_number(x) else [x.f] + [x.d(n) for n in ("x", "y", "z")] + [float(x.size)] if isinstance(x, hj.SScalar) else None


def consistent(ctx, x, what):
    if is_number(x):
        k = shape_of(x)
        n = x.size
        a, g = x.data, x.g
        ctx.require(n >= 0 and (k.dynamic or n == k.size), "%s: a %s of size %d" % (what, k.name, n))
        ctx.require(a.size == length(n, k.order) and g.size == n and len(x) == n, "%s: a %s of size %d has %d entries and a gradient of %d" % (what, k.name, n, a.size, g.size))
        ctx.require(memory_ok(a) and memory_ok(g), "%s: the data of a %s is not in its own memory" % (what, k.name))
        ctx.require(same_bits(x.f, float(a[0])), what + ": value and data differ")
    elif isinstance(x, hj.SScalar):
        ctx.require(x.size >= 0 and len(x) == x.size, what + ": sparse size")
        x.d("x")


def call(src, ctx, pool, viewed):
    """one call; returns (text, target or None, function)"""
    x = src.pick([e for e in pool if e[1] is not None])[0]
    n = x.size if is_number(x) else 3
    kind = src.range(0, 15)

    def args(name, usual):
        m = usual if src.chance(70) else src.range(0, 5)
        a = [weird(src, pool, n) for _ in range(m)]
        kw = {}
        if name in NAMES and src.chance(20):
            kw = {src.pick(NAMES[name]): a.pop() if a else weird(src, pool, n)}
        if src.chance(3):
            kw["unknown"] = 1
        return a, kw

    def text(who, a, kw):
        return "%s(%s)" % (who, ", ".join([brief_arg(q) for q in a] + ["%s=%s" % (p, brief_arg(q)) for p, q in kw.items()]))
    if kind <= 5:
        name = src.pick(METHODS)
        if name == "resize" and id(x) in viewed:
            name = "pad_right"
        a, kw = args(name, USUAL.get(name, 0))
        if name == "resize" and any(id(q) in viewed for q in a if is_number(q)):
            a = [5]
        via = src.range(0, 5)
        if via == 0:  # through the class of another number: a wrong self
            c = type(src.pick([e for e in pool if e[1] is not None])[0]) if src.chance(60) else src.pick(KINDS).cls
            a = ([x] if src.chance(70) else [weird(src, pool, n)]) + a
            if a[0] is None:  # the known finding
                a[0] = 1.5
            if name in ("resize", "__setstate__", "__init__") and (not a or id(a[0]) in viewed or isinstance(a[0], type) or name == "__init__"):
                name = "sin"
            return text("%s.%s" % (c.__name__, name), a, kw), (a[0] if a else None) if name in MUTATORS else None, lambda: getattr(c, name)(*a, **kw)
        return text("%s %s .%s" % (kind_name(x), brief_arg(x), name), a, kw), x if name in MUTATORS else None, lambda: getattr(x, name)(*a, **kw)
    if kind <= 7:
        c = type(x) if src.chance(50) else src.pick(KINDS).cls if src.chance(85) else src.pick([hj.SScalar, Own])
        if src.chance(50):
            name = src.pick(STATIC)
            a, kw = args(name, {"constant": 2, "empty": 1, "variable": 3, "variables": 1, "zero": 1, "hypot": 3}[name])
            return text("%s.%s" % (c.__name__, name), a, kw), None, lambda: getattr(c, name)(*a, **kw)
        a, kw = args("new", src.range(0, 3))
        return text(c.__name__, a, kw), None, lambda: c(*a, **kw)
    if kind <= 9:
        y = weird(src, pool, n)
        name, f = src.pick(OPS)
        if src.chance(50):
            return "%s %s %s" % (brief_arg(x), name, brief_arg(y)), None, lambda: f(x, y)
        return "%s %s %s" % (brief_arg(y), name, brief_arg(x)), None, lambda: f(y, x)
    if kind == 10:
        y = weird(src, pool, n)
        op = src.pick(BIN[:4])
        return "%s %s= %s" % (brief_arg(x), op, brief_arg(y)), x, lambda: routes.inplace(op, x, y)
    if kind == 11:
        name, f = src.pick(BUILTIN)
        return "%s of %s %s" % (name, kind_name(x), brief_arg(x)), None, lambda: f(x)
    if kind == 12:
        y = weird(src, pool, n)
        return "%s.f = %s" % (brief_arg(x), brief_arg(y)), x, lambda: setattr(x, "f", y)
    if kind == 13 and TAME:
        name = src.pick(["sin", "exp", "add", "multiply", "sqrt"])
        f, v = getattr(np, name), [x, x] if src.chance(60) else [x, tame(src, pool, n, 1)]
        v = (np.array(v, dtype=object), x)[:f.nin]
        return "np.%s of arrays of %s" % (name, kind_name(x)), None, lambda: f(*v)
    if kind == 13:
        name = src.pick(NP)
        a = [x if src.chance(40) else weird(src, pool, n) for _ in range(src.range(1, 3))]
        if not any(q is x for q in a[:2]):
            a[src.range(0, min(1, len(a) - 1))] = x
        f = getattr(np, name)
        a = a[:f.nin if isinstance(f, np.ufunc) else 2 if name in ("linspace", "dot", "outer") else 3]  # no output argument
        return text("np." + name, a, {}), None, lambda: getattr(np, name)(*a)
    if kind == 14:
        name = src.pick(["variables", "f", "d", "dd", "hypot"])
        a, kw = args(name, {"variables": 2, "hypot": 2}.get(name, 1))
        return text("hj." + name, a, kw), None, lambda: getattr(hj, name)(*a, **kw)
    # views of numbers as arguments of later calls
    if is_number(x):
        viewed[id(x)] = x
        return "view of %s %s" % (kind_name(x), brief_arg(x)), None, (lambda: x.g) if src.chance(50) else lambda: x.data
    return "size of %s" % brief_arg(x), None, lambda: x.size


@prop("C22", 1, "four or more calls, with at least one that succeeds and one that raises", 300)
def calls(src, ctx):
    pool = []
    for _ in range(src.range(1, 4)):
        k = src.range(0, 9)
        if k == 0:
            x = hj.SScalar(small(src), {"x": 1.0, "y": 2.0})
        elif k == 1:
            x = Own([float(i + 1) for i in range(length(src.range(0, 4), 2))])
        else:
            kd = pick_kind(src)
            x = kd.make(gen_data(src, kd.n(src, 5), kd.order, small(src)))
        pool.append(Entry([x, snapshot(x)]))
    ctx.log("pool: " + ", ".join("%s of size %d" % (kind_name(e[0]), e[0].size) for e in pool))
    viewed, extra = {}, []
    good = bad = 0
    for _ in range(src.range(2, 24)):
        if src.exhausted():
            break
        # all objects that may be arguments; arrays from earlier calls among them
        what, target, f = call(src, ctx, pool, viewed)
        ctx.log(what)
        try:
            r = f()
            ok = True
            good += 1
        except (Violation, Discard):
            raise
        except SystemError as err:
            if not what.startswith("np."):  # numpy itself does so for ragged arguments
                ctx.fail("%s ends with %r" % (what, err))
            r, ok = None, False
            bad += 1
        except Exception as err:
            r, ok = None, False
            bad += 1
            ctx.desc[-1] += "  raises " + type(err).__name__
        for e in pool:
            x = e[0]
            if e[1] is None:
                if isinstance(x, np.ndarray):
                    ctx.require(memory_ok(x), "after %s: a view refers to memory that is not its own" % what)
                continue
            consistent(ctx, x, "after " + what)
            now = snapshot(x)
            if not (ok and x is target):
                ctx.require(len(now) == len(e[1]) and all(same_bits(p, q) for p, q in zip(now, e[1])),
                            "%s%s changed a %s: %s, before %s" % (what, "" if ok else ", which raised an exception,", kind_name(x), brief(now), brief(e[1])))
            e[1] = now
        if ok and len(pool) < 9:
            if is_number(r) or isinstance(r, hj.SScalar):
                consistent(ctx, r, "result of " + what)
                if not any(e[0] is r for e in pool):
                    pool.append(Entry([r, snapshot(r)]))
            elif isinstance(r, (list, tuple)) and r and is_number(r[0]):
                for q in r:
                    if is_number(q):
                        consistent(ctx, q, "result of " + what)
                pool.append(Entry([r[-1], snapshot(r[-1])]))
                del r
            elif isinstance(r, np.ndarray) and r.dtype == float and r.ndim == 1:
                if what.startswith("view"):
                    pool.append(Entry([r, None]))
        # numbers from arrays of results
        elif ok and is_number(r):
            consistent(ctx, r, "result of " + what)
    ctx.label("calls that succeed", good)
    ctx.label("calls that raise", bad)
    ctx.nontrivial = good >= 1 and bad >= 1 and good + bad >= 4
