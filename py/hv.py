"""Core of the Python checks: a property is a function of a sequence of 16 bit choices, which Hypothesis
draws and shrinks, or which is read from a replay file."""
import ctypes
import math
import os
import struct
import sys

sys.path.insert(0, os.environ["HV_MODULE"])
import numpy as np  # noqa: E402
import hyperjet as hj  # noqa: E402


class Violation(Exception):
    pass


class Discard(Exception):
    pass


class Src:
    def __init__(self, choices):
        self.c = choices
        self.pos = 0

    def raw(self):
        p = self.pos
        self.pos = p + 1
        return self.c[p] if p < len(self.c) else 0

    def exhausted(self):
        return self.pos >= len(self.c)

    def range(self, lo, hi):
        return lo + self.raw() % (hi - lo + 1)

    def chance(self, percent):
        return self.raw() % 100 >= 100 - percent

    def pick(self, seq):
        return seq[self.raw() % len(seq)]

    def unit(self):
        return (self.raw() * 65536 + self.raw()) / 4294967296.0

    def bits(self):
        return (self.raw() << 48) | (self.raw() << 32) | (self.raw() << 16) | self.raw()


class Ctx:
    def __init__(self, labels=None):
        self.desc = []
        self.nontrivial = False
        self.labels = labels

    def log(self, s):
        self.desc.append(s)

    def label(self, s, count=1):
        if self.labels is not None:
            self.labels[s] = self.labels.get(s, 0) + count

    def fail(self, s):
        raise Violation(s)

    def require(self, ok, s):
        if not ok:
            raise Violation(s)

    def discard(self):
        raise Discard()


class Prop:
    def __init__(self, id, name, fn, weight, rule, maxlen):
        self.id, self.name, self.fn, self.weight, self.rule, self.maxlen = id, name, fn, weight, rule, maxlen


PROPS = []


def prop(id, weight, rule, maxlen=120):
    def deco(fn):
        PROPS.append(Prop(id, "py_" + fn.__name__, fn, weight, rule, maxlen))
        return fn
    return deco


# ---------------------------------------------------------------- reference
_L = ctypes.CDLL(os.environ["HV_REF"])
_D, _I, _P = ctypes.c_double, ctypes.c_int, ctypes.c_void_p
_DP = ctypes.POINTER(ctypes.c_double)
for _n, _r, _a in [
    ("r_free", None, [_P]), ("r_from", _P, [_DP, _I, _I]), ("r_constant", _P, [_D, _I, _I]), ("r_un", _P, [_I, _P]), ("r_pow", _P, [_P, _D]),
    ("r_log_base", _P, [_P, _D]), ("r_bin", _P, [_I, _P, _P]), ("r_hypot3", _P, [_P, _P, _P]), ("r_bin_ds", _P, [_I, _P, _D]), ("r_bin_sd", _P, [_I, _D, _P]),
    ("r_f", _D, [_P]), ("r_g", _D, [_P, _I]), ("r_eg", _D, [_P, _I]), ("r_ef", _D, [_P]), ("r_in_domain", _I, [_I, _D]), ("r_bin_domain", _I, [_I, _D, _D]), ("r_usable", _I, [_P, _D]), ("r_max", _D, [_P]),
    ("r_compare", ctypes.c_char_p, [_P, _DP, _I]), ("r_eval", None, [_P, _DP, _DP, _DP]), ("r_selftest", ctypes.c_char_p, []),
]:
    getattr(_L, _n).restype = _r
    getattr(_L, _n).argtypes = _a

UN = ["neg", "reciprocal", "sqrt", "cbrt", "cos", "sin", "tan", "acos", "asin", "atan", "cosh", "sinh", "tanh", "acosh", "asinh", "atanh", "exp", "log", "log2", "log10", "abs"]
BIN = ["+", "-", "*", "/", "atan2", "hypot"]
CMP = ["==", "!=", "<", ">", "<=", ">="]


def _arr(v):
    return (_D * max(1, len(v)))(*v)


def length(n, order):
    return 1 + n if order == 1 else (n + 1) * (n + 2) // 2


class Ref:
    """reference number; n variables"""
    __slots__ = ("p", "n", "order")

    def __init__(self, p, n, order):
        self.p, self.n, self.order = p, n, order

    def __del__(self):
        _L.r_free(self.p)

    @staticmethod
    def of(data, n, order):
        assert len(data) == length(n, order)
        return Ref(_L.r_from(_arr(data), n, order), n, order)

    @staticmethod
    def constant(f, n, order):
        return Ref(_L.r_constant(f, n, order), n, order)

    def _new(self, p):
        return Ref(p, self.n, self.order)

    def un(self, op):
        return self._new(_L.r_un(UN.index(op), self.p))

    def pow(self, b):
        return self._new(_L.r_pow(self.p, b))

    def log_base(self, b):
        return self._new(_L.r_log_base(self.p, b))

    def bin(self, op, o):
        return self._new(_L.r_bin(BIN.index(op), self.p, o.p))

    def ds(self, op, s):
        return self._new(_L.r_bin_ds(BIN.index(op), self.p, s))

    def sd(self, op, s):
        return self._new(_L.r_bin_sd(BIN.index(op), s, self.p))

    def hypot3(self, b, c):
        return self._new(_L.r_hypot3(self.p, b.p, c.p))

    @property
    def f(self):
        return _L.r_f(self.p)

    def g(self, i):
        return _L.r_g(self.p, i)

    def eg(self, i):
        return _L.r_eg(self.p, i)

    def ef(self):
        return _L.r_ef(self.p)

    def fits(self, rel=1e-6, limit=1e12):
        return _L.r_max(self.p) < limit and bool(_L.r_usable(self.p, rel))

    def compare(self, data):
        return _L.r_compare(self.p, _arr(data), len(data)).decode()

    def eval(self, d):
        v, e = _D(), _D()
        _L.r_eval(self.p, _arr(d), ctypes.byref(v), ctypes.byref(e))
        return v.value, e.value


def in_domain(op, x):
    return bool(_L.r_in_domain(UN.index(op), x))


def bin_domain(op, a, b):
    return bool(_L.r_bin_domain(BIN.index(op), a, b))


def safe(op, x):
    """well inside the domain"""
    m = 0.02
    if op in ("reciprocal", "cbrt", "abs"):
        return abs(x) > m
    if op in ("sqrt", "log", "log2", "log10"):
        return x > m
    if op in ("acos", "asin", "atanh"):
        return abs(x) < 1 - m
    if op == "acosh":
        return x > 1 + m
    if op in ("cosh", "sinh", "exp", "tanh"):
        return abs(x) < 15
    if op == "tan":
        return abs(math.cos(x)) > m
    return abs(x) < 1e6


# ---------------------------------------------------------------- values
SPECIAL = [1.0, 0.0, 2.0, -1.0, 0.5, -0.5, 3.0, -2.0, -0.0, 10.0, 0.1, -3.0, 1.5, 4.0, 0.25, math.e, math.pi, -math.pi, math.pi / 2, 1e3, -1e3, 1e-3, 1e-8, 1e6, 100.0, -7.0, 5.0, 8.0]
EXTREME = [math.inf, -math.inf, math.nan, 0.0, -0.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 1e-320, 9007199254740993.0]


def small(s):
    k = s.range(0, 4)
    if k == 0:
        return s.pick(SPECIAL)
    if k == 1:
        return float(s.range(-10, 10))
    if k == 2:
        return s.range(-2000, 2000) / 1000
    if k == 3:
        return 20 * s.unit() - 10
    m = 10 ** (8 * s.unit() - 4)
    return -m if s.chance(50) else m


def any_float(s):
    k = s.range(0, 3)
    if k <= 1:
        return small(s)
    if k == 2:
        return s.pick(EXTREME)
    return struct.unpack("<d", struct.pack("<Q", s.bits()))[0]


def argument(s, op):
    """a point safely inside the domain of op"""
    x = small(s)
    if op in ("acos", "asin", "atanh"):
        x = s.range(-97, 97) / 100
    elif op == "acosh":
        x = 1.05 + 10 * s.unit()
    elif op in ("sqrt", "log", "log2", "log10"):
        x = abs(x) + 0.03
    elif op in ("cosh", "sinh", "exp", "tanh"):
        x = math.fmod(x, 14)
    if not safe(op, x):
        x = 1.5 if op == "acosh" else 0.75
    return x


class Kind:
    """an exported class"""

    def __init__(self, name, order, size):
        self.name, self.order, self.size = name, order, size
        self.dynamic = size is None
        self.cls = getattr(hj, name)

    def n(self, s, most=8):
        if not self.dynamic:
            return self.size
        return s.range(0, 3) if s.chance(50) else s.range(0, most) if s.chance(80) else s.range(0, 2 * most + 10)

    def make(self, data):
        return self.cls([float(x) for x in data])


KINDS = [Kind("D%dScalar" % i, 1, i) for i in range(17)] + [Kind("DD%dScalar" % i, 2, i) for i in range(17)] + [Kind("DScalar", 1, None), Kind("DDScalar", 2, None)]
SMALL_KINDS = [k for k in KINDS if k.dynamic or k.size <= 6]


def pick_kind(s):
    k = s.range(0, 5)
    if k <= 1:
        return KINDS[-1 - s.range(0, 1)]
    if k <= 3:
        return s.pick(SMALL_KINDS)
    return s.pick(KINDS)


def gen_data(s, n, order, f):
    d = [float(f)] + [0.0] * (length(n, order) - 1)

    def fill(a, count, pattern):
        if count == 0 or pattern == 0:
            return
        if pattern == 1:
            d[a + s.range(0, count - 1)] = 1.0
        elif pattern == 2:
            for _ in range(s.range(1, min(4, count))):
                d[a + s.range(0, count - 1)] = small(s)
        else:
            x = s.raw() + 1
            for i in range(count):
                x = (x * 48271) % 2147483647
                d[a + i] = (x // 97 % 65 - 32) / 8
    fill(1, n, s.range(0, 4))
    if order == 2:
        fill(1 + n, len(d) - 1 - n, s.range(0, 4))
    return d


def data_of(x):
    return [float(v) for v in np.array(x.data)]


def ref_of(x, n, order):
    return Ref.of(data_of(x), n, order)


def same(a, b):
    return (a != a and b != b) or a == b


def same_list(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def same_bits(a, b):
    """every NaN is the same: its payload is not kept by the text protocols of pickle"""
    return (a != a and b != b) or struct.pack("<d", a) == struct.pack("<d", b)


def brief(d):
    d = list(d)
    return "[" + ", ".join(repr(x) for x in d[:24]) + (", ..." if len(d) > 24 else "") + "]"


def check(ctx, x, ref, kind, what):
    """x is a number of the class, has the size and the derivatives of the reference"""
    if type(x) is not kind.cls:
        ctx.fail("%s: result is a %s, expected %s" % (what, type(x).__name__, kind.name))
    if x.size != ref.n or len(x) != ref.n:
        ctx.fail("%s: size %d, expected %d" % (what, x.size, ref.n))
    s = ref.compare(data_of(x))
    if s:
        ctx.fail(what + ": " + s)


def check_data(ctx, x, d, what):
    have = data_of(x)
    if not same_list(have, d):
        ctx.fail("%s: %s, expected %s" % (what, brief(have), brief(d)))


def throws(f, *a, **k):
    try:
        f(*a, **k)
    except Exception as e:
        if isinstance(e, (Violation, Discard)):
            raise
        return True
    return False


if os.environ.get("HV_ASAN"):
    _poisoned = ctypes.CDLL(None).__asan_region_is_poisoned
    _poisoned.restype, _poisoned.argtypes = ctypes.c_void_p, [ctypes.c_void_p, ctypes.c_size_t]


def memory_ok(a):
    """the memory an array refers to is allocated (numpy itself is not instrumented)"""
    if not os.environ.get("HV_ASAN") or a.size == 0:
        return True
    lo, hi = np.byte_bounds(a)
    return not _poisoned(lo, hi - lo)
