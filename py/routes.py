"""The ways in which Python offers one operation."""
import numpy as np
import hyperjet as hj
from hv import Violation

ALIAS = {"acos": "arccos", "asin": "arcsin", "atan": "arctan", "acosh": "arccosh", "asinh": "arcsinh", "atanh": "arctanh"}


def un(src, op, x):
    """(how, result)"""
    k = src.range(0, 3)
    if op == "neg":
        return ("-x", -x) if k % 2 == 0 else ("np.negative(x)", np.negative(x))
    if op == "abs":
        return [("abs(x)", abs), ("x.abs()", lambda v: v.abs()), ("np.abs(x)", np.abs), ("np.absolute(x)", np.absolute)][k][0], [abs, lambda v: v.abs(), np.abs, np.absolute][k](x)
    if op == "reciprocal":
        if k <= 1:
            return "x.reciprocal()", x.reciprocal()
        return "1 / x", 1 / x
    if k == 0:
        return "x.%s()" % op, getattr(x, op)()
    name = ALIAS.get(op, op)
    if k == 1:
        return "x.%s()" % name, getattr(x, name)()
    return "np.%s(x)" % name, getattr(np, name)(x)


def plus(a, b): return a + b
def minus(a, b): return a - b
def times(a, b): return a * b
def over(a, b): return a / b


OPER = {"+": plus, "-": minus, "*": times, "/": over}
UFUNC = {"+": np.add, "-": np.subtract, "*": np.multiply, "/": np.true_divide}


def binary(src, op, x, y, module=True):
    k = src.range(0, 3)
    if op in OPER:
        if k <= 2:
            return "x %s y" % op, OPER[op](x, y)
        return "np.%s(x, y)" % UFUNC[op].__name__, UFUNC[op](x, y)
    if op == "atan2":
        return [("x.atan2(y)", lambda: x.atan2(y)), ("x.arctan2(y)", lambda: x.arctan2(y)), ("np.arctan2(x, y)", lambda: np.arctan2(x, y)), ("np.arctan2(x, y)", lambda: np.arctan2(x, y))][k][0], \
            [lambda: x.atan2(y), lambda: x.arctan2(y), lambda: np.arctan2(x, y), lambda: np.arctan2(x, y)][k]()
    ways = [("x.hypot(y)", lambda: x.hypot(y)), ("np.hypot(x, y)", lambda: np.hypot(x, y)), ("class.hypot(x, y)", lambda: type(x).hypot(x, y))]
    if module:
        ways.append(("hj.hypot(x, y)", lambda: hj.hypot(x, y)))
    w = ways[k % len(ways)]
    return w[0], w[1]()


def hypot3(src, x, y, z, module=True):
    ways = [("x.hypot(y, z)", lambda: x.hypot(y, z)), ("class.hypot(x, y, z)", lambda: type(x).hypot(x, y, z))]
    if module:
        ways.append(("hj.hypot(x, y, z)", lambda: hj.hypot(x, y, z)))
    w = src.pick(ways)
    return w[0], w[1]()


def scalar(src, v):
    """the number v in one of the types users mix with; returns (object, its value)"""
    k = src.range(0, 5)
    if k <= 1 and v == int(v) and abs(v) < 1e9:
        return (int(v), float(int(v))) if k == 0 else (np.int64(int(v)), float(int(v)))
    if k == 2:
        return np.float64(v), v
    if k == 3:
        f = np.float32(v)
        return f, float(f)
    if k == 4 and v in (0.0, 1.0):
        return bool(v), v
    return v, v


def inplace(op, x, y):
    """x op= y; with another number, and for *= and /= with a factor, the object that x names is changed, not replaced, so its other names see the update"""
    old = x
    if op == "+":
        x += y
    elif op == "-":
        x -= y
    elif op == "*":
        x *= y
    else:
        x /= y
    if x is not old and type(old).__module__.startswith("hyperjet") and (type(y) is type(old) or op in "*/" and type(y) in (int, float)):
        raise Violation("x %s= y gives another object, the other names of x keep their old value" % op)
    return x


def power(src, x, e):
    ways = [("x ** e", lambda: x ** e), ("pow(x, e)", lambda: pow(x, e)), ("np.power(x, e)", lambda: np.power(x, e))]
    w = src.pick(ways)
    return w[0], w[1]()


CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}
