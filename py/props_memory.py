"""C28: repeating calls does not take more and more memory."""
import ctypes
import gc
import props_safety
from hv import *  # noqa: F403


_live = getattr(ctypes.CDLL(None), "hv_live_blocks", None)  # preloaded for this property only
if _live:
    _live.restype = ctypes.c_long


def taken():
    """blocks of memory that are alive (pymalloc is off, see pybuild.py)"""
    sys._clear_type_cache()  # it keeps names
    gc.collect()
    return _live()


def grows(f):
    """blocks per repetition that f keeps, 0 if some repetitions keep none"""
    f()
    least = None
    for n in [3] + [10] * 6:
        a = taken()
        for _ in range(n):
            f()
        d = (taken() - a) / n
        if d < 1:
            return 0
        least = d if least is None else min(least, d)
    return int(least)


@prop("C28", 1, "four or more calls, with at least one that succeeds and one that raises", 300)
def calls_again(src, ctx):
    props_safety.TAME = True  # this process runs no other property
    rest = list(src.c[src.pos:])
    first = Ctx()
    s = Src(rest)
    props_safety.calls(s, first)
    src.pos += s.pos
    for line in first.desc:
        ctx.log(line)
    ctx.nontrivial = first.nontrivial
    n = grows(lambda: props_safety.calls(Src(rest), Ctx()))
    ctx.require(n == 0, "every repetition of these calls takes another %d blocks of memory" % n)
