"""The known finding of C23: a view used after a resize of its dynamic number. Exit 1: it is there."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hv import hj, memory_ok  # noqa: E402

found = 0
for cls in (hj.DScalar, hj.DDScalar):
    for name in ("g", "data"):
        u = cls.variable(0, 2.0, 3)
        view = getattr(u, name)
        assert memory_ok(view)
        u.resize(40)
        found += not memory_ok(view)
        print(cls.__name__, name, "memory is", "its own" if memory_ok(view) else "freed")
sys.stdout.flush()
os._exit(1 if found else 0)
