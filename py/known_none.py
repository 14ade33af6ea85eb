"""The known finding of C22: None as self of an unbound method ends the interpreter (it is run in a process of its own)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hv import hj  # noqa: E402

try:
    hj.DD2Scalar.sin(None)
except TypeError:
    pass
os._exit(0)
