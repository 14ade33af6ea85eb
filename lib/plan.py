"""What each check runs. cases: per shard (8 shards) on the quick tier."""
RULE = ("A case is a sequence of 32 bit choices drawn by rapidcheck (C++) or Hypothesis (Python) from VERIF_SEED; the property decodes it into variant, "
        "size, values and operations. Distinct: by the choices consumed.")
ASSUMPTIONS = ["x86-64, IEEE arithmetic, the installed g++/libstdc++/libm; sizes mostly up to 40 variables, rarely up to about 200",
               "quadruple precision of libquadmath, closed forms validated against difference quotients at the start of each run"]
NEEDS_CONFIGS = {"C24"}


def cpp(cases, **kw):
    return dict(kind="cpp", cases=cases, **kw)


PY = "property-based testing (Hypothesis, shrinking) of the built Python module against the quadruple-precision reference model"


def py(cases, **kw):
    return dict(kind="py", cases=cases, **kw)


CHECKS = {
    "C01": dict(parts=[cpp(120000)]),
    "C02": dict(parts=[cpp(120000)]),
    "C03": dict(parts=[cpp(80000)]),
    "C04": dict(parts=[cpp(80000)]),
    "C05": dict(parts=[cpp(20000)]),
    "C06": dict(parts=[cpp(20000)]),
    "C07": dict(parts=[cpp(150000)]),
    "C08": dict(parts=[cpp(10000)]),
    "C09": dict(parts=[cpp(200000)]),
    "C10": dict(parts=[cpp(120000), py(6000)]),
    "C11": dict(parts=[cpp(120000)]),
    "C12": dict(parts=[cpp(120000)]),
    "C13": dict(parts=[cpp(250000), py(8000)]),
    "C14": dict(parts=[cpp(60000)]),
    "C15": dict(parts=[cpp(25000)]),
    "C16": dict(parts=[cpp(60000)]),
    "C17": dict(parts=[cpp(20000)]),
    "C18": dict(technique=PY, parts=[py(12000)]),
    "C19": dict(technique=PY, parts=[py(10000)]),
    "C20": dict(technique="property-based testing (Hypothesis, shrinking): round trips compared bit by bit", parts=[py(15000)]),
    "C21": dict(technique=PY, parts=[py(12000)]),
    "C22": dict(technique="stateful fuzzing (Hypothesis) of histories of valid and invalid calls on the Python module, with consistency invariants, under the address sanitizer", parts=[py(3000)]),
    "C23": dict(technique="stateful property-based testing (Hypothesis) of histories of views and writes against a model, under the address sanitizer", parts=[py(1500)]),
    "C24": dict(parts=[cpp(30000)]),
    "C25": dict(technique="property-based testing (rapidcheck and Hypothesis) against independently formatted text", parts=[cpp(150000), py(6000)]),
    "C26": dict(technique=PY, parts=[py(10000)]),
    "C27": dict(technique="property-based testing (rapidcheck, shrinking) of generated steps in several threads, differential against the same steps alone, under the thread sanitizer", parts=[cpp(8000)]),
    "C28": dict(technique="property-based testing (rapidcheck and Hypothesis, shrinking): repeated histories with a count of the blocks of memory alive", parts=[cpp(250000), py(900)]),
    "C29": dict(technique="property-based testing (rapidcheck, shrinking) with injected allocation faults, every fault point of a generated operation", parts=[cpp(100000)]),
}
# the thorough tier adds a coverage-guided search over the same generators
for _id, _c in CHECKS.items():
    if any(p["kind"] == "cpp" for p in _c["parts"]) and _id not in ("C24", "C27", "C28", "C29"):
        _c["parts"].append(dict(kind="fuzz", seconds=600))
NOT_APPLICABLE = {}
NOTE = ("Searches generated cases; it shows no absence. Trusts the reference model (validated against difference quotients on every run), "
        "its bound on rounding errors, the compilers and sanitizers.")
