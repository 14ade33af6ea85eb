"""Known findings: genuine defects that were recorded instead of repaired (known_findings.txt)."""
import os
import subprocess

import build


def run(name, asan):
    import pybuild
    return subprocess.run([pybuild.PY, os.path.join(build.VERIF, "py", name)], env=pybuild.environment(asan), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120).returncode


SHOWN = {"C22": lambda: run("known_none.py", False) < 0, "C23": lambda: run("known_resize.py", True) == 1}


def announce(prop, scratch, say, ev):
    """shows each listed finding of the property again; the generators leave exactly these histories out"""
    if prop not in SHOWN or not SHOWN[prop]():
        return
    for line in open(os.path.join(build.VERIF, "known_findings.txt")):
        if line.startswith("known: property=%s " % prop):
            say("KNOWN-FINDING: property=%s %s" % (prop, line.split(" ", 2)[2].strip()))
            ev["notes"].append("known finding shown again: " + line.strip())
