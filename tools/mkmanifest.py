"""Writes MANIFEST.json from properties.jsonl and lib/plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import plan
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in plan.CHECKS:
        na.append(dict(property=i, reason=plan.NOT_APPLICABLE.get(i, "check not built yet")))
        continue
    s = plan.CHECKS[i]
    checks.append(dict(property=i, quick_cmd="python3 run.py " + i, thorough_cmd="VERIF_TIER=thorough python3 run.py " + i,
                       evidence_file="evidence/%s.json" % i, technique=s.get("technique", "property-based testing (rapidcheck, shrinking) against a quadruple-precision reference model"),
                       level="exploration", level_note=s.get("note", plan.NOTE)))
json.dump(dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
               notes="No hooks: the library is header-only and is observed through its public interface. Genuine defects found are repaired in 'fix:' commits, see known_findings.txt."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
