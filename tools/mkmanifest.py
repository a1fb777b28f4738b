#!/usr/bin/env python3
"""writes /verif/MANIFEST.json: the checks that exist in engine/checks.py and the properties that are not claimed"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(V, "engine", "checks.py")).read() + "\n" + "\n".join(
    open(os.path.join(V, "engine", f)).read() for f in ("structure.py", "regions.py", "iteration.py", "solve.py") if os.path.exists(os.path.join(V, "engine", f)))
have = set(re.findall(r"^def (C\d\d)\(", src, re.M))
import sys
sys.path.insert(0, os.path.join(V, "engine"))
from doc import TRUST, NOTE
NA = {
 "N01": "quantifies over the convergence of floating-point secant iterations for every input: no sound static argument in reach bounds it; C17 and C19 decide the structural part",
 "N02": "a numerical property of two sets of published polynomials, not of the code: C01 and C05/C06 decide that the code evaluates exactly those polynomials",
 "N03": "a numerical property of the published equations at the borders; C08 to C11 decide that the borders are the published ones",
 "N04": "a statement about run time, which static analysis does not decide",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in have:
        t, n = NOTE[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "other", "level_note": (TRUST if "value" in t or "region" in t else "") + n})
    else:
        na.append({"property": p, "reason": NA.get(p, "check under construction")})
m = {"version": 1, "setup_cmd": "sh tools/setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks read the typed program of the unmodified sources through a rustc driver (driver/)."}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
