#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "".join(open(f).read() for f in sorted(glob.glob(here + "/harness/zzverif/p*.go")))
NA = {}
checks, na = [], []
for l in open(here + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    hs = re.findall(r"^func (H_%s_\w+)\(" % i, src, re.M)
    if hs and i not in NA:
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh %s quick" % i,
            "thorough_cmd": "./check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "bounded symbolic execution of the Go SSA of the real code with an SMT solver (z3); counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Bounded: every value of the symbolic inputs and random draws within the bounds of the harnesses %s (listed in the evidence). Trusts the engine's semantics of Go and its models of the standard library and third-party packages (DESIGN.md); paths that could not be encoded are listed in the evidence and not claimed." % ", ".join(h[2:] for h in hs),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no harness built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "gosym/ is the symbolic execution engine, harness/zzverif the harnesses; both see /repo's current working tree through a build overlay, /repo needs no hooks. known_findings.json lists defects found, repaired and recorded."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
