#!/usr/bin/env python3
"""Writes /verif/DESIGN.md."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = {}
exec(open(here + "/tools/design_props.py").read())
SUFFIX = {"_again": "two documents with the same names are read and used in turn, each keeps its own meaning.",
          "_far_down": "the same behind three to ten levels of containers and references.",
          "_siblings": "the same in several places whose names look alike.",
          "_odd": "the same in a property with an unusual name."}
out = [open(here + "/tools/design_head.md").read()]
for l in open(here + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    d = D[i]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(d["how"].strip() + "\n")
    out.append("*Bounds:* " + d["bounds"].strip() + " *Quick:* about %s s.\n" % d["cost"])
    own = here + "/harness/zzverif/%s.go" % i.lower()
    src = open(own).read() + "".join(open(f).read() for f in sorted(glob.glob(here + "/harness/zzverif/*.go")) if f != own)
    for m in re.finditer(r"((?:^//.*\n)*)^func (H_%s_\w+)\(" % i, src, re.M):
        c = " ".join(x[2:].strip() for x in m.group(1).splitlines())
        c = re.sub(r"^H_\w+:\s*", "", c)
        c = c or next((t for x, t in SUFFIX.items() if m.group(2).endswith(x)), "")
        out.append("- `%s`%s" % (m.group(2), ": " + c if c else ""))
    out.append("")
out.append("## 3. Planted bugs\n")
out.append("Written from the property texts and the code, confirmed by `tools/seed.py` in a scratch copy (builds, stable tests pass, demonstration fails only with the change). `caught by` was established by running the named check with the change applied; other checks may see it too.\n")
out.append("| bug | what it breaks | needs | caught by |\n|---|---|---|---|")
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    out.append("| %s | %s | %s | %s |" % (n, m["what_it_breaks"], m["needs"], CAUGHT.get(n, m["property"])))
out.append("\n" + SEEDNOTE.strip() + "\n")
out.append("## 4. Findings\n")
out.append("Genuine defects of go-chaff the checks (or the reading that led to them) brought up. Each was confirmed against the real code; `known_findings.json` is the machine-readable list.\n")
for f in json.load(open(here + "/known_findings.json"))["findings"]:
    if f["status"] == "known":
        out.append("- **known, %s** (`%s`): %s" % (f["property"], f["id"], f["text"]))
    else:
        out.append("- fixed, %s, %s: %s" % (f["property"], f["commit"], f["text"].split(f["commit"] + " ", 1)[1]))
out.append("\n" + FINDNOTE.strip() + "\n")
out.append(open(here + "/tools/design_tail.md").read())
open(here + "/DESIGN.md", "w").write("\n".join(out))
