"""Writes properties.jsonl and MANIFEST.json from sa/meta.py."""
import json, sys
sys.dont_write_bytecode = True
sys.path.insert(0, "/verif")
from sa.meta import M, NA
KEYS = ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")
with open("/verif/properties.jsonl", "w") as f:
    for pid in sorted(M):
        m = M[pid]
        assert len(m["title"]) <= 80, pid
        assert m["statement"].count(". ") <= 2, (pid, "more than three sentences")
        f.write(json.dumps({k: m[k] for k in KEYS}) + "\n")
man = dict(version=1, setup_cmd="python3 -c 'import ast'",
           checks=[dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="python3 check.py %s --thorough" % p,
                        technique=M[p]["technique"], level="other", level_note=M[p]["note"])
                   for p in sorted(M) if p not in NA],
           not_applicable=[dict(property=p, reason=NA[p]) for p in sorted(NA)],
           notes="Pure standard-library static analysis: every check parses /repo's current source and never imports it. "
                 "See DESIGN.md. No hooks were added to /repo.")
json.dump(man, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(M), "properties,", len(man["checks"]), "checks")

import os
d = open("/verif/DESIGN.md").read().split("## 2. Per-property decisions")[0]
out = [d + "## 2. Per-property decisions"]
for p in sorted(M):
    m = M[p]
    out.append("### %s %s\n%s\n\n*Over*: %s.\n\n*Why tests cannot settle it*: %s\n\n*%s*: %s%s\n" % (
        p, m["title"], m["statement"], m["quantifier"]["text"], m["why_tests_cant"],
        "Not applicable" if p in NA else "Decided by", NA[p] if p in NA else m["technique"] + ".",
        "" if p in NA or not m.get("how") else " " + m["how"]))
out.append("## 3. Planted bugs and what catches them\n\nEach was written from a property's text and the code; `seeded/<id>` holds the "
           "patch and a demonstration. All build and pass the existing tests.\n\n| bug | property | caught by | what it breaks |\n|---|---|---|---|")
if os.path.exists("/verif/SEEDS.tsv"):
    for l in open("/verif/SEEDS.tsv"):
        out.append("| " + " | ".join(l.rstrip("\n").split("\t")) + " |")
if os.path.exists("/verif/DESIGN_notes.md"):
    out.append("\n" + open("/verif/DESIGN_notes.md").read().rstrip())
open("/verif/DESIGN.md", "w").write("\n".join(out) + "\n")
