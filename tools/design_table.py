"""Development helper: rewrite the planted-bug table of DESIGN.md (between its markers)."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
t = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
if "@@SEEDED@@" in s:
    s = s.replace("@@SEEDED@@", t)
else:
    s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
