"""Table of planted bugs for DESIGN.md (replaces what follows the marker)."""
import glob, json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | what it breaks | what it needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
a, b = "<!-- bugs -->", "<!-- /bugs -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n" + "\n".join(rows) + "\n" + s[j:])
