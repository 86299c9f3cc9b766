"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (here, d)))
    rows.append("| %s | %s | %s | %s |" % tuple(x.replace("|", "/") for x in (d, m["property"], m["what_it_breaks"], m["needs"])))
text = open(here + "/DESIGN.md").read()
mark = "## Planted bugs\n"
text = text[:text.index(mark)] + mark + """
`seeded/<id>/` has patch, demonstration and what it needs. Every bug below is caught by the quick check of the property in its row
(exit 1 with that property's VIOLATION line); many are caught by others too: C11 to C13, C19, C23 and C27 overlap with nearly all.
Misses met on the way were closed by extending the check (see the notes above); the table is written by `tools/bugtable.py`.

| bug | caught by | what it breaks | needs |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(here + "/DESIGN.md", "w").write(text)
print(len(rows), "bugs")
