"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import pathlib

root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| seeded bug | property | what it breaks |", "|---|---|---|"]
for m in sorted(root.glob("seeded/*/meta.json")):
    d = json.loads(m.read_text())
    rows.append("| %s | %s | %s |" % (m.parent.name, d["property"], " ".join(d["what_it_breaks"].split()).replace("|", "/")))
p = root / "DESIGN.md"
s = p.read_text()
a = s.find("<SEEDED>")
if a < 0:
    a = s.index("| seeded bug |")
p.write_text(s[:a] + "\n".join(rows) + "\n")
