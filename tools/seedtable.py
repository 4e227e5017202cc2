"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import pathlib

ROOT = pathlib.Path(__file__).parent.parent
rows = []
for m in sorted(ROOT.glob("seeded/*/meta.json")):
    d = json.loads(m.read_text())
    rows.append((d["property"], m.parent.name, d["needs"], d["what_it_breaks"]))
rows.sort()
text = "| property, also the check that catches it | id | needs |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % (p, i, n.replace("|", "/")) for p, i, n, _ in rows)
p = ROOT / "DESIGN.md"
s = p.read_text()
a, b = s.index("<!-- planted -->"), s.index("<!-- /planted -->")
p.write_text(s[:a] + "<!-- planted -->\n" + text + s[b:])
print(len(rows), "planted bugs")
