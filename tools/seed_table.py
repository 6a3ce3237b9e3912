"""Rewrite the table at the end of DESIGN.md from seeded/*/meta.json (not used by any check)."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | needs | first run |", "|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append("| %s | %s | %s |" % (d.name, m["needs"].replace("|", "\\|"), m.get("first", "caught")))
p = root / "DESIGN.md"
t = p.read_text()
head = t[: t.index("<!-- table -->")]
p.write_text(head + "<!-- table -->\n" + "\n".join(rows) + "\n")
