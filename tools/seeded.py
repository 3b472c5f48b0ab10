"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
A, Z = "<!-- seeded -->", "<!-- /seeded -->"
caught = json.loads((ROOT / "tools/caught.json").read_text())
rows = ["| bug | what it breaks | caught by | |", "|---|---|---|---|"]
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    by, note = caught.get(d.name, ["?", ""])
    rows.append(f"| {d.name} | {m['what_it_breaks']} | {by} | {note} |")
p = ROOT / "DESIGN.md"
s = p.read_text()
p.write_text(s[:s.index(A)] + A + "\n" + "\n".join(rows) + "\n" + s[s.index(Z):])
