"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json (by hand)."""
import json
import re
from pathlib import Path

V = Path(__file__).resolve().parents[1]
rows = []
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| `{d.name}` | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
s = (V / "DESIGN.md").read_text()
head = "| planted bug | property, caught by | breaks | needs |\n|---|---|---|---|\n"
a = s.index(head) + len(head)
m = re.compile(r"(?:\|.*\n)+").match(s, a)
(V / "DESIGN.md").write_text(s[:a] + "\n".join(rows) + "\n" + s[m.end():])
print(len(rows))
