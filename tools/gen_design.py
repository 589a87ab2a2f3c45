#!/opt/venv/bin/python
"""Rewrites the table of planted changes in DESIGN.md from tools/plant_results.json."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
rs = json.loads((ROOT / "tools" / "plant_results.json").read_text())
rows = ["| change | property | breaks | needs | check, space that reports it |", "|---|---|---|---|---|"]
for k, r in sorted(rs.items()):
    if r["confirmed"]:
        got = f"{r['property']}, {r['space']}" if r["result"] == "caught" else r["result"]
        rows.append(f"| {k} | {r['property']} | {r['breaks']} | {r['needs']} | {got} |")
p = ROOT / "DESIGN.md"
s = p.read_text()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
i, j = s.index(a) + len(a), s.index(b)
p.write_text(s[:i] + "\n".join(rows) + "\n" + s[j:])
print(len(rows) - 2, "changes")
