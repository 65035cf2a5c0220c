#!/opt/venv/bin/python
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json.

MISSED names the planted bugs that the check of their property does not report.
"""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parents[1]
MISSED: set[str] = set()
rows = ["| planted bug | caught by | what it breaks |", "|---|---|---|"]
for d in sorted((ROOT / "seeded").iterdir()):
    meta = json.loads((d / "meta.json").read_text())
    by = "-" if d.name in MISSED else meta["property"]
    rows.append(f"| {d.name} | {by} | {meta['what_it_breaks'].replace('|', '/')} |")
text = (ROOT / "DESIGN.md").read_text()
head, rest = text.split("<!-- planted -->\n")
tail = rest.split("<!-- end planted -->")[1]
(ROOT / "DESIGN.md").write_text(head + "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- end planted -->" + tail)
