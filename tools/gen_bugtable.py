#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
rows = ["| bug | caught by | what is broken | shows with |", "|---|---|---|---|"]
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
text = (ROOT / "DESIGN.md").read_text()
head, rest = text.split("<!-- bugs -->\n", 1)
_, tail = rest.split("<!-- /bugs -->", 1)
(ROOT / "DESIGN.md").write_text(head + "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->" + tail)
