#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md (results of `plant.py try` in results.json)."""
import json, pathlib, re

HERE = pathlib.Path(__file__).parent
ROOT = HERE.parent.parent
res = json.loads((HERE / "results.json").read_text()) if (HERE / "results.json").exists() else {}
rows, by = [], {}
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    by.setdefault(m["property"], []).append((d.name, m["what_it_breaks"], res.get(d.name, "not tried")))
for p in sorted(by):
    for n, w, r in by[p]:
        rows.append(f"| {n} | {w} | {r} |")
text = (ROOT / "DESIGN.md").read_text()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
i, j = text.index(a) + len(a), text.index(b)
(ROOT / "DESIGN.md").write_text(text[:i] + "| bug | what it breaks | outcome |\n|---|---|---|\n" + "\n".join(rows) + "\n" + text[j:])
print(len(rows), "bugs;", sum(r.startswith("caught") for v in by.values() for _, _, r in v), "caught")
