#!/usr/bin/env python3
"""Rewrites the tables of DESIGN.md (between <!-- name --> markers) from known_findings.jsonl and seeded/."""
import json, re
from pathlib import Path
V = Path(__file__).resolve().parent.parent
kf = [json.loads(l) for l in open(V / "known_findings.jsonl") if l.strip()]
fixed = "| property | commit | what failed |\n|---|---|---|\n" + "".join(
    f"| {k['property']} | {k['commit'][:7]} | {k['what']} |\n" for k in kf if k["status"] == "fixed")
opn = "| property | what fails |\n|---|---|\n" + "".join(
    f"| {k['property']} | {k['what']} |\n" for k in kf if k["status"] == "open")
rows = []
for d in sorted((V / "seeded").iterdir()):
    m = json.load(open(d / "meta.json"))
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} |\n")
seeded = "| planted bug | caught by | needs |\n|---|---|---|\n" + "".join(rows)
s = (V / "DESIGN.md").read_text()
for name, t in (("fixed", fixed), ("open", opn), ("seeded", seeded)):
    s = re.sub(rf"<!-- {name} -->.*?<!-- /{name} -->", lambda _: f"<!-- {name} -->\n{t}<!-- /{name} -->", s, flags=re.S)
(V / "DESIGN.md").write_text(s)
