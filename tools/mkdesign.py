"""Fills the tables of DESIGN.md (findings, planted bugs) from known_findings.json and seeded/*/meta.json."""
import json
import pathlib
import re

R = pathlib.Path(__file__).resolve().parent.parent
s = (R / "DESIGN.md").read_text()


def block(name, text):
    global s
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    new = f"{a}\n{text}\n{b}"
    if a in s:
        s = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda m: new, s, flags=re.S)
    else:
        s = s.replace(f"\n{name}\n", f"\n{new}\n", 1)


k = json.loads((R / "known_findings.json").read_text())
block("FINDINGS", "\n".join("* " + f[len("fixed: property="):] for f in k["fixed"]))
rows = ["| bug | breaks | needs | caught by |", "|---|---|---|---|"]
n = 0
for f in sorted((R / "seeded").glob("*/meta.json")):
    m = json.loads(f.read_text())
    n += 1
    rows.append(f"| {f.parent.name} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'] + ' quick')} |")
block("SEEDED", "\n".join(rows))
s = re.sub(r"\n\d+ in `/verif/seeded`", f"\n{n} in `/verif/seeded`", s)
s = re.sub(r"\nAll \d+ were found", f"\nAll {len(k['fixed'])} were found", s)
(R / "DESIGN.md").write_text(s)
