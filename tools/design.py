#!/usr/bin/env python3
"""design.py: fills the tables of DESIGN.md from known_findings.json and seeded/ (between markers; by hand, never from a check)."""
import json, re, glob, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
k = json.load(open(root + "/known_findings.json"))
fixed = []
for f in k["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f)
    fixed.append(f"- {m[1]} `{m[2]}`: {m[3]}")
found, seen = [], {}
for f in k["findings"]:
    seen.setdefault((f["property"], f["what"]), []).append(f["input"])
for (p, w), i in seen.items():
    found.append(f"- {p}: {w} ({len(i)} inputs, e.g. `{json.dumps(i[0], ensure_ascii=False)[1:-1][:90]}`)")
seeds = ["| id | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(root + "/tools/caught.json"))
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    seeds.append(f"| {i} | {m['property']} | {m['needs'].strip()[:160]} | {', '.join(caught.get(i, ['?']))} |")
s = open(root + "/DESIGN.md").read()
for name, t in [("FIXED_TABLE", fixed), ("FINDINGS_TABLE", found), ("SEEDS_TABLE", seeds)]:
    body = f"<!-- {name} -->\n" + "\n".join(t) + f"\n<!-- end {name} -->"
    if f"<!-- {name} -->" in s:
        s = re.sub(f"<!-- {name} -->.*?<!-- end {name} -->", lambda _: body, s, flags=re.S)
    else:
        s = s.replace(name + "\n", body + "\n", 1)
open(root + "/DESIGN.md", "w").write(s)
