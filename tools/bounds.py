#!/usr/bin/env python3
"""bounds.py: writes BOUNDS.md, the spaces each quick check enumerates, from the evidence of the last quick runs (by hand, never from a check)."""
import json, glob, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
out = ["# Spaces enumerated by the quick checks", "",
       "Written by tools/bounds.py from evidence files. Every space is visited completely. Thorough tiers use the same spaces with longer words, deeper nestings and more fixtures.", ""]
for f in sorted(glob.glob(root + "/evidence/C*.json")):
    e = json.load(open(f)); c = e["coverage"]
    if e["tier"] != "quick": continue
    out.append(f"## {e['property']}: {sum(x['cases'] for x in c['families'])} cases, {c['states']} distinct results, {c['traces_validated_against_impl']} runs of ftml")
    out.append("")
    g = {}
    for x in c["families"]:
        n, b = x["family"], x["bound"]
        if n.startswith("hole:"): n, b = "holes", "words over 75 symbols in each place of each construct which takes text (see mc/src/templates.rs)"
        n = n.split(' in "')[0]
        g.setdefault(n, [0, 0, b]); g[n][0] += x["cases"]; g[n][1] += 1; g[n][2] = b
    for n, (k, m, b) in g.items():
        out.append(f"- {n}" + (f" ({m} spaces)" if m > 1 else "") + f", {k} cases: {b if len(b) < 170 else b[:167] + '...'}")
    out.append("")
open(root + "/BOUNDS.md", "w").write("\n".join(out))
