#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, with the bounds from checks.py and the findings from known_findings.json."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
known = json.load(open(V + "/known_findings.json"))
text = open(V + "/design.txt").read()
b = []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        b.append(f"* **{i} {p['title']}**: not applicable, see MANIFEST.json\n")
        continue
    c = CHECKS[i]
    b.append(f"* **{i} {p['title']}.** Bounds: {c['bounds']}. Entries (quick parameters | thorough parameters): "
             + "; ".join(f"`{j['entry']}` {j['quick']} | {j['thorough']}" for j in c["jobs"]) + "\n")
text = text.replace("@PROPERTIES@", "".join(b))
text = text.replace("@KNOWN@", "".join(f"* {k['property']} (`{k['entry']}`): {k['what']}\n" for k in known["known"]))
text = text.replace("@FIXED@", "".join("* " + f[len("fixed: property="):] + "\n" for f in known["fixed"]))
t = V + "/seeded"
rows = []
for s in sorted(os.listdir(t)):
    m = json.load(open(f"{t}/{s}/meta.json"))
    rows.append(f"* `{s}` ({m['property']}): {m['what_it_breaks']} Needs: {m['needs']} {m.get('caught_by', '')}\n")
text = text.replace("@SEEDED@", "".join(rows))
open(V + "/DESIGN.md", "w").write(text)
