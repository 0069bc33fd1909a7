#!/usr/bin/env python3
"""Regenerate DESIGN.md from tools/design_text.md, tools/props.py, the checks and the planted bugs (development aid)."""
import ast, glob, json, os, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = runpy.run_path(V + "/tools/props.py")["PROPS"]
seeds = {}
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(p)); seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(p)), m))
found = {}
for l in open(V + "/KNOWN_FINDINGS.txt"):
    if l.startswith(("known:", "fixed:")):
        found.setdefault(l.split("property=")[1][:3], []).append(l.strip())
out = []
for p in props:
    f = glob.glob(f"{V}/checks/{p['id'].lower()}_*.py")[0]
    c = {"ASSUMPTIONS": [], "MIN_COUNTERS": {}, "RULE": ""}
    tree = ast.parse(open(f).read())
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in c:
            c[n.targets[0].id] = ast.literal_eval(n.value)
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n")
    out.append(f"- *Decided by* {p['technique']} (`checks/{os.path.basename(f)}`).")
    out.append(f"- *Workload and oracle*: {c['RULE']}.")
    out.append(f"- *Quantified over*: {p['quant']}.")
    out.append(f"- *Beyond the tests*: {p['why']}")
    if c["ASSUMPTIONS"]: out.append(f"- *Bounds and trust*: {'; '.join(c['ASSUMPTIONS'])}.")
    out.append("- *Fewer observations than this make a run inconclusive*: " + ", ".join(f"{k} >= {v}" for k, v in c["MIN_COUNTERS"].items()) + ".")
    for l in found.get(p["id"], []): out.append(f"- *Defect* {l}")
    for s, m in seeds.get(p["id"], []): out.append(f"- *Planted bug caught* `{s}`: {m['what_it_breaks']}")
    out.append("")
t = open(V + "/tools/design_text.md").read()
open(V + "/DESIGN.md", "w").write(t.replace("@@PROPERTIES@@", "\n".join(out)))
