"""Rewrites the table of planted bugs in DESIGN.md (section 6) from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + "/seeded")):
    p = f"{root}/seeded/{d}/meta.json"
    if os.path.exists(p):
        m = json.load(open(p))
        rows.append((m["property"], d, m["needs"], m["what_it_breaks"]))
rows.sort()
t = "| id | planted bug | needs | effect |\n|----|-------------|-------|--------|\n" + "".join(f"| {a} | {b} | {c} | {e} |\n" for a, b, c, e in rows)
t = t.replace("|-", "|-")
s = open(root + "/DESIGN.md").read()
s = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)", lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(root + "/DESIGN.md", "w").write(s)
print(len(rows))
