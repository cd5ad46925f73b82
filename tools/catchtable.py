"""rewrites the table of planted bugs in DESIGN.md; usage: catchtable.py FILE (lines: id checks...)"""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = dict((l.split()[0], l.split()[1:]) for l in open(sys.argv[1]) if l.split())
rows = []
for s in os.listdir(root + "/seeded"):
    p = json.load(open(f"{root}/seeded/{s}/meta.json"))["property"]
    rows.append(f"| {p} | {s} | {' '.join(caught.get(s, ['not run']))} |\n")
t = open(root + "/DESIGN.md").read()
t = re.sub(r"(\| property \| planted bug \| flagged by \|\n\|---\|---\|---\|\n)(\|.*\n)*", lambda m: m.group(1) + "".join(sorted(rows)), t)
open(root + "/DESIGN.md", "w").write(t)
