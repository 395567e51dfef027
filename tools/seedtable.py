"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
t = "<!-- seeded -->\n| change | check that reports it | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeded -->"
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"SEEDTABLE|<!-- seeded -->.*<!-- /seeded -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
