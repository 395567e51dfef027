#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None, technique=None, note=None, na=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe or [], state=state or [], technique=technique, note=note, na=na, hook=hook))

exec(open(os.path.join(ROOT, "tools", "table.py")).read())

TECH = "symbolic execution of the Go SSA of /repo, every path condition and assertion decided by an SMT solver (z3, cross-checked with cvc5)"
NOTE = ("Holds for every value within the stated bounds (the Bounds lines of the harnesses, repeated in the evidence); nothing is claimed outside them. "
        "Trusted: the SSA interpreter, its models of the standard library (listed in the evidence) and the solvers; sampled paths and every counterexample are re-run on the natively compiled code.")

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], state=p["state"],
                                  mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]],
                                  observe_at=p["observe"], hook_needed=p["hook"]))
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append(dict(property=p["id"], reason=p["na"]))
            continue
        checks.append(dict(property=p["id"], quick_cmd="bash check.sh %s" % p["id"],
                           thorough_cmd="VERIF_TIER=thorough bash check.sh %s" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"],
                           technique=p["technique"] or TECH, level="model_checking",
                           level_note=(p["note"] + " " if p["note"] else "") + NOTE))
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
             notes="No hooks in /repo: harnesses are added through go overlays. See DESIGN.md.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")

main()
