#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, stmt, over, otext, why, files, mech, na=None, note=None):
    P.append(dict(id=id, title=title, stmt=stmt, over=over, otext=otext, why=why, files=files, mech=mech, na=na, note=note))
exec(open(os.path.join(V, "tools", "props.py")).read())
have = set()
for f in sorted(os.listdir(os.path.join(V, "harness"))):
    m = re.match(r"(c\d\d)_.*\.go$", f)
    if m: have.add(m.group(1).upper())
with open(os.path.join(V, "properties.jsonl"), "w") as o:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        o.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["stmt"],
            quantifier=dict(over=q["over"], text=q["otext"]), why_tests_cant=q["why"],
            anchors=dict(files=q["files"], mechanism=[dict(name=n, where=w) for n, w in q["mech"]])), ensure_ascii=False) + "\n")
checks, na = [], []
for q in P:
    if q["na"] or q["id"] not in have:
        na.append(dict(property=q["id"], reason=q["na"] or "no harness for it has been built yet"))
        continue
    checks.append(dict(property=q["id"], quick_cmd="bash check.sh %s quick" % q["id"], thorough_cmd="bash check.sh %s thorough" % q["id"],
        technique="symbolic execution of the Go SSA of /repo with SMT (z3) deciding every branch and assertion; counterexamples replayed on the compiled code",
        level="model_checking",
        level_note="Bounded: holds for every value of the symbolic inputs within the bounds listed per harness in the evidence file (document shapes, sizes and ranges are stated in each harness). " + (q["note"] or "") +
        "Trusts the executor's model of Go and of the standard library routines listed in DESIGN.md; every reported violation is reproduced on the compiled code first."))
man = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="bash replay.sh FILE re-runs a reported counterexample on the compiled code; known_findings.txt lists genuine defects and the repaired ones.")
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(man, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not claimed")
