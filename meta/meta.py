#!/usr/bin/env python3
"""meta.py - one source for properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md"""
import json, os, sys, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "vp"))
P, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, design, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=n, where=w) for n, w in mech]), design=design))


def na(id, reason):
    NA.append(dict(property=id, reason=reason))


for f in sorted(glob.glob(os.path.join(ROOT, "meta", "p_*.py"))):
    exec(compile(open(f).read(), f, "exec"))
P.sort(key=lambda p: p["id"])
import units as U
claimed = {u["prop"] for u in U.UNITS}
nas = {n["property"] for n in NA}
for p in P:
    assert (p["id"] in claimed) != (p["id"] in nas), p["id"] + ": claimed or not applicable"
assert claimed <= {p["id"] for p in P}, claimed - {p["id"] for p in P}
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k != "design"}) + "\n")
checks = []
for p in P:
    if p["id"] not in claimed:
        continue
    us = [u for u in U.UNITS if u["prop"] == p["id"]]
    pr = [u["name"] for u in us if u["kind"] == "proof"]
    bd = ["%s (%s)" % (u["name"], u.get("bound", "")) for u in us if u["kind"] != "proof"]
    note = ""
    if pr:
        note += "Proved without a bound: " + ", ".join(pr) + ". "
    if bd:
        note += "Discharged for every input up to a stated bound (not counted as proved): " + "; ".join(bd) + ". "
    note += "Assumes malloc succeeds and a single thread; trusts clang-18's front end, the verifier in /verif/ztv with its libc models, z3 and cvc5."
    checks.append(dict(property=p["id"], quick_cmd="python3 vp/driver.py " + p["id"], thorough_cmd="python3 vp/driver.py %s --tier thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"],
                       technique="contract-based deductive verification of the compiled C (weakest-precondition style symbolic execution, loop invariants, SMT)",
                       level=U.PROPS[p["id"]]["level"], level_note=note))
m = dict(version=1, setup_cmd="mkdir -p build evidence && python3 vp/driver.py --selftest",
         checks=checks, not_applicable=NA,
         notes="No hooks: contracts live in /verif/harness and are compiled together with /repo's sources on every run.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
out = open(os.path.join(ROOT, "meta", "design_head.md")).read()
out += "\n## Properties\n\n"
for p in P:
    us = [u for u in U.UNITS if u["prop"] == p["id"]]
    out += "### %s %s\n\n%s\n\n%s\n\n" % (p["id"], p["title"], p["statement"], p["design"])
    if us:
        out += "| unit | kind | decides |\n|---|---|---|\n"
        for u in us:
            out += "| %s | %s | %s%s |\n" % (u["name"], u["kind"], ", ".join(u.get("fns", [])) or "-", ": " + (u.get("claim") or u.get("bound")) if (u.get("claim") or u.get("bound")) else "")
        out += "\n"
for f in ("design_tail.md",):
    q = os.path.join(ROOT, "meta", f)
    if os.path.exists(q):
        out += open(q).read()
open(os.path.join(ROOT, "DESIGN.md"), "w").write(out)
print(len(P), "properties,", len(checks), "checks,", len(NA), "not applicable")
