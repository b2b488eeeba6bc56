"""Writes properties.jsonl and MANIFEST.json from tools/table.py (only properties that have a harness)."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
from tools.table import P, NA  # noqa: E402

TRUST = ("Trusted: z3 (4.x python), the symbolic execution engine in vf/ (numpy stand-in, symbolic numbers), CPython. "
         "Floats are exact reals unless the bounds say bit-precise. Every reported violation is replayed on the real code with real numpy first.")
checks, na = [], []
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for id, p in sorted(P.items()):
        files = []
        for _, w in p["where"]:
            if w.split(":")[0] not in files:
                files.append(w.split(":")[0])
        f.write(json.dumps(dict(
            id=id, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]),
            why_tests_cant=p["why"], anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in p["where"]]),
        )) + "\n")
        if id in NA:
            na.append(dict(property=id, reason=NA[id]))
            continue
        m = importlib.import_module("vf.props." + id.lower())
        note = "Exhaustive within the bounds: " + m.BOUNDS + ". "
        if getattr(m, "OUTSIDE", ""):
            note += "Outside: " + m.OUTSIDE + ". "
        note += "Oracle: " + p["oracle"] + ". " + TRUST
        if p["note"]:
            note += " " + p["note"]
        checks.append(dict(property=id, quick_cmd=f"./check {id} quick", thorough_cmd=f"./check {id} thorough",
                           evidence_file=f"evidence/{id}.json",
                           technique="symbolic execution of the real Python code, assertions decided by the z3 SMT solver, counterexamples replayed",
                           level="model_checking", level_note=note))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="Checks import /repo/norfair afresh from the working tree on every run; no hooks in /repo, no build needed. See DESIGN.md."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")


# ------------------------------------------------------------------------------------------------ DESIGN.md
def load(name):
    try:
        return json.load(open(os.path.join(ROOT, "tools", name)))
    except FileNotFoundError:
        return {}


head = open(os.path.join(ROOT, "tools", "design_head.md")).read()
kf = json.load(open(os.path.join(ROOT, "known-findings.json")))
fixes = "| property | commit | what failed |\n|---|---|---|\n" + "".join(
    "| {} | {} | {} |\n".format(*x.split("property=")[1].split(" ", 2)) for x in kf["fixed"])
catches = load("catches.json")
seeds = "| planted bug | property | what it breaks | caught by |\n|---|---|---|---|\n"
sd = os.path.join(ROOT, "seeded")
for n in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, n, "meta.json")))
    seeds += f"| {n} | {m['property']} | {m['what_it_breaks']} | {catches.get(n, '')} |\n"
out = head.replace("FINDINGS", fixes).replace("SEEDS", seeds)
costs = load("costs.json")
for id, p in sorted(P.items()):
    m = importlib.import_module("vf.props." + id.lower())
    out += f"### {id} {p['title']}\n\n{p['statement']}\n\n"
    out += "* Executed: " + "; ".join(f"{n} (`{w}`)" for n, w in p["where"]) + "\n"
    out += f"* Quantifier: {p['quant']}. Tests cannot settle it: {p['why']}.\n"
    out += f"* Oracle: {p['oracle']}.\n* Bounds: {m.BOUNDS}.\n"
    if getattr(m, "OUTSIDE", ""):
        out += f"* Outside: {m.OUTSIDE}.\n"
    if p["note"]:
        out += f"* {p['note']}\n"
    c = costs.get(id)
    if c:
        out += f"* Cost: {c}.\n"
    out += "\n"
open(os.path.join(ROOT, "DESIGN.md"), "w").write(out)
