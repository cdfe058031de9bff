#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, CH, NA = [], [], []
SIM = "deterministic simulation with fault injection: seeded search over "


def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}})


def check(id, what, note):
    CH.append({"property": id, "quick_cmd": f"bin/check {id} quick", "thorough_cmd": f"bin/check {id} thorough",
               "technique": SIM + what, "level": "exploration", "level_note": note})


NOTE = ("Seeded sampling, not proof. The whole program runs in the simulator (real go/packages, go/types, cobra, yaml); trusted stand-ins: the go command's "
        "list/env answers, small copies of the standard library and k8s.io packages the generated projects import, and the simulated operating system. ")

exec(open(os.path.join(V, "doc", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
ids = {p["id"] for p in P}
claimed = {c["property"] for c in CH}
na = {n["property"] for n in NA}
assert claimed | na == ids and not claimed & na, (claimed ^ ids, na)
m = {"version": 1, "setup_cmd": "bin/setup", "checks": CH, "not_applicable": NA,
     "notes": "No hooks in /repo: the simulator's seams are put in at build time by a source-to-source overlay (see DESIGN.md)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
