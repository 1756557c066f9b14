#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, state=(), note=None, technique=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                   mechanism=[dict(name=a, where=b) for a, b in mech])))
    if technique:
        MAN.append(dict(property=id, quick_cmd=f"./check.sh {id}", thorough_cmd=f"./check.sh {id} --tier=thorough",
                        evidence_file=f"evidence/{id}.json", technique=technique, level="other", level_note=note))


def na(id, reason):
    NA.append(dict(property=id, reason=reason))


MAN = []
COMMON = ("Decides the stated rule for every control-flow path of the analysed entry points, over all outcomes of every flash call and loop "
          "fixpoints, on the MIR of the current source. Trusts: the engine's abstract models of core/std, the NorFlash contract, pure user Key/Value impls. ")
exec(open(os.path.join(V, "tools", "props.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=MAN, not_applicable=NA,
               notes="One engine (engine/) interprets the MIR facts dumped by driver/; each property is a monitor in checks/. See DESIGN.md."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    for p in PROPS:
        jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
covered = {m["property"] for m in MAN} | {n["property"] for n in NA}
print("claimed", len(MAN), "na", len(NA), "uncovered", set(ids) - covered)
