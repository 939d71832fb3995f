#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one place to keep them in step)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T_PROOF = "contract-based deductive verification: pyvc verification conditions generated from the real Python source, discharged by z3/cvc5"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, claim=None, level="proof", note="", na=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      claim=claim, level=level, note=note, na=na, state=state))


exec(open(os.path.join(HERE, "tools", "table.py"), encoding="utf-8").read())

with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        if p["state"]:
            d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in p["state"]]
        f.write(json.dumps(d) + "\n")

checks, na = [], []
for p in PROPS:
    if p["na"] or not os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py")):
        na.append(dict(property=p["id"], reason=p["na"] or "no check built yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 /verif/check.py {p['id']} --tier quick",
                       thorough_cmd=f"python3 /verif/check.py {p['id']} --tier thorough",
                       technique=T_PROOF if p["level"] == "proof" else p["claim"] or T_PROOF, level=p["level"], level_note=p["note"]))
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(dict(version=1, setup_cmd="python3 /verif/selftest.py", checks=checks, not_applicable=na,
                   notes="No hooks in /repo. Every check reads /repo's working tree on each run."), f, indent=1)
    f.write("\n")
try:
    import sys
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import jsonschema
    jsonschema.validate(json.load(open(os.path.join(HERE, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(os.path.join(HERE, "properties.jsonl")):
        jsonschema.validate(json.loads(line), sch)
    print(len(PROPS), "properties,", len(checks), "checks: valid")
except ImportError:
    print("written (not validated)")
