"""writes /verif/properties.jsonl and MANIFEST.json from the tables below"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, level="proof", note="", tech=None, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                           **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                           "observe_at": list(observe), "hook_needed": None},
                  _level=level, _note=note, _tech=tech))


def na(pid, reason):
    NA.append({"property": pid, "reason": reason})


exec(open(os.path.join(HERE, "tools", "props.py")).read())
TECH = "contract-based deductive verification: VCs generated from the AST of /repo's functions against per-function contracts, discharged by z3"
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
nas = {n["property"] for n in NA}
man = {"version": 1, "setup_cmd": "python3-vt env.py",
       "checks": [{"property": p["id"], "quick_cmd": f"python3-vt check.py {p['id']} --tier quick", "thorough_cmd": f"python3-vt check.py {p['id']} --tier thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": p["_tech"] or TECH, "level": p["_level"], "level_note": p["_note"] or
                   "unbounded proof of every generated obligation; a concrete search replays failures and is labelled bounded"} for p in P if p["id"] not in nas],
       "not_applicable": NA}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "claimed", len(NA), "not applicable")
