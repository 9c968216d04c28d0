"""addfix.py PROPERTY COMMIT SIGNATURE WHAT: records a repaired defect (dev tool)"""
import json, os, sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(P))
l = d["findings"] if "findings" in d else d[[k for k in d if isinstance(d[k], list)][0]]
p, c, s, w = sys.argv[1:5]
l.append({"property": p, "status": "fixed", "commit": c, "signature": s, "what": w, "line": f"fixed: property={p} {c} {w}"})
json.dump(d, open(P, "w"), indent=1)
open(P, "a").write("\n")
