import env, sys
import importlib
from pyvc.unit import run_unit
m = importlib.import_module("contracts." + sys.argv[1])
pat = sys.argv[2] if len(sys.argv) > 2 else ""
for n, f in m.UNITS.items():
    if pat and pat not in n: continue
    r = run_unit(n, f)
    bad = [o for o in r["obligations"] if o["status"] != "discharged"]
    print(n, "obl", len(r["obligations"]), "bad", len(bad), "paths", r["paths"], "%.2fs" % r["wall"], r["unsupported"] or "")
    for o in bad[:3]:
        print("   ", o["status"], o["name"], "|", o["detail"][:300])
        if "-v" in sys.argv: print(o["model"])
