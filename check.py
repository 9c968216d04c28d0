"""check.py <property> [--tier quick|thorough]

1. generates and discharges every proof obligation of contracts/<pid>.py from
   the source in /repo (the deciding step);
2. runs the concrete search of replay/<pid>.py against the real code: it looks
   for inputs replaying a failed obligation, and is the bounded stand-in for the
   functions named in BOUNDED and for units the verifier could not handle;
3. reports: exit 0 / exit 1 with a VIOLATION line."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time
import env
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool

HERE = os.path.dirname(os.path.abspath(__file__))


def work(pid, name, limit):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from pyvc.unit import run_unit
    m = importlib.import_module("contracts." + pid.lower())
    try:
        return run_unit(name, m.UNITS[name], limit=limit)
    except MemoryError:
        return undecided(name, "out of memory")


def undecided(name, why):
    return {"unit": name, "obligations": [], "unsupported": why, "functions": [], "contracts_used": [], "solver_time": 0.0,
            "queries": 0, "paths": 0, "wall": 0.0}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    edir = os.path.join(HERE, "evidence")
    os.makedirs(edir, exist_ok=True)
    rdir = os.path.join(edir, "replay")
    os.makedirs(rdir, exist_ok=True)

    search = None
    search_out = os.path.join(rdir, f"{pid}.search.json")
    if os.path.exists(search_out):
        os.unlink(search_out)
    budget = 60 if tier == "quick" else 400
    if os.path.exists(os.path.join(HERE, "replay", pid.lower() + ".py")):
        search = subprocess.Popen([sys.executable, os.path.join(HERE, "replay_main.py"), pid, tier, str(seed), str(budget), search_out],
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    m = importlib.import_module("contracts." + pid.lower())
    limit = 150 if tier == "quick" else 500
    results = []
    names = list(m.UNITS)
    try:
        with ProcessPoolExecutor(7) as ex:
            futs = {ex.submit(work, pid, n, limit): n for n in names}
            for f in as_completed(futs):
                try:
                    results.append(f.result())
                except BrokenProcessPool:
                    raise
                except Exception as e:
                    results.append(undecided(futs[f], f"worker: {e!r}"))
    except BrokenProcessPool:
        done = {r["unit"] for r in results}
        results += [undecided(n, "verifier process ended") for n in names if n not in done]
    results.sort(key=lambda r: names.index(r["unit"]))

    found, sstats, serr = [], {}, None
    if search is not None:
        try:
            out, _ = search.communicate(timeout=budget + 120)
        except subprocess.TimeoutExpired:
            search.kill()
            out, _ = search.communicate()
        try:
            d = json.load(open(search_out))
            found, sstats = d["found"], d["stats"]
        except Exception:
            serr = (out or "")[-2000:]
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == pid and k["status"] == "known"]
    ksigs = {k["signature"] for k in known}
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    new = [f for f in found if f["signature"] not in ksigs]

    obls = [o for r in results for o in r["obligations"]]
    refuted = [o for o in obls if o["status"] == "refuted"]
    unknown = [o for o in obls if o["status"] == "unknown"]
    undec = [r for r in results if r["unsupported"]]
    status = 0
    if refuted or new:
        path = os.path.join(rdir, f"{pid}.violation.json")
        json.dump({"property": pid,
                   "failed_obligations": refuted[:50],
                   "undecided_units": [[r["unit"], r["unsupported"]] for r in undec],
                   "failing_inputs": new[:50],
                   "search_error": serr,
                   "reproduce": f"cd {HERE} && {os.path.basename(sys.executable)} check.py {pid}"}, open(path, "w"), indent=1)
        for o in refuted[:8]:
            print(f"  failed obligation: {o['name']}: {o['detail'][:300]}")
        for f in new[:5]:
            print(f"  failing input: {f['what'][:200]} input={str(f['input'])[:200]} expected={str(f['expected'])[:120]} got={str(f['got'])[:200]}")
        print(f"VIOLATION property={pid} replay={path}" + ("" if new else " no-failing-input-found"))
        status = 1
    for r in undec:
        print(f"  undecided unit {r['unit']}: {r['unsupported'][:200]}")
    for o in unknown[:5]:
        print(f"  undecided obligation {o['name']}")
    if serr:
        print("  search did not finish: " + serr[-300:])

    discharged = sum(o["status"] == "discharged" for o in obls)
    funcs = sorted({f for r in results for f in r["functions"]})
    assumed = sorted({f for r in results for f in r["contracts_used"]})
    bounded = list(getattr(m, "BOUNDED", []))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": len(obls), "discharged": discharged,
            "checker_cmd": f"python3-vt check.py {pid} --tier {tier}",
            "trusted_base": TRUSTED + list(getattr(m, "TRUSTED", [])),
            "units": len(results), "units_undecided": [[r["unit"], r["unsupported"]] for r in undec],
            "functions_verified": funcs,
            "callees_replaced_by_contract": assumed,
            "back_end": "z3 (python z3-solver), verification conditions generated by /verif/pyvc from the AST of /repo",
            "solver_time_s": round(sum(r["solver_time"] for r in results), 2),
            "solver_queries": sum(r["queries"] for r in results), "paths": sum(r["paths"] for r in results),
            "bounded_not_proved": bounded,
            "bounded_search": sstats,
            "slowest_units": [[r["unit"], round(r["wall"], 2)] for r in sorted(results, key=lambda r: -r["wall"])[:3]],
        },
        "assumptions": list(getattr(m, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(refuted) + len(new),
    }
    json.dump(ev, open(os.path.join(edir, f"{pid}.json"), "w"), indent=1)
    print(f"{pid}: {discharged}/{len(obls)} obligations discharged in {len(results)} units, {len(undec)} undecided, "
          f"search {sstats.get('evaluations', 0)} cases, {time.time() - t0:.1f}s")
    return status


TRUSTED = ["z3", "/verif/pyvc (verification condition generator: semantics of the Python subset)",
           "CPython's import of the modules under /repo (module-level code runs natively)",
           "integers are mathematical (as Python's are)"]

if __name__ == "__main__":
    sys.exit(main())
