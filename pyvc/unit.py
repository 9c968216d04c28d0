"""running proof units"""
import signal
import time
import traceback
from .core import *


class UnitTimeout(BaseException):
    pass


def _alarm(*a):
    raise UnitTimeout()


def run_unit(name, fn, max_paths=4000, limit=150):
    rep = Report()
    ctx = Ctx(rep, name, max_paths)
    t0 = time.time()
    err = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        fn(ctx)
    except UnitTimeout:
        err = f"unit exceeded {limit} s"
    except Unsupported as e:
        err = str(e)
    except RecursionError:
        err = "recursion depth exceeded in the verifier"
    except Exception as e:  # a defect of the verifier is never an alarm
        err = "internal: " + "".join(traceback.format_exception_only(type(e), e)).strip() + " @ " + " | ".join(
            f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in traceback.extract_tb(e.__traceback__)[-4:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    if err is None and not rep.obls:
        err = "no obligations were generated"
    if err is None and not rep.covered:
        err = "no satisfiable path: the preconditions are contradictory"
    return {
        "unit": name,
        "obligations": [o.as_json() for o in rep.obls],
        "unsupported": err,
        "functions": sorted(rep.functions),
        "contracts_used": sorted(rep.contracts_used),
        "solver_time": rep.solver_time,
        "queries": rep.queries,
        "paths": rep.paths,
        "wall": time.time() - t0,
    }
