from .lib import *


def check_term(R, method, kind, r, e, E, mode, parse, evaluate):
    sig = f"{method}:{kind}"
    try:
        txt = getattr(e, method)()
    except Exception as ex:
        R.violation(sig, f"{method} raises", show(r), "text", repr(ex))
        return
    try:
        x = parse(txt)
    except Bad as b:
        R.violation(sig, f"{method} text: {b}", show(r), "one term", txt)
        return
    for env in E:
        try:
            want = ev(r, env, mode)
        except (Skip, TypeError, RecursionError):
            continue
        try:
            got = evaluate(x, env)
        except Skip:
            continue
        except Bad as b:
            R.violation(sig, f"{method} text: {b}", show(r), want, txt)
            return
        except RecursionError:
            return
        except Exception as ex:
            R.violation(sig, f"{method} text has no meaning: {ex!r}", f"{show(r)} with {env}", want, txt)
            return
        if got != want or isinstance(got, bool) != isinstance(want, bool):
            R.violation(sig, f"{method} text has another meaning", f"{show(r)} with {env}", want, f"{txt} = {got}")
            return
