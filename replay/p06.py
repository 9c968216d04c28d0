from .lib import *
import metalift.ir as ir


def us(e):
    """structure without types of variables and calls"""
    if isinstance(e, ir.Expr):
        return (type(e).__name__,) + tuple(us(a) for a in e.args)
    return (type(e).__name__, e)


def leaf_mutants(r, rng):
    """recipes that differ from r in one place"""
    if r.op == "Lit":
        if r.t == BOOL:
            yield lit(not r[2])
            yield lit(1 if r[2] else 0)
        else:
            yield lit(r[2] + 1)
            if r[2] in (0, 1):
                yield lit(bool(r[2]))
        return
    if r.op == "Var":
        yield R(("Var", r.t, r[2] + "_"))
        return
    for i, k in enumerate(r):
        if isinstance(k, R):
            for m in leaf_mutants(k, rng):
                yield R(r[:i] + (m,) + r[i + 1:])
    if r.op == "Call":
        yield R(r[:2] + (r[2] + "x",) + r[3:])
        if len(r) > 4:
            yield R(r[:-1])
    if r.op in ("And", "Or", "Add", "Mul") and len(r) > 3:
        yield R(r[:-1])
        yield R(r + (r[-1],))
    swap = {"And": "Or", "Or": "And", "Lt": "Le", "Le": "Lt", "Gt": "Ge", "Ge": "Gt", "Add": "Mul", "Mul": "Add", "Sub": "Div", "Div": "Mod", "Mod": "Sub"}
    if r.op in swap and not (r.op in ("Add", "Mul") and len(r) > 4):
        yield R((swap[r.op],) + r[1:])
    if r.op in ("Sub", "Lt", "Implies", "Eq", "Div"):
        yield R(r[:2] + (r[3], r[2]))


def common_ref(e):
    out, pos = [], {}

    def go(x):
        s = us(x)
        if s in pos:
            out[pos[s]][1] += 1
            return
        pos[s] = len(out)
        out.append([s, 1])
        for a in x.args:
            if isinstance(a, ir.Expr):
                go(a)
    go(e)
    return [tuple(x) for x in out]


def run(R):
    rng = R.rng
    n = 800 if not R.thorough else 20000
    prev = []
    for kind, r in cases(rng, n, 4):
        if R.over():
            break
        R.case(kind, show(r))
        try:
            e, e2 = build(r), build(r)
        except AssertionError:
            continue
        try:
            R.check(ir.Expr.__eq__(e, e2) is True and ir.Expr.__ne__(e, e2) is False and hash(e) == hash(e2), f"eq:{kind}", "equality of two copies", show(r), True, False)
            others = list(leaf_mutants(r, rng))[:12] + prev[-3:]
            for m in others:
                try:
                    f = build(m)
                except Exception:
                    continue
                want = us(e) == us(f)
                R.check(ir.Expr.__eq__(e, f) is want and ir.Expr.__eq__(f, e) is want and ir.Expr.__ne__(e, f) is (not want), f"eq:{kind}", "equality", f"{show(r)} and {show(m)}", want, not want)
                if want:
                    R.check(hash(e) == hash(f), f"hash:{kind}", "hash of equal expressions", f"{show(r)} and {show(m)}", hash(e), hash(f))
            prev.append(r)
            got = [(us(x), c) for x, c in ir.Expr.findCommonExprs(e, [])]
            R.check(got == common_ref(e), f"common:{kind}", "findCommonExprs", show(r), common_ref(e), got)
        except Exception as ex:
            R.violation(f"eq:{kind}", "comparison raises", show(r), "a truth value", repr(ex))
    x = ir.Var("x", ir.Int)
    for o in (None, 1, "x", [x]):
        R.check(ir.Expr.__eq__(x, o) is NotImplemented, "eq:other", "comparison with something else", o, NotImplemented, ir.Expr.__eq__(x, o))
    for T in (ir.Int,):
        a, b, c = T(x), T(ir.Var("x", T)), T(ir.Var("y", T))
        R.check(ir.Expr.__eq__(a, b) is True and ir.Expr.__eq__(a, c) is False, "eq:object", "equality of wrapped expressions", "Int objects", "structure", "other")
