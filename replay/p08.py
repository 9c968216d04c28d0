from .lib import *
import itertools
import metalift.ir as ir

TY = [ir.Int, ir.Bool, ir.List[ir.Int], ir.List[ir.Bool], ir.Matrix[ir.Int], ir.Set[ir.Int], ir.Tuple[tuple[ir.Int, ir.Int]], ir.Tuple[tuple[ir.Int, ir.Bool]], ir.List[ir.List[ir.Int]]]
ONE = {"Add": (1, None), "Mul": (1, None), "Sub": (2, 2), "Div": (2, 2), "Mod": (2, 2), "Choose": (1, None)}
RES = {"Add": ir.Int, "Mul": ir.Int, "Sub": ir.Int, "Div": ir.Int, "Mod": ir.Int}


def attempt(R, name, args, want, ty_):
    """want: True must be accepted, False must be refused, None either"""
    R.case(f"{name}/{len(args)}/{want}", f"{name} of {[str(a.type) for a in args]}")
    shown = f"{name} of {[str(a.type).replace('metalift.ir.', '') for a in args]}"
    try:
        e = getattr(ir, name)(*args)
    except Exception as ex:
        if want is True:
            R.violation(f"{name}:refused", f"{name} refuses well-typed operands", shown, "accepted", repr(ex))
        return
    if want is False:
        R.violation(f"{name}:accepted", f"{name} accepts ill-typed operands", shown, "an exception", e)
        return
    R.check(type(e).__name__ == name and e.type == ty_ and len(e.args) == len(args) and all(a is b for a, b in zip(e.args, args)),
            f"{name}:built", f"{name} built wrongly", shown, f"{name} of type {ty_} holding the operands", f"{skel(e)}")


def run(R):
    vs = {t: [ir.Var(f"v{i}", t) for i in range(6)] for t in TY}
    named = lambda a, b: ir.get_type_str(a) == ir.get_type_str(b)
    for name in list(ONE) + ["And", "Or"]:
        lo, ex = ONE.get(name, (1, None))
        for k in range(0, 6):
            combos = itertools.product(TY[:4], repeat=k) if k <= 3 else [tuple(t if j != i else u for j in range(k)) for t in TY for u in TY for i in range(k)]
            for ts in combos:
                args = [vs[t][i] for i, t in enumerate(ts)]
                cnt = (k == ex) if ex else k >= lo
                if name in ("And", "Or"):
                    want, res = cnt and all(t == ir.Bool for t in ts), ir.Bool
                else:
                    want = cnt and all(t == ts[0] for t in ts)
                    if cnt and not want and all(named(t, ts[0]) for t in ts):
                        want = None
                    res = ir.Int if name != "Choose" else (ts[0] if ts else None)
                attempt(R, name, args, want, res)
        if R.over():
            return
    for a, b in itertools.product(TY, repeat=2):
        A, B = vs[a][0], vs[b][1]
        for name in ("Lt", "Le", "Gt", "Ge"):
            attempt(R, name, [A, B], True if a == b else None if named(a, b) else False, ir.Bool)
        attempt(R, "Eq", [A, B], True, ir.Bool)
        attempt(R, "Implies", [A, B], a == ir.Bool and b == ir.Bool, ir.Bool)
        for c in TY:
            C = vs[c][2]
            attempt(R, "Ite", [C, A, B], False if c != ir.Bool else True if a == b else None if named(a, b) else False, a)
            attempt(R, "Let", [C, A, B], True, b)
        attempt(R, "TupleExpr", [A, B], True, ir.Tuple[tuple[a, b]])
        attempt(R, "TupleExpr", [A, B, A], True, ir.Tuple[tuple[a, b, a]])
        for r in TY:
            c = ir.Call("f", r, A, B)
            R.check(c.type == r and c.name() == "f" and list(c.arguments()) == [A, B] and c.args[0] == "f" and len(c.args) == 3, "Call:built", "Call built wrongly", f"f: {r} of {a}, {b}", r, c.type)
            f = ir.Var("fn", ir.Fn[tuple[r, a, b]])
            c = ir.CallValue(f, A, B)
            R.check(c.type == r and c.value() is f and list(c.arguments()) == [A, B], "CallValue:built", "CallValue built wrongly", f"{r} of {a}, {b}", r, c.type)
            for cls in (ir.FnDecl, ir.FnDeclRecursive):
                d = cls("f", r, A, A, B)
                R.check(d.name() == "f" and d.return_type() == r and d.body() is A and list(d.arguments()) == [A, B] and d.type == ir.Fn[tuple[r, a, b]],
                        f"{cls.__name__}:built", "declaration built wrongly", f"f: {r} of {a}, {b}", r, d.type)
                d.set_name("g"); d.set_body(B); d.set_arguments([B, A, B])
                R.check(d.name() == "g" and d.body() is B and len(d.arguments()) == 3 and d.arguments()[0] is B and d.arguments()[1] is A, f"{cls.__name__}:set", "setters", "set_*", "", d.args)
        s = ir.Synth("f", A, B)
        R.check(s.type == a and s.body() is A and list(s.arguments()) == [B] and s.name() == "f", "Synth:built", "Synth built wrongly", f"{a}", a, s.type)
        x = ir.Axiom(A, B)
        R.check(x.type == ir.Bool and x.e() is A and list(x.vars()) == [B], "Axiom:built", "Axiom built wrongly", f"{a}", a, x.type)
    for t in TY:
        attempt(R, "Not", [vs[t][0]], t == ir.Bool, ir.Bool)
