from .lib import *
import metalift.ir as ir


def subst_skel(s, m):
    """rename: structure with variables replaced (m: name -> skel)"""
    if s[0] == "Var":
        n = s[2][1]
        return m.get(n, s)
    if len(s) == 2:
        return s
    return s[:2] + tuple(subst_skel(x, m) if isinstance(x, tuple) and len(x) > 2 else x for x in s[2:])


def count(s, d):
    if s[0] == "Var":
        d[s[2][1]] = d.get(s[2][1], 0) + 1
        return
    for x in s[2:]:
        if isinstance(x, tuple) and len(x) > 2:
            count(x, d)


def wrap(a):
    """some other expression of the type of a"""
    return ir.Call("img", a.type, a)


def run(R):
    rng = R.rng
    n = 1200 if not R.thorough else 20000
    for kind, r in cases(rng, n, 4):
        if R.over():
            break
        e = build(r)
        R.case(kind, show(r))
        before = skel(e)
        try:
            primitives(R, kind, r, e, rng)
        except Exception as ex:
            R.violation(f"rewriting:{kind}", "a rewriting primitive raises", show(r), "no exception", repr(ex))
        if skel(e) != before:
            R.violation(f"frame:{kind}", "a rewriting primitive changed its argument", show(r), before, skel(e))
    choices(R)
    decls(R)


def primitives(R, kind, r, e, rng):
    # map_args with a function that is not the identity
    seen = []

    def f(a):
        if isinstance(a, ir.Expr):
            seen.append(a)
            return wrap(a)
        return a
    binder = isinstance(e, (ir.Let, ir.CallValue))
    if not binder:
        g = e.map_args(f)
        want = skel(e)[:2] + tuple(skel(wrap(a)) if isinstance(a, ir.Expr) else skel(a) for a in e.args)
        R.check(skel(g) == want, f"map_args:{kind}", "map_args", show(r), want, skel(g))
    g = e.map_args(lambda a: a)
    R.check(skel(g) == skel(e), f"map_args:id:{kind}", "map_args with the identity", show(r), skel(e), skel(g))
    # counting
    d, w = {"x": 5, "other": 2}, {"x": 5, "other": 2}
    e.count_variable_uses(d)
    count(skel(e), w)
    R.check(d == w, f"count:{kind}", "count_variable_uses", show(r), w, d)
    # rewrite: simultaneous
    if not has_op(r, ("Let",)):
        m = {"x": ir.Add(ir.Var("y", ir.Int), ir.IntLit(1)), "y": ir.Var("x", ir.Int), "p": ir.Not(ir.Var("q", ir.Bool)),
             "l": ir.Call("list_tail", ir.List[ir.Int], ir.Var("l", ir.List[ir.Int]), ir.IntLit(1))}
        for keys in (["x", "y", "p", "l"], ["x"], ["y", "p"], []):
            mm = {k: m[k] for k in keys}
            got = e.rewrite(mm)
            want = subst_skel(skel(e), {k: skel(v) for k, v in mm.items()})
            R.check(skel(got) == want, f"rewrite:{kind}", "rewrite", f"{show(r)} with {mm}", want, skel(got))
            R.check(set(mm) == set(keys), f"rewrite:map:{kind}", "rewrite changes the mapping", show(r), keys, list(mm))
    # replaceExprs / putting the replaced expressions back
    # a function's name is a variable of a function type; it is not replaced here
    ns = [x for x in all_nodes(e) if not isinstance(x, ir.Var) or (rng.random() < 0.3 and ir.get_origin(x.type) is not ir.Fn)]
    pick = []
    for x in rng.sample(ns, min(len(ns), 3)):
        if not any(skel(x) == skel(y) for y in pick):
            pick.append(x)
    for mode, name in ((ir.PrintMode.SMT, "v%d"), (ir.PrintMode.Rosette, "(v%d)")):
        got = ir.Expr.replaceExprs(e, pick, mode)

        def want(s, top=False):
            for i, x in enumerate(pick):
                if skel(x) == s and not top:
                    return ("Var", s[1], ("str", name % i))
            if len(s) == 2:
                return s
            return s[:2] + tuple(want(x) if isinstance(x, tuple) else x for x in s[2:])
        R.check(skel(got) == want(skel(e)), f"replace:{kind}", "replaceExprs", f"{show(r)} replacing {[str(x) for x in pick]}", want(skel(e)), skel(got))
        got = ir.Expr.replaceExprs(e, pick, mode, skipTop=True)
        R.check(skel(got) == want(skel(e), True), f"replace:skip:{kind}", "replaceExprs skipTop", f"{show(r)} replacing {[str(x) for x in pick]}", want(skel(e), True), skel(got))


def choices(R):
    x, y, p = ir.Var("x", ir.Int), ir.Var("y", ir.Int), ir.Var("p", ir.Bool)
    C = ir.Choose
    es = [C(x, y), C(ir.IntLit(3), x, y), ir.Add(C(x, y), C(ir.IntLit(1), y)), ir.Ite(C(p, ir.Not(p)), C(x, y), ir.Sub(C(y, x), x)),
          ir.Call("f", ir.Int, C(x, y), p), ir.And(C(p, ir.BoolLit(True)), ir.Implies(p, C(ir.Not(p), p))), ir.Let(ir.Var("w", ir.Int), C(x, y), ir.Var("w", ir.Int)),
          ir.TupleExpr(C(x, y), p), C(C(x, y), ir.IntLit(0))]

    def opts(s):
        if s[0] == "Choose":
            return [o for k in s[2:] for o in [k] + opts(k)]
        if len(s) == 2:
            return [s]
        out = [s[:2]]
        for k in s[2:]:
            out = [o + (v,) for o in out for v in (opts(k) if isinstance(k, tuple) else [k])]
        return out
    for e in es:
        R.case("choose:" + str(e))
        try:
            g = skel(e.chooseArbitrarily())
            R.check(g in opts(skel(e)), "choose:" + str(e), "chooseArbitrarily", str(e), "one of the alternatives", g)
        except Exception as ex:
            R.violation("choose:" + str(e), "chooseArbitrarily raises", str(e), "an alternative", repr(ex))


def decls(R):
    x, p = ir.Var("x", ir.Int), ir.Var("p", ir.Bool)
    for cls in (ir.FnDecl, ir.FnDeclRecursive):
        for ps in ((), (x,), (x, p)):
            for ret, b in ((ir.Int, ir.Add(x, ir.IntLit(1))), (ir.Bool, ir.Not(p)), (ir.List[ir.Int], ir.Call("list_empty", ir.List[ir.Int]))):
                d = cls("fn", ret, b, *ps)
                kind = f"map_args:{cls.__name__}/{len(ps)}/{ret}"
                R.case(kind)
                try:
                    g = d.map_args(lambda a: wrap(a) if isinstance(a, (ir.Add, ir.Not, ir.Call)) else ir.Var(a.args[0] + "2", a.type))
                    want = cls("fn", ret, wrap(b), *[ir.Var(a.args[0] + "2", a.type) for a in ps])
                    R.check(skel(g) == skel(want) and g.return_type() == ret, kind, "map_args of a declaration", kind, skel(want), skel(g))
                    dd = {}
                    d.count_variable_uses(dd)
                    w = {}
                    count(("X", "") + tuple(skel(a) for a in d.args[1:]), w)
                    R.check(dd == w, "count:" + kind, "count_variable_uses of a declaration", kind, w, dd)
                    rw = d.rewrite({"x": ir.Var("z", ir.Int)})
                    w2 = cls("fn", ret, b.rewrite({"x": ir.Var("z", ir.Int)}), *[a.rewrite({"x": ir.Var("z", ir.Int)}) for a in ps])
                    R.check(skel(rw) == skel(w2), "rewrite:" + kind, "rewrite of a declaration", kind, skel(w2), skel(rw))
                except Exception as ex:
                    R.violation(kind, "map_args raises", kind, "a declaration", repr(ex))
    for vs in ((), (x,), (x, p)):
        kind = f"map_args:Synth/{len(vs)}"
        R.case(kind)
        try:
            a = ir.Synth("fn", ir.Choose(ir.Lt(x, ir.IntLit(2)), p), *vs)
            g = a.map_args(lambda v: wrap(v) if not isinstance(v, ir.Var) else ir.Var(v.args[0] + "2", v.type))
            want = ir.Synth("fn", wrap(a.body()), *[ir.Var(v.args[0] + "2", v.type) for v in vs])
            R.check(skel(g) == skel(want), kind, "map_args of a function to synthesize", kind, skel(want), skel(g))
        except Exception as ex:
            R.violation(kind, "map_args raises", kind, "a function to synthesize", repr(ex))
    for vs in ((), (x,), (x, p)):
        a = ir.Axiom(ir.Implies(p, ir.Lt(x, ir.IntLit(2))), *vs)
        kind = f"map_args:Axiom/{len(vs)}"
        R.case(kind)
        try:
            g = a.map_args(lambda v: wrap(v) if not isinstance(v, ir.Var) else ir.Var(v.args[0] + "2", v.type))
            want = ir.Axiom(wrap(a.e()), *[ir.Var(v.args[0] + "2", v.type) for v in vs])
            R.check(skel(g) == skel(want), kind, "map_args of an axiom", kind, skel(want), skel(g))
        except Exception as ex:
            R.violation(kind, "map_args raises", kind, "an axiom", repr(ex))
