from .lib import *
import metalift.ir as ir
import metalift.synthesize_rosette as sr
from contracts.p10 import LIB, canonical
from contracts.irspec import Ty

SIZES = {"T": ir.Int}


def canon(t):
    """types up to: a matrix is a list of lists"""
    o, a = ir.get_origin(t), ir.get_args(t)
    if o is None:
        return t
    if o in (ir.Tuple, ir.Fn):
        return (o, tuple(canon(x) for x in ir.get_args(a[0])))
    r = canon(a[0])
    if o is ir.Set:
        return (o, r)
    for _ in range({ir.List: 1, ir.Matrix: 2, ir.Tensor3D: 3}[o]):
        r = (ir.List, r)
    return r


def same(a, b):
    """same expression, with the same types; list_eq is equality"""
    if isinstance(a, ir.Call) and a.name() == "list_eq":
        a = ir.Eq(*a.arguments())
    if isinstance(b, ir.Call) and b.name() == "list_eq":
        b = ir.Eq(*b.arguments())
    if isinstance(a, ir.Call) and a.name() == "make-tuple":
        a = ir.TupleExpr(*a.arguments())
    if isinstance(a, ir.CallValue):
        a = ir.Call(a.args[0].args[0], a.type, *a.args[1:])
    if type(a) is not type(b) or canon(a.type) != canon(b.type) or len(a.args) != len(b.args):
        return False
    return all(same(x, y) if isinstance(x, ir.Expr) and isinstance(y, ir.Expr) else type(x) is type(y) and x == y for x, y in zip(a.args, b.args))


def collect(r, fns, vs, bound=()):
    if r.op == "Var" and r[2] not in bound:
        vs[r[2]] = ty(r.t)
    if r.op in ("Call", "CallValue"):
        fns[r[2]] = ir.Fn[tuple[(ty(r.t),) + tuple(ty(k.t) for k in r[3:])]]
    if r.op == "Let":
        collect(r[3], fns, vs, bound)
        collect(r[4], fns, vs, bound + (r[2],))
        return
    for k in kids(r):
        collect(k, fns, vs, bound)


def as_racket(t):
    """Racket writes every bracket as a parenthesis"""
    return t.replace("[", "(").replace("]", ")")


def back(text, fns, vs, choices=None):
    ast = sr.generate_ast("(" + as_racket(text) + ")")[0][0]
    return sr.to_expr(ast, fns, vs, choices or {})


def skel(e):
    return f"{e} : {e.type}"


def roundtrip(R):
    for kind, r in cases(R.rng, 1200 if not R.thorough else 30000, 4):
        if R.over():
            return
        if "map-" in show(r):
            continue
        e = build(r)
        try:
            txt = e.to_rosette()
        except Exception:
            continue
        fns, vs = {}, {}
        collect(r, fns, vs)
        fns.pop("list_eq", None)
        before = (dict(fns), dict(vs))
        R.case(kind, txt)
        try:
            b = back(txt, fns, vs)
        except Exception as ex:
            R.violation(f"to_expr:{kind}", "reading back what was printed fails", txt, show(r), repr(ex))
            continue
        R.check(same(e, b), f"to_expr:{kind}", "reading back what was printed gives another expression", txt, f"{show(r)} : {e.type}", skel(b))
        R.check(before == (fns, vs), "to_expr:state", "reading changes the known variables or functions", txt, before, (fns, vs))


def z3ty(t, T):
    n = t.decl().name()
    if n in ("TInt", "TBool"):
        return {"TInt": ir.Int, "TBool": ir.Bool}[n]
    if n == "T":
        return T
    c = z3ty(t.children()[0], T)
    return {"TList": ir.List, "TMatrix": ir.Matrix, "TTensor3D": ir.Tensor3D, "TSet": ir.Set}[n][c]


def table(R):
    for head, (name, ts, res) in LIB.items():
        for T in (ir.Int, ir.Bool, ir.List[ir.Int]):
            ats = [z3ty(t, T) for t in ts]
            vs = {f"a{i}": t for i, t in enumerate(ats)}
            kind = f"lib/{head}"
            R.case(kind)
            txt = f"({' '.join([head] + list(vs))})"
            try:
                b = back(txt, {}, vs)
            except Exception as ex:
                R.violation(f"to_expr:{kind}", "library call cannot be read", txt, name, repr(ex))
                continue
            ok = type(b) is ir.Call and b.name() == name and [a.name() for a in b.arguments()] == list(vs) and all(a.type == t for a, t in zip(b.arguments(), ats))
            R.check(ok, f"to_expr:{kind}", "library call is read as another call", f"{txt} with {vs}", f"{name}{tuple(vs)}", skel(b))
            R.check(canon(b.type) == canon(z3ty(res, T)), f"to_expr:{kind}:type", "library call is given another type", f"{txt} with {vs}", z3ty(res, T), b.type)
    for n in (1, 2, 3, 4, 7):
        ts = [R.rng.choice([ir.Int, ir.Bool, ir.List[ir.Int]]) for _ in range(n)]
        t = ir.Tuple[tuple[tuple(ts)]]
        for i in range(n):
            R.case("tupleGet")
            try:
                b = back(f"(tupleGet t {i})", {}, {"t": t})
                R.check(type(b) is ir.Call and b.name() == "tupleGet" and b.type == ts[i] and b.arguments()[0].name() == "t" and b.arguments()[1].args[0] == i, "to_expr:tupleGet", "tupleGet is read wrongly", f"(tupleGet t {i}), t: {t}", ts[i], skel(b))
                b = back("(make-tuple " + " ".join(f"x{j}" for j in range(n)) + ")", {}, {f"x{j}": u for j, u in enumerate(ts)})
                R.check(type(b) is ir.TupleExpr and b.type == t and [a.name() for a in b.args] == [f"x{j}" for j in range(n)], "to_expr:make-tuple", "make-tuple is read wrongly", n, t, skel(b))
            except Exception as ex:
                R.violation("to_expr:tuple", "tuples cannot be read", f"component {i} of {n}", "a call", repr(ex))
    for v in [0, 1, 7, 10, 123456789012345678901234567890]:
        for s in (1, -1):
            R.case("number")
            try:
                b = back(str(v * s), {}, {})
                R.check(type(b) is ir.Lit and b.args[0] == v * s and type(b.args[0]) is int and b.type == ir.Int, "to_expr:number", "a number is read wrongly", v * s, v * s, skel(b))
            except Exception as ex:
                R.violation("to_expr:number", "a number cannot be read", v * s, v * s, repr(ex))
    for txt in ("(foo x)", "(list-gett x x)"):
        R.case("unknown")
        try:
            R.check(False, "to_expr:unknown", "an unknown function is accepted", txt, "an exception", back(txt, {}, {"x": ir.Int}))
        except Exception:
            pass
    # a variable shadowed by let
    R.case("let/shadow")
    try:
        b = back("(if (let ((x p)) x) (+ x 1) x)", {}, {"x": ir.Int, "p": ir.Bool})
        R.check(b.c().type == ir.Bool and b.c().args[2].type == ir.Bool and b.e2().type == ir.Int and b.e1().args[0].type == ir.Int, "to_expr:shadow", "the type of a let-bound variable leaks", "(if (let ((x p)) x) (+ x 1) x)", "x: Bool inside, Int outside", skel(b))
    except Exception as ex:
        R.violation("to_expr:shadow", "the type of a let-bound variable leaks", "(if (let ((x p)) x) (+ x 1) x)", "x: Bool inside, Int outside", repr(ex))


def nested(R):
    """every operand of every head may be compound: reading is compositional"""
    ops = {"+": ([ir.Int] * 2, ir.Int), "*": ([ir.Int] * 2, ir.Int), "-": ([ir.Int] * 2, ir.Int), "quotient-noerr": ([ir.Int] * 2, ir.Int), "remainder": ([ir.Int] * 2, ir.Int),
           "<": ([ir.Int] * 2, ir.Bool), "<=": ([ir.Int] * 2, ir.Bool), ">": ([ir.Int] * 2, ir.Bool), ">=": ([ir.Int] * 2, ir.Bool), "=": ([ir.Int] * 2, ir.Bool), "equal?": ([ir.Int] * 2, ir.Bool),
           "=>": ([ir.Bool] * 2, ir.Bool), "&&": ([ir.Bool] * 3, ir.Bool), "or": ([ir.Bool] * 3, ir.Bool), "!": ([ir.Bool], ir.Bool), "if": ([ir.Bool, ir.Int, ir.Int], ir.Int), "make-tuple": ([ir.Int, ir.Bool], None)}
    for head, (name, ts, res) in LIB.items():
        if ts:
            ops[head] = ([z3ty(t, ir.Int) for t in ts], z3ty(res, ir.Int))
    by = {}
    for h, (ts, res) in ops.items():
        if res is not None:
            by.setdefault(canon(res), []).append(h)
    n = 0
    for h, (ts, _) in ops.items():
        for pos in range(len(ts)):
            for inner in by.get(canon(ts[pos]), []):
                for const in (False, True):
                    vs = {f"a{i}": t for i, t in enumerate(ts)}
                    its, txts = ops[inner][0], [f"a{i}" for i in range(len(ts))]
                    vs.update({f"b{i}": t for i, t in enumerate(its)})
                    txts[pos] = f"({' '.join([inner] + [('2' if const and t == ir.Int else f'b{i}') for i, t in enumerate(its)])})"
                    txt = f"({' '.join([h] + txts)})"
                    R.case(f"nested/{h}", txt)
                    try:
                        b = back(txt, {}, vs)
                        parts = [back(t, {}, vs) if t.startswith("(") else ir.Var(t, vs[t]) for t in txts]
                    except Exception as ex:
                        R.violation(f"to_expr:nested:{h}", "an operator with a compound operand cannot be read", txt, "an expression", repr(ex))
                        continue
                    args = list(b.arguments()) if isinstance(b, ir.Call) else list(b.args)
                    R.check(len(args) == len(parts) and all(map(same, parts, args)), f"to_expr:nested:{h}", "the operands are read wrongly", f"{txt} with {vs}", [skel(x) for x in parts], skel(b))


# ------------------------------------------------------------------ grammars
def grammar(r, d, vs):
    """a random grammar: recipes with ("Choose", alternatives)"""
    if d == 0 or r.random() < .2:
        return r.choice([ir.Var("x", ir.Int), ir.Var("y", ir.Int), ir.IntLit(r.randrange(-3, 4))])
    k = r.random()
    if k < .55:
        n = r.choice([1, 1, 2, 3])
        return ir.Choose(*[grammar(r, d - 1, vs) for _ in range(n)])
    if k < .8:
        return r.choice([ir.Add, ir.Sub, ir.Mul])(grammar(r, d - 1, vs), grammar(r, d - 1, vs))
    return ir.Call("f", ir.Int, grammar(r, d - 1, vs))


def solve(r, ast, rules):
    """what is left of a grammar rule once the alternatives are chosen: rules
    with one alternative may stay as references"""
    if isinstance(ast, list):
        if len(ast) == 1 and ast[0] in rules:
            alts = rules[ast[0]]
            if len(alts) == 1 and r.random() < .6:
                return ast
            return solve(r, r.choice(alts), rules)
        return [solve(r, a, rules) for a in ast]
    return ast


def expand(ast, rules):
    if isinstance(ast, list):
        if len(ast) == 1 and ast[0] in rules:
            return expand(rules[ast[0]][0], rules)
        return [expand(a, rules) for a in ast]
    return ast


def unparse(x):
    return "(" + " ".join(map(unparse, x)) + ")" if isinstance(x, list) else x


def choices(R):
    r = R.rng
    fns = {"f": ir.Fn[tuple[ir.Int, ir.Int]]}
    vs = {"x": ir.Int, "y": ir.Int}
    for _ in range(400 if not R.thorough else 8000):
        if R.over():
            return
        g = grammar(r, 5, vs)
        s = ir.Synth("g", g, ir.Var("x", ir.Int), ir.Var("y", ir.Int))
        ch = {}
        try:
            x = one_sexpr(s.to_rosette(ch).replace("[", "(").replace("]", ")"))
        except Exception:
            continue
        rules = {d[0]: d[1][1:] for d in x[2:]}
        main = rules.pop("rv")
        sol = solve(r, r.choice(main), rules)
        R.case(f"grammar/{len(rules)}/{unparse(sol)[:60]}", unparse(sol))
        if not (isinstance(sol, list)):
            continue
        try:
            b = sr.to_expr(sr.generate_ast(unparse(["define", ["g", "x", "y"], sol]))[0], fns, vs, ch)
            want = sr.to_expr(expand(sol, rules), fns, vs, {}) if isinstance(expand(sol, rules), list) or True else None
        except Exception as ex:
            R.violation("to_expr:rule", "a solution with grammar rules left in it cannot be read", f"{unparse(sol)} with rules {rules}", unparse(expand(sol, rules)), repr(ex))
            continue
        R.check(same(want, b), "to_expr:rule", "a grammar rule left in a solution is read wrongly", f"{unparse(sol)} with rules {rules}", skel(want), skel(b))


# ------------------------------------------------------------ solution files
def layout(r, x, ind=0):
    """print a form over several lines, as Racket's pretty printer does"""
    if not isinstance(x, list) or len(unparse(x)) < r.choice([8, 20, 60]):
        return unparse(x)
    head = unparse(x[0])
    sep = "\n" + " " * (ind + 2)
    return "(" + head + " " + sep.join(layout(r, a, ind + 2) for a in x[1:]) + ")"


def files(R):
    r = R.rng
    for k in range(300):
        forms = []
        for i in range(r.randrange(1, 5)):
            e = ["define", [f"fn{i}", "x", "y"], r.choice([["+", "x", ["*", "y", "-3"]], ["if", ["<", "x", "y"], ["-", "x", "y"], ["list-ref-noerr", "l", ["+", "x", "1"]]], "x", ["&&", ["<=", "x", "y"], ["equal?", "x", "y"], ["or", "p", ["!", "q"]]]])]
            forms.append(e)
        text = []
        for i, e in enumerate(forms):
            text.append(f"/tmp/some/dir/f.rkt:{10 * i + 3}:0")
            text += (r.choice(["", "'"]) + layout(r, e)).split("\n")
        text += [""] * r.randrange(0, 3)
        R.case(f"file/{len(forms)}/{len(text)}", "\n".join(text))
        try:
            out = sr.parse_output(text)
            got = [sr.generate_ast(o[o.find("("):])[0] for o in out]
        except Exception as ex:
            R.violation("parse_output:fails", "a solution file cannot be read", "\n".join(text), forms, repr(ex))
            continue
        R.check(got == forms, "parse_output", "the forms of a solution file are read wrongly", "\n".join(text), forms, got)


def misc(R):
    l, m = ir.Var("l", ir.List[ir.Int]), ir.Var("m", ir.List[ir.Int])
    R.case("convert_expr")
    c = sr.convert_expr(ir.Call("list_eq", ir.Bool, l, m))
    R.check(type(c) is ir.Eq and list(c.args) == [l, m], "convert_expr", "list_eq is not turned into equality", "list_eq(l, m)", "Eq(l, m)", c)
    for e in (ir.Call("list_get", ir.Int, l, ir.IntLit(0)), ir.Eq(l, m), l):
        R.check(sr.convert_expr(e) is e, "convert_expr:other", "another expression is changed", e, e, sr.convert_expr(e))
    ds = [ir.FnDecl("f", ir.Bool, ir.BoolLit(True), ir.Var("x", ir.Int)), ir.FnDeclRecursive("g", ir.Int, None, l), ir.Var("v", ir.Bool), ir.Int("i"), ir.Matrix(ir.Int, "mm")]
    R.case("generate_types")
    got = sr.generate_types(ds)
    want = {"f": ir.Fn[tuple[ir.Bool, ir.Int]], "g": ir.Fn[tuple[ir.Int, ir.List[ir.Int]]], "v": ir.Bool, "i": ir.Int, "mm": ir.Matrix[ir.Int]}
    R.check(got == want, "generate_types", "declared types", list(want), want, got)


def run(R):
    misc(R)
    table(R)
    nested(R)
    files(R)
    choices(R)
    roundtrip(R)
