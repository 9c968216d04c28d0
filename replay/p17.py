"""SyGuS solutions: printed expressions are read back, lines with several functions,
a solver that ends"""
import contextlib
import io
import subprocess
from .lib import *
from .p10 import canon, same, collect
import metalift.ir as ir
import metalift.synthesize_cvc5 as s5

I, B = ir.Int, ir.Bool


def norm(e, env):
    """let variables replaced by their values, negative numerals as differences"""
    if not isinstance(e, ir.Expr):
        return e
    if isinstance(e, ir.Var):
        return env.get(e.args[0], e)
    if isinstance(e, ir.Let):
        return norm(e.args[2], {**env, e.args[0].args[0]: norm(e.args[1], env)})
    if isinstance(e, ir.Lit):
        if e.type is I and e.args[0] < 0:
            return ir.Sub(ir.Lit(0, I), ir.Lit(-e.args[0], I))
        return e
    if isinstance(e, ir.CallValue):
        return ir.Call(e.args[0].args[0], e.type, *[norm(a, env) for a in e.args[1:]])
    return e.map_args(lambda a: norm(a, env))


def minus(e):
    """the same, of what was read (another way to write a negative number)"""
    return norm(e, {})


def roundtrip(R):
    for kind, r in cases(R.rng, 800 if not R.thorough else 20000, 4):
        if R.over():
            return
        if "map-" in show(r) or "f()" in show(r) or "list_empty" in show(r):
            continue
        e = build(r)
        try:
            txt = e.toSMT()
        except Exception:
            continue
        fns, vs = {}, {}
        collect(r, fns, vs)
        for n in ("list_eq", "make-tuple", "tupleGet", "set-member", "set-insert", "set-union"):
            fns.pop(n, None)
        names, types = list(fns), list(fns.values())
        before = (list(names), list(types), dict(vs))
        R.case(kind, txt)
        try:
            ast = s5.generateAST("(" + txt + ")")[0][0]
            b = s5.toExpr(ast, names, types, vs, {})
        except Exception as ex:
            R.violation(f"toExpr:{kind}", "reading back what was printed fails", txt, show(r), repr(ex))
            continue
        w = norm(e, {})
        R.check(same(w, minus(b)), f"toExpr:{kind}", "reading back what was printed gives another expression", txt, f"{w} : {w.type}", f"{b} : {b.type}")
        R.check(before == (names, types, vs), "toExpr:state", "reading changes the known variables or functions", txt, before, (names, types, vs))


def heads(R):
    """every operator of a solution with the number of operands it takes"""
    x = {n: I for n in "xyzu"}
    x.update({n: B for n in "abcd"})
    x.update({n: ir.Set[I] for n in ("s", "t")})
    V = lambda n: ir.Var(n, x[n])
    S = ir.Set[I]
    C = lambda n, t, *a: ir.Call(n, t, *a)
    T = []
    for h, c in (("+", ir.Add), ("*", ir.Mul)):
        for k in (2, 3, 4):
            T.append((f"({h} {' '.join('xyzu'[:k])})", c(*[V(n) for n in "xyzu"[:k]])))
    for h, c in (("and", ir.And), ("or", ir.Or)):
        for k in (2, 3, 4):
            T.append((f"({h} {' '.join('abcd'[:k])})", c(*[V(n) for n in "abcd"[:k]])))
    for h, c in (("-", ir.Sub), ("div", ir.Div), ("mod", ir.Mod), ("<", ir.Lt), ("<=", ir.Le), (">", ir.Gt), (">=", ir.Ge), ("=", ir.Eq)):
        T.append((f"({h} x y)", c(V("x"), V("y"))))
    T += [("(=> a b)", ir.Implies(V("a"), V("b"))), ("(not a)", ir.Not(V("a"))), ("(ite a x y)", ir.Ite(V("a"), V("x"), V("y"))), ("(- x)", ir.Sub(ir.Lit(0, I), V("x"))),
          ("(- 7)", ir.Sub(ir.Lit(0, I), ir.Lit(7, I))), ("12", ir.Lit(12, I)), ("true", ir.Lit(True, B)), ("false", ir.Lit(False, B)),
          ("(as set.empty (Set Int))", C("set-create", S)), ("(set.singleton x)", C("set-singleton", S, V("x"))), ("(set.insert x s)", C("set-insert", S, V("x"), V("s"))),
          ("(set.union s t)", C("set-union", S, V("s"), V("t"))), ("(set.minus s t)", C("set-minus", S, V("s"), V("t"))),
          ("(set.subset s t)", C("set-subset", B, V("s"), V("t"))), ("(set.member x s)", C("set-member", B, V("x"), V("s"))), ("(set.eq s t)", ir.Eq(V("s"), V("t"))),
          ("(let ((v (+ x y))) (* v (let ((v (- v z))) (+ v u))))", ir.Mul(ir.Add(V("x"), V("y")), ir.Add(ir.Sub(ir.Add(V("x"), V("y")), V("z")), V("u")))),
          ("(let ((x y)) (let ((y x)) (- x y)))", ir.Sub(V("y"), V("y"))),
          ("(let ((_let_1 (= x y))) (or _let_1 (and _let_1 a)))", ir.Or(ir.Eq(V("x"), V("y")), ir.And(ir.Eq(V("x"), V("y")), V("a"))))]
    for k in range(1, 6):
        ts = [(I, B)[R.rng.randrange(2)] for _ in range(k)]
        ops = [("xyzu"[R.rng.randrange(4)] if t is I else "abcd"[R.rng.randrange(4)]) for t in ts]
        T.append((f"(tuple{k} {' '.join(ops)})", ir.TupleExpr(*[V(n) for n in ops])))
        x[f"tt{k}"] = ir.Tuple[tuple[tuple(ts)]]
        for j in range(k):
            T.append((f"(tuple{k}_get{j} tt{k})", C("tupleGet", ts[j], V(f"tt{k}"), ir.Lit(j, I))))
    for txt, w in T:
        R.case("head/" + txt.split()[0].strip("("), txt)
        try:
            b = s5.toExpr(s5.generateAST("(" + txt + ")")[0][0], [], [], dict(x), {})
        except Exception as ex:
            R.violation("toExpr:" + txt.split()[0].strip("()"), "a solution can be read", txt, w, repr(ex))
            continue
        R.check(same(w, b), "toExpr:" + txt.split()[0].strip("()"), "what was read", txt, f"{w} : {w.type}", f"{b} : {b.type}")
    for txt in ("(foo x)", "(bar)"):
        try:
            b = s5.toExpr(s5.generateAST("(" + txt + ")")[0][0], ["f"], [ir.Fn[tuple[I, I]]], dict(x), {})
            R.violation("toExpr:unknown", "an unknown function is refused", txt, "an exception", b)
        except Exception:
            pass


def lines(R):
    pool = ["f_ps", "inv0", "s", "sygus", "can", "date", "x", "inv1", "f", "f_ps_1"]
    for k in range(120 if not R.thorough else 3000):
        if R.over():
            return
        n = R.rng.randint(1, 4)
        names = R.rng.sample(pool, n)
        synths, bodies = [], {}
        for i, nm in enumerate(names):
            ps = [ir.Var(p, t) for p, t in R.rng.sample([("x", I), ("y", I), ("r", I), ("b", B)], R.rng.randint(1, 3))]
            ints = [p for p in ps if p.type is I] or [ir.Lit(3, I)]
            synths.append(ir.Synth(nm, ir.Eq(ints[0], ints[-1]), *ps))
            body = R.rng.choice([ir.Eq(ints[0], ir.Add(ints[-1], ir.Lit(i, I))), ir.Lt(ints[-1], ir.Lit(i + 5, I)), ir.Lit(bool(i % 2), B)])
            if R.rng.random() < 0.4:
                o = R.rng.choice(synths)
                body = ir.And(body, ir.Call(o.args[0], B, *[ints[0] if p.type is I else ir.Lit(True, B) for p in o.args[2:]]))
            if R.rng.random() < 0.4:
                body = ir.Or(body, ir.Eq(ir.Call("dsl", I, ints[0]), ints[-1]))
            bodies[nm] = body
        order = list(names)
        R.rng.shuffle(order)
        line = "(sygus-candidate " + "".join(f"({nm} {bodies[nm].toSMT()})" + R.rng.choice(("", " ")) for nm in order) + ")\n"
        R.case("line", line)
        fn, ty = ["dsl"], [ir.Fn[tuple[I, I]]]
        try:
            cs, d = s5.generateCandidates(list(synths), line, fn, ty)
        except Exception as ex:
            R.violation("candidates:raises", "a line of functions can be read", line, "functions", repr(ex))
            continue
        R.check([c.args[0] for c in cs] == names and all(isinstance(c, ir.FnDeclRecursive) for c in cs), "candidates:names", "one definition for each function, in the order given", line, names, cs)
        R.check(set(d) == set(names), "candidates:dict", "bodies by name", line, names, list(d))
        for c, s in zip(cs, synths):
            R.check(same(bodies[c.args[0]], c.args[1]) if c.args[0] in bodies else False, "candidates:body", "each function has its body", line, bodies.get(c.args[0]), c.args[1])
            R.check([a.args[0] for a in c.args[2:]] == [a.args[0] for a in s.args[2:]] and [a.type for a in c.args[2:]] == [a.type for a in s.args[2:]], "candidates:parameters", "each function has its parameters", line, s, c)
            R.check(c.args[0] in d and d[c.args[0]] is not None and same(c.args[1], d[c.args[0]]), "candidates:dict", "bodies by name", line, c.args[1], d.get(c.args[0]))
        R.check(fn == ["dsl"] and len(ty) == 1, "candidates:state", "the functions known are left alone", line, ["dsl"], fn)
    axiom = ir.Axiom(ir.Eq(ir.Var("x", I), ir.Var("x", I)), ir.Var("x", I))
    f = ir.FnDecl("f", I, ir.Var("x", I), ir.Var("x", I))
    g = ir.FnDeclRecursive("g", B, ir.Lit(True, B), ir.Var("x", I))
    try:
        n, t = s5.extractFuns([f, axiom, g])
        R.check(list(n) == ["f", "g"] and [ir.get_fn_return_type(x) for x in t] == [I, B], "functions", "the functions of the language", "f, axiom, g", ["f", "g"], (n, t))
    except Exception as ex:
        R.violation("functions:raises", "the functions of the language", "f, axiom, g", "f, g", repr(ex))


class Endless(BaseException):
    pass


def ends(R):
    """a solver that ends, in different ways, without (or with) a solution"""
    x, r = ir.Var("x", I), ir.Var("r", I)
    ps = ir.Synth("f_ps", ir.Choose(ir.Eq(r, x), ir.Eq(r, ir.Add(x, ir.Lit(1, I)))), x, r)
    vc = ir.Call("f_ps", B, x, ir.Add(x, ir.Lit(1, I)))
    good = "(sygus-candidate (f_ps (= r (+ x 1))))\n"
    for out, code, answer, want in (("infeasible\n", 0, "", None), (good + "infeasible\n", 0, "", None), ("", 1, "", None), ("", 0, "", None), ("unknown\n", 0, "", None), ("fail\n", 0, "", None),
                                    (good, -9, "", None), ("", -15, "", None), (good + "(\n(define-fun ...)\n)\n", 0, "unsat\n", True), ("(sygus-enum (= r x))\n" + good + "(\n", 0, "sat\n", None)):
        R.case("end", out)

        class P:
            returncode = code
            pid = 0
            stderr = io.BytesIO(b"")

            def __init__(self, *a, **k):
                self.over = 0
                data = io.BytesIO(out.encode())
                me = self

                class F:
                    def readline(self, *a):
                        l = data.readline()
                        me.over += not l
                        if me.over > 1000:
                            raise Endless()
                        return l

                    def __iter__(self):
                        return iter(data)

                    def read(self, *a):
                        return data.read(*a)

                    def close(self):
                        pass
                self.stdout = F()

            def poll(self):
                return code

            def wait(self, *a, **k):
                return code

            def terminate(self):
                pass
            kill = terminate

            def communicate(self, *a, **k):
                return self.stdout.read(), b""

        class Run:
            returncode = 0
            stdout = answer.encode()
        real = subprocess.Popen, subprocess.run
        subprocess.Popen, subprocess.run = P, lambda *a, **k: Run()
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    got = s5.synthesize("job", [], {x}, [ps], [], vc, [ps], "cvc5")
                except Endless:
                    got = "does not end"
                except Exception as ex:
                    got = type(ex).__name__
        finally:
            subprocess.Popen, subprocess.run = real
        if want is None:
            R.check(got in ("SynthesisFailed", "VerificationFailed"), "synthesize:end", "a run without a proved solution fails", repr((out, code, answer)), "SynthesisFailed or VerificationFailed", got)
        else:
            R.check(isinstance(got, list) and len(got) == 1 and str(got[0].args[1]) == str(ir.Eq(r, ir.Add(x, ir.Lit(1, I)))), "synthesize:solution", "the proved solution is returned", repr((out, code, answer)), "f_ps", str(got))


def run(R):
    heads(R)
    lines(R)
    ends(R)
    roundtrip(R)
