I = "metalift/ir.py"

seed("s01-smt-tuple-get-arity", "P01", [(I, '''                    length = len(get_args(get_args(self.args[idx + 1].type)[0]))
                    retVal.append(f"tuple{length}_get{index}")''', '''                    length = max(index + 1, 2)
                    retVal.append(f"tuple{length}_get{index}")''')],
     '''import metalift.ir as ir
t = ir.Call("uf", ir.Tuple[tuple[ir.Int, ir.Int, ir.Int, ir.Int]], ir.Var("x", ir.Int))
s = ir.Call("tupleGet", ir.Int, t, ir.IntLit(1)).toSMT()
assert s == "(tuple4_get1 (uf x))", s
''', "a tupleGet of a non-last component of a tuple with more than two components that is neither a literal tuple nor a Tuple object",
     "the SMT selector of a smaller tuple is applied to a larger one")
seed("s02-smt-let-nested", "P01", [(I, '''        return "(let ((%s %s)) %s)" % (
            self.args[0].toSMT(),
            self.args[1].toSMT(),
            self.args[2].toSMT(),
        )''', '''        if isinstance(self.args[2], Let):
            # bind a chain of lets at once
            inner = self.args[2]
            return "(let ((%s %s) (%s %s)) %s)" % (
                self.args[0].toSMT(),
                self.args[1].toSMT(),
                inner.args[0].toSMT(),
                inner.args[1].toSMT(),
                inner.args[2].toSMT(),
            )
        return "(let ((%s %s)) %s)" % (
            self.args[0].toSMT(),
            self.args[1].toSMT(),
            self.args[2].toSMT(),
        )''')],
     '''import metalift.ir as ir
a, b = ir.Var("a", ir.Int), ir.Var("b", ir.Int)
s = ir.Let(a, ir.IntLit(1), ir.Let(b, ir.Add(a, a), b)).toSMT()
assert s.count("let") == 2, s
''', "a let directly inside a let whose inner bound term mentions the outer variable", "SMT-LIB let binds in parallel, so the inner binding reads a free variable")
seed("s03-ros-nested-concat", "P02", [(I, """                for a in self.args[1:]:
                    if isinstance(a, ValueRef) and a.name != "":
                        callStr += "%s " % (a.name)
                    else:
                        callStr += a.to_rosette() + " "
                callStr += ")"
                return callStr
            elif self.name() == "ite":
                args = self.arguments()
                return Ite(args[0], args[1], args[2]).to_rosette()
            else:
                return (
                    "("
                    + " ".join(
                        [
                            a.name
                            if isinstance(a, ValueRef) and a.name != ""
                            else a
                            if isinstance(a, str)
                            else a.to_rosette()
                            for a in self.args
                        ]
                    )
                    + ")"
                )
        else:
            return " ".join(
                [
                    a.name
                    if isinstance(a, ValueRef) and a.name != ""
                    else str(a)
                    if isinstance(a, str)
                    else a.to_rosette()
                    for a in self.args
                ]
            )

    def toSMT(self) -> str:
        noParens = isinstance(self, Call) and len(self.args) == 1""", """                operands = self.args[1:]
                if self.args[0] in ("list_take", "list_tail") and isinstance(
                    operands[0], Call
                ):
                    inner = operands[0]
                    if inner.name() == self.args[0] == "list_take":
                        # a take of a take is a take of the length asked for
                        operands = [inner.args[1], operands[1]]
                for a in operands:
                    if isinstance(a, ValueRef) and a.name != "":
                        callStr += "%s " % (a.name)
                    else:
                        callStr += a.to_rosette() + " "
                callStr += ")"
                return callStr
            elif self.name() == "ite":
                args = self.arguments()
                return Ite(args[0], args[1], args[2]).to_rosette()
            else:
                return (
                    "("
                    + " ".join(
                        [
                            a.name
                            if isinstance(a, ValueRef) and a.name != ""
                            else a
                            if isinstance(a, str)
                            else a.to_rosette()
                            for a in self.args
                        ]
                    )
                    + ")"
                )
        else:
            return " ".join(
                [
                    a.name
                    if isinstance(a, ValueRef) and a.name != ""
                    else str(a)
                    if isinstance(a, str)
                    else a.to_rosette()
                    for a in self.args
                ]
            )

    def toSMT(self) -> str:
        noParens = isinstance(self, Call) and len(self.args) == 1""")],
     """import metalift.ir as ir
L = ir.List[ir.Int]
t = ir.Call("list_take", L, ir.Var("l", L), ir.IntLit(2))
s = ir.Call("list_take", L, t, ir.IntLit(3)).to_rosette()
assert s.count("list-take-noerr") == 2, s
""", "a take directly inside a take that asks for more elements than the inner one left", "the inner take is dropped, so more elements are taken")
seed("s04-py-ite-group", "P03", [(I, '''            return f"{processed_args[0]}[{processed_args[1]}:{processed_args[1]}+{processed_args[2]}]"''',
     '''            return f"{processed_args[0]}[{processed_args[1]}:][:{processed_args[2]}]" if len(processed_args) == 2 else f"{processed_args[0]}[{processed_args[1]}:{processed_args[2]}]"''')],
     '''import metalift.ir as ir
l = ir.Var("l", ir.List[ir.Int])
s = ir.Call("vec_slice_with_length", ir.List[ir.Int], l, ir.IntLit(1), ir.IntLit(2)).to_python()
assert eval(s, {"l": [1, 2, 3, 4]}) == [2, 3], s
''', "a slice with length that does not start at zero", "the length is used as the end of the slice")
seed("s05-rewrite-chained", "P04", [(I, '''            if self.args[0] in mappings:
                return mappings[self.args[0]]
            else:
                return self''', '''            if self.args[0] in mappings:
                # the image may mention mapped variables itself
                rest = {k: v for k, v in mappings.items() if k != self.args[0]}
                return mappings[self.args[0]].rewrite(rest)
            else:
                return self''')],
     '''import metalift.ir as ir
x, y = ir.Var("x", ir.Int), ir.Var("y", ir.Int)
e = ir.Sub(x, y).rewrite({"x": y, "y": x})
assert e.args[0].args[0] == "y" and e.args[1].args[0] == "x", e
''', "a mapping whose images mention other mapped variables", "substitution is no longer simultaneous")
seed("s06-replace-skiptop-leaks", "P04", [(I, "newArgs = [Expr.replaceExprs(arg, commonExprs, mode) for arg in e.args]",
     '''newArgs = [
                    Expr.replaceExprs(arg, commonExprs, mode, skipTop and len(e.args) == 1)
                    for arg in e.args
                ]''')],
     '''import metalift.ir as ir
p, q = ir.Var("p", ir.Bool), ir.Var("q", ir.Bool)
a = ir.And(p, q)
e = ir.Not(a)
r = ir.Expr.replaceExprs(e, [e, a], ir.PrintMode.SMT, skipTop=True)
assert isinstance(r.args[0], ir.Var) and r.args[0].args[0] == "v1", r
''', "skipTop on a one-operand expression whose operand is itself listed", "the operand of the skipped expression is not replaced by its name")
seed("s07-knowledge-from-or", "P05", [(I, '''        elif isinstance(self, And):
            for a in self.args:
                if isinstance(a, Expr):
                    a.collectKnowledge(constrained_elsewhere, into, conflicts)''', '''        elif isinstance(self, (And, Or)):
            for a in self.args:
                if isinstance(a, Expr):
                    a.collectKnowledge(constrained_elsewhere, into, conflicts)''')],
     '''import metalift.ir as ir
a, p = ir.Var("a", ir.Int), ir.Var("p", ir.Bool)
e = ir.Implies(ir.Or(ir.Eq(a, ir.IntLit(1)), p), ir.Gt(a, ir.IntLit(0)))
c = {}
e.count_variable_uses(c)
d = {}
e.optimize_useless_equality(c, set()).count_variable_uses(d)
assert "a" in d, d
''', "an equality inside a disjunction in the antecedent of an implication", "the equality is treated as always true, so the optimised condition is easier than the original")
seed("s08-useless-eq-names", "P05", [(I, 'Var("useless_equality_%d" % len(new_vars), Bool)', 'Var("useless_equality_%d" % len(counts), Bool)')],
     '''import metalift.ir as ir
a, b = ir.Var("a", ir.Int), ir.Var("b", ir.Int)
e = ir.Or(ir.Eq(a, ir.IntLit(1)), ir.Not(ir.Eq(b, ir.IntLit(2))))
c = {}
e.count_variable_uses(c)
o = e.optimize_useless_equality(c, set())
assert o.args[0].args[0] != o.args[1].args[0].args[0], o
''', "two droppable equalities in one condition", "independent equalities share one variable: a = 1 or b != 2 becomes u or not u, valid")
seed("s09-eq-prefix", "P06", [(I, '''                or len(self.args) != len(other.args)
            ):''', '''                or len(self.args) > len(other.args)
            ):''')],
     '''import metalift.ir as ir
x, y, z = (ir.Var(n, ir.Bool) for n in "xyz")
assert not ir.Expr.__eq__(ir.And(x, y), ir.And(x, y, z))
assert not ir.Expr.__eq__(ir.And(x, y, z), ir.And(x, y))
''', "two n-ary expressions of which one is a prefix of the other, compared in one direction", "And(x, y) equals And(x, y, z): equality is not symmetric and merges different expressions")

seed("s10-ctor-or-middle", "P08", [(I, '''        if not all(map(lambda e: e.type == Bool, args)):
            raise Exception(
                f"Cannot apply OR to values of type {map(lambda e: e.type, args)}"''', '''        if not (args[0].type == Bool and args[-1].type == Bool):
            raise Exception(
                f"Cannot apply OR to values of type {map(lambda e: e.type, args)}"''')],
     '''import metalift.ir as ir
b, x = ir.Var("b", ir.Bool), ir.Var("x", ir.Int)
try:
    ir.Or(b, x, b)
except Exception:
    pass
else:
    raise SystemExit("Or accepts an integer operand")
''', "an ill-typed operand strictly between the first and the last of a disjunction of three or more", "a disjunction holding an integer is built")
seed("s11-tensor-prepend", "P07", [(I, '''        self.src = call("tensor3d_prepend", self.type, value, self).src
        return self''', '''        self.src = call("tensor3d_prepend", self.type, self, value).src
        return self''')],
     '''import metalift.ir as ir
t = ir.Tensor3D(ir.Int, "t")
t.prepend(ir.Matrix(ir.Int, "m"))
assert [a.name() for a in t.src.arguments()] == ["m", "t"], t.src
''', "prepend on a 3D tensor", "the operands of tensor3d_prepend are swapped")
seed("s12-matrix-div-scalar", "P07", [(I, '''        if isinstance(second, Int):
            return call("matrix_scalar_div", Matrix[Int], second, first)
        return call("matrix_elemwise_div", Matrix[Int], first, second)''', '''        if isinstance(second, Int):
            return call("scalar_matrix_div", Matrix[Int], second, first)
        return call("matrix_elemwise_div", Matrix[Int], first, second)''')],
     '''import metalift.ir as ir
r = ir.Matrix.div(ir.Matrix(ir.Int, "m"), 3)
assert r.src.args[0] == "matrix_scalar_div", r.src
''', "dividing a matrix by a scalar on its right", "m / s becomes s / m")
seed("s13-is-pointer-matrix", "P09", [(I, '''def is_primitive_type(ty: Union[type, _GenericAlias]) -> bool:
    return ty == Int or ty == Bool''', '''def is_primitive_type(ty: Union[type, _GenericAlias]) -> bool:
    return ty in (Int, Bool, Set[Int])''')],
     '''import metalift.ir as ir
assert ir.is_pointer_type(ir.Set[ir.Int])
''', "a set of integers", "a set is taken for a primitive type")
seed("s14-set-of-sets-sort", "P09", [(I, '''            return f"(Set {get_origin(contained_type).toSMTType(get_args(contained_type))})"  # type: ignore # this''', '''            return f"(Set {get_origin(contained_type).cls_str(get_args(contained_type))})"  # type: ignore # this''')],
     '''import metalift.ir as ir
t = ir.Set[ir.List[ir.Int]]
assert t.toSMTType(ir.get_args(t)) == "(Set (MLList Int))", t.toSMTType(ir.get_args(t))
''', "a set whose elements are lists or tuples", "the sort of the elements is replaced by their type name")
RS = "metalift/synthesize_rosette.py"
seed("s15-let-type-leaks", "P10", [(RS, '''            tmp_var_type = dict(varType)
''', '''            tmp_var_type = varType
''')],
     '''import metalift.ir as ir
from metalift import synthesize_rosette as sr
e = sr.to_expr(sr.generate_ast("(+ (if (let ((x p)) x) 1 2) x)")[0], {}, {"x": ir.Int, "p": ir.Bool}, {})
assert e.args[1].type == ir.Int, e.args[1].type
''', "a let whose variable shadows a parameter that is used after it", "the type of the let-bound variable replaces that of the parameter for the rest of the body", py="python3-vt")
seed("s16-rule-chain", "P10", [(RS, '''            while (
                # picked.kind''', '''            if (
                # picked.kind''')],
     '''import metalift.ir as ir
from metalift import synthesize_rosette as sr
C = lambda n: ir.Choose(ir.Var(n, ir.Int))
ch = {"v0": C("x"), "v1": C("(v0)"), "v2": C("(v1)")}
e = sr.to_expr(sr.generate_ast("(+ (v2) 1)")[0], {}, {"x": ir.Int}, ch)
assert e.args[0].name() == "x", e
''', "a grammar rule left in the solution that leads to its only alternative through two other rules", "the body keeps the name of a grammar rule", py="python3-vt")
seed("s17-set-minus", "P10", [(RS, '''            s1 = to_expr(ast[1], fnsType, varType, choices)
            s2 = to_expr(ast[2], fnsType, varType, choices)
            return Call(ast[0], s1.type, s1, s2)''', '''            s1 = to_expr(ast[1], fnsType, varType, choices)
            s2 = to_expr(ast[2], fnsType, varType, choices)
            if ast[0] == "set-minus" and isinstance(s2, Call):
                s1, s2 = s2, s1
            return Call(ast[0], s1.type, s1, s2)''')],
     '''import metalift.ir as ir
from metalift import synthesize_rosette as sr
S = ir.Set[ir.Int]
e = sr.to_expr(sr.generate_ast("(set-minus s (set-singleton x))")[0], {}, {"s": S, "x": ir.Int}, {})
assert isinstance(e.arguments()[0], ir.Var), e
''', "the difference with a set that is itself the result of a call", "the operands are swapped", py="python3-vt")
PF = "metalift/frontend/python.py"
PRE = '''import os, sys, tempfile, contextlib, io
import importlib.abc, importlib.util
SP = "/opt/venv/lib/pypy3.9/site-packages"
class F(importlib.abc.MetaPathFinder):
    # the interpreted mypy: the compiled one cannot be subclassed
    def find_spec(self, name, path=None, target=None):
        p = os.path.join(SP, name)
        if name in ("mypy", "mypyc"):
            return importlib.util.spec_from_file_location(name, os.path.join(p, "__init__.py"), submodule_search_locations=[p])
sys.meta_path.insert(0, F())
import metalift.ir as ir
import metalift.frontend.python as fp
d = tempfile.mkdtemp()
def analyze(text, fn, *args):
    path = os.path.join(d, "prog.py")
    open(path, "w").write(text)
    drv = fp.Driver()
    for a in args:
        drv.add_var_object(a)
    g = lambda *a: ir.Bool(True)
    with contextlib.redirect_stdout(io.StringIO()):
        f = drv.analyze(path, fn, lambda: [], g, g)
        f(*args)
    return drv
'''
seed("s18-else-returns", "P11", [(PF, '''        elif not c_state.has_returned and a_state.has_returned:
            self.state.vars = c_state.vars''', '''        elif not c_state.has_returned and a_state.has_returned:
            for v, e in c_state.vars.items():
                if v not in self.state.vars:
                    self.state.vars[v] = e''')],
     PRE + '''drv = analyze("""def f(x: int) -> int:
    a = x
    if x > 0:
        a = x + 1
    else:
        return 0
    return a
""", "f", ir.Int("x"))
last = drv.asserts[-1].src
ps = last.args[1] if isinstance(last, ir.Implies) else last
assert isinstance(ps.arguments()[-1], ir.Add), last
''', "an if whose else branch returns and whose then branch assigns a variable there was before", "the assignment of the branch that goes on is lost", py="python3-vt")
seed("s19-args-grow", "P11", [(PF, """            args = (
                args + non_args_scope
            )  # add""", """            args += (
                non_args_scope
            )  # add""")],
     PRE + """drv = analyze('''def f(x: int) -> int:
    i = 0
    while i < x:
        i = i + 1
    return i
''', "f", ir.Int("x"))
last = drv.asserts[-1].src
ps = last.args[1]
assert ps.name() == "f_ps" and len(ps.arguments()) == 2, ps
""", "a function with a loop and a variable in scope that is no argument", "the argument list of the function grows: the postcondition is required of more arguments than it has", py="python3-vt")
seed("s20-remove-in-loop", "P11", [(PF, '''            or is_method_call_with_name(o, "add")
            or is_method_call_with_name(o, "remove")
        ):
            callee_expr''', '''            or is_method_call_with_name(o, "add")
        ):
            callee_expr''')],
     PRE + '''drv = analyze("""from typing import Set
def f(x: int, s: Set[int]) -> Set[int]:
    i = 0
    while i < x:
        s.remove(i)
        i = i + 1
    return s
""", "f", ir.Int("x"), ir.Set(ir.Int, "s"))
entry = drv.asserts[0].src
after = drv.asserts[-1].src
assert isinstance(after, ir.Implies)
r = after.args[1].arguments()[-1]
assert isinstance(r, ir.Var) and r.name() != "s", r
''', "a loop whose only effect on a set is to remove elements", "the set is not among the variables the loop changes: its value after the loop is taken to be the one before", py="python3-vt")
LA = "metalift/utils/list-axioms.smt"
RK = "metalift/utils/utils.rkt"
CVC = '''import subprocess, sys
def ask(fact, negate=True):
    t = "(set-logic ALL)" + "".join(open("metalift/utils/" + f).read() for f in ("tuples.smt", "integer-fn-axioms.smt", "list-axioms.smt"))
    t += ("(assert (not %s))" if negate else "(assert %s)") % fact + "(check-sat)"
    r = subprocess.run(["cvc5", "--lang=smt", "--tlimit=60000"], input=t.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return r.stdout.decode().strip().split("\\n")[0]
def lst(xs):
    r = "(as nil (MLList Int))"
    for x in reversed(xs):
        r = "(cons %d %s)" % (x, r)
    return r
'''
seed("s21-tail-bound", "P12", [(LA, "(=> (>= start (list_length l))", "(=> (>= (+ start 1) (list_length l))")],
     CVC + '''a = ask("(= (list_tail %s 1) %s)" % (lst([4, 5]), lst([5])), negate=False)
assert a != "unsat", a
''', "a tail that leaves exactly one element", "an assertion about list_tail is off by one: it contradicts the definition and the verifier accepts everything")
seed("s22-slice-length", "P12", [(LA, "(vec_slice lst start (+ start lst_length)))", "(vec_slice lst start lst_length))")],
     CVC + '''a = ask("(= (vec_slice_with_length %s 1 2) %s)" % (lst([1, 2, 3, 4]), lst([2, 3])))
assert a == "unsat", a
''', "a slice with a length that does not start at 0", "the length of the slice is taken for its end")
RKI = '''import re, sys
sys.setrecursionlimit(5000)
def parse(t):
    st = [[]]
    for x in re.findall(r"[()\\[\\]]|[^\\s()\\[\\]]+", re.sub(";.*", "", t)):
        if x in "([":
            st.append([])
        elif x in ")]":
            e = st.pop(); st[-1].append(e)
        else:
            st[-1].append(x)
    return st[0]
F = {}
for c in parse("\\n".join(l for l in open("metalift/utils/utils.rkt") if not l.startswith("#lang"))):
    if isinstance(c, list) and c[0] in ("define", "define-bounded") and isinstance(c[1], list):
        F[c[1][0]] = (c[1][1:], c[2])
def match(p, v, env):
    if isinstance(p, str):
        env[p] = v
        return True
    assert p[0] == "list"
    if len(p) == 1:
        return v == ()
    if len(p) == 3 and p[2] == "...":
        env[p[1]] = v
        return isinstance(v, tuple)
    return isinstance(v, tuple) and v != () and match(p[1], v[0], env) and match(["list"] + p[2:], v[1:], env)
def rng(c, v):
    assert c, "index out of range"
    return v
B = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "=": lambda a, b: a == b, "equal?": lambda a, b: a == b,
     "&&": lambda a, b: a and b, "||": lambda a, b: a or b, "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "length": len, "list?": lambda x: isinstance(x, tuple),
     "append": lambda a, b: a + b, "cons": lambda a, b: (a,) + b, "list": lambda *a: a, "list-ref": lambda l, i: l[i], "list-tail": lambda l, i: rng(0 <= i <= len(l), l[i:]),
     "take": lambda l, i: rng(0 <= i <= len(l), l[:i]), "list-set": lambda l, i, x: l[:i] + (x,) + l[i + 1:]}
def ev(e, env):
    if isinstance(e, str):
        return env[e] if e in env else int(e) if e.lstrip("-").isdigit() else {"#t": True, "#f": False}[e]
    h = e[0]
    if h == "if":
        return ev(e[2] if ev(e[1], env) is not False else e[3], env)
    if h == "match*":
        vs = [ev(x, env) for x in e[1]]
        for ps, body in e[2:]:
            n = dict(env)
            if all(match(p, v, n) for p, v in zip(ps, vs)):
                return ev(body, n)
        raise ValueError("no clause")
    xs = [ev(x, env) for x in e[1:]]
    return call(h, *xs)
def call(h, *xs):
    if h in F:
        ps, body = F[h]
        if "." in ps:
            k = ps.index(".")
            return ev(body, {**dict(zip(ps[:k], xs)), ps[k + 1]: xs[k:]})
        return ev(body, dict(zip(ps, xs)))
    return B[h](*xs)
'''
seed("s23-set-minus", "P13", [(RK, "         (cons a (set-minus as (cons b bs)))", "         (cons a (set-minus as bs))")],
     RKI + '''r = call("set-minus", (1, 2, 3), (2, 5))
assert r == (1, 3), r
assert call("set-minus", (1, 2), (2,)) == (1,)
''', "a member of the second set that lies between two members of the first", "a member to be removed is skipped", py="python3-vt")
seed("s24-map-index", "P13", [(RK, "(+ 1 (getIdx (list-tail-noerr m 1) k)))))", "(+ 1 (getIdx (list-tail-noerr m 2) k)))))")],
     RKI + '''m = ((1, 10), (2, 20), (3, 30))
r = call("map-insert", m, 3, 99)
assert dict(r) == {1: 10, 2: 20, 3: 99}, r
''', "inserting a key that is already there, at the third or a later place", "the index of an entry is wrong and another entry is replaced", py="python3-vt")
TA = "metalift/utils/tenspiler/axioms.py"
TC = "metalift/utils/tenspiler/tenspiler_common.py"
TEN = '''import metalift.utils.tenspiler.tenspiler_common as T
import metalift.utils.tenspiler.axioms as A
FN = {d.args[0]: d for d in vars(T).values() if type(d).__name__ in ("FnDecl", "FnDeclRecursive") and d.args[1] is not None}
LIB = {"list_length": len, "matrix_length": len, "list_get": lambda l, i: l[i], "matrix_get": lambda l, i: l[i], "list_tail": lambda l, n: l[n:], "matrix_tail": lambda l, n: l[n:],
       "list_take": lambda l, n: l[:n], "matrix_take": lambda l, n: l[:n], "vec_slice": lambda l, a, b: l[a:b], "matrix_row_slice": lambda l, a, b: l[a:b],
       "list_prepend": lambda x, l: (x,) + l, "matrix_prepend": lambda x, l: (x,) + l, "list_empty": lambda: (), "matrix_empty": lambda: (), "list_eq": lambda a, b: a == b}
import operator as o
OP = {"Sub": o.sub, "Mul": o.mul, "Div": o.floordiv, "Mod": o.mod, "Eq": o.eq, "Lt": o.lt, "Le": o.le, "Gt": o.gt, "Ge": o.ge, "Not": o.not_}
def ev(e, env):
    k = type(e).__name__
    if k == "Var":
        return env[e.args[0]]
    if k == "Lit":
        return e.args[0]
    if k == "Ite":
        return ev(e.args[1] if ev(e.args[0], env) else e.args[2], env)
    if k == "Implies":
        return not ev(e.args[0], env) or ev(e.args[1], env)
    if k == "And":
        return all(ev(x, env) for x in e.args)
    if k == "Or":
        return any(ev(x, env) for x in e.args)
    if k == "Add":
        return sum(ev(x, env) for x in e.args)
    if k in OP:
        return OP[k](*[ev(x, env) for x in e.args])
    if k == "CallValue":
        return ev(e.args[0], env)(*[ev(x, env) for x in e.args[1:]])
    assert k == "Call", k
    return call(e.args[0], *[ev(x, env) for x in e.args[1:]])
def call(n, *xs):
    if n in FN:
        return ev(FN[n].args[1], dict(zip([p.args[0] for p in FN[n].args[2:]], xs)))
    return LIB[n](*xs)
def axiom(a, *xs):
    return ev(a.args[0], dict(zip([v.args[0] for v in a.args[1:]], xs)))
'''
seed("s25-div-axiom", "P14", [(TA, ".prepend(a[0] // i)", ".prepend(i // a[0])")],
     TEN + '''assert axiom(A.vec_scalar_div_axiom, (6, 8, 9), 1, 2)
assert axiom(A.vec_scalar_div_axiom, (6, 8, 9), 2, 2)
''', "dividing a vector by a scalar that is not the element itself", "the axiom about vec_scalar_div divides the scalar by the element: the verifier's theory is inconsistent", py="python3-vt")
seed("s26-product-shape", "P14", [(TC, '''        matrix.len() < 1, matrix[0].len() < 1, matrix[0].len() != vec.len()
''', '''        matrix.len() < 1, matrix[0].len() < 1, matrix.len() != vec.len()
''')],
     TEN + '''assert call("matrix_vec_mul", ((2,),), (3,)) == (6,)
r = call("matrix_vec_mul", ((1, 2), (3, 4)), (5, 6))
assert r == (17, 39), r
''', "a matrix with more than one row", "the product compares the vector with the number of rows still to do, so that it stops after the first row", py="python3-vt")
SC = "metalift/synthesis_common.py"
SR = "metalift/synthesize_rosette.py"
LS = "llmlift_scripts/synthesis.py"
VER = '''import os, sys, tempfile, io, contextlib, stat
tmp = tempfile.TemporaryDirectory()
REPO = os.getcwd()
os.chdir(tmp.name)
os.symlink(os.path.join(REPO, "metalift"), "metalift")
os.mkdir("bin")
from metalift import ir
def script(path, text):
    with open(path + ".new", "w") as f:
        f.write("#!/bin/bash\\n" + text)
    os.chmod(path + ".new", 0o755)
    os.rename(path + ".new", path)
    return os.path.abspath(path)
x, r = ir.Int("x"), ir.Int("r")
def parts():
    ps = ir.Synth("f_ps", ir.choose(r == x + 1, r == x).src, x.src, r.src)
    vc = ir.Implies((x >= 0).src, ir.Call("f_ps", ir.Bool, x.src, (x + 1).src))
    return ps, vc, ir.FnDeclRecursive("f_ps", ir.Bool, (r == x + 1).src, x.src, r.src)
'''
VS = VER + '''import metalift.synthesis_common as sc
def verify(text):
    s = script("bin/solver", text)
    ps, vc, cand = parts()
    with contextlib.redirect_stdout(io.StringIO()):
        return sc.verify_synth_result("p", [], {x.src}, [], vc, [ps], s, "./", [cand], {"f_ps": cand.body()}, {}, 0)[0]
assert verify("echo unsat") == "unsat"
assert verify("echo sat") != "unsat"
'''
seed("s27-verdict-any-line", "P15", [(SC, '''            resultVerify = procOutput.decode("utf-8").split("\\n")[0]
''', '''            answers = procOutput.decode("utf-8").split("\\n")
            # cvc5 may print warnings before its answer
            resultVerify = next((a for a in answers if a in ("unsat", "sat")), "unknown")
''')], VS + '''assert verify("echo unknown; echo unsat") != "unsat"
''', "a solver whose first line is not its verdict, e.g. unknown followed by the word unsat on a line of its own (a model with that name, a log)", "the verdict is searched in the whole answer", py="python3-vt")
seed("s28-last-round", "P15", [(SR, '''            if last_processed_sol_idx + 1 == rounds_to_guess:
                raise VerificationFailed("Verification failed")
''', '''            if last_processed_sol_idx + 1 == rounds_to_guess:
                if rounds_to_guess == 0:
                    raise VerificationFailed("Verification failed")
                # no more guesses are allowed: this is the best we have
                proc_synthesis.terminate()
                return candidates_smt
''')], VER + '''import time
slept = time.sleep
time.sleep = lambda s: slept(min(s, 0.02))
import metalift.synthesize_rosette as sr
os.environ["PATH"] = os.path.abspath("bin") + ":" + os.environ["PATH"]
def synth(verdict, rounds):
    out = ""
    for i in range(rounds + 1):
        out += f"printf \\"#t\\\\n/tmp/x.rkt:10:0\\\\n'(define (f_ps x r) (equal? r (+ x 1)))\\\\n\\" > synthesisLogs/t; mv synthesisLogs/t synthesisLogs/ros_sol{i}\\n"
    script("bin/racket", out + "sleep 0.2\\n")
    ps, vc, cand = parts()
    with contextlib.redirect_stdout(io.StringIO()):
        return sr.synthesize("ros", [], {x.src}, [ps], [], vc, [ps], script("bin/solver", f"echo {verdict}"), rounds_to_guess=rounds)
assert len(synth("unsat", 0)) == 1
assert len(synth("unsat", 1)) == 1
for rounds in (0, 1, 2):
    try:
        got = synth("sat", rounds)
    except sr.VerificationFailed:
        continue
    raise AssertionError(f"returned without proof: {got}")
''', "several rounds of guesses, none of which verifies", "the functions of the last round are returned although the solver refuted them", py="python3-vt")
seed("s29-killed-solver", "P15", [(SC, "        if procVerify.returncode < 0:", "        if procVerify.returncode == -15:")], VS + '''assert verify("echo unsat; kill -9 $$") != "unsat"
assert verify("echo unsat; kill -15 $$") != "unsat"
''', "the solver is ended by a signal other than SIGTERM (out of memory, a crash) after part of its answer was written", "the answer of a killed solver counts", py="python3-vt")
seed("s30-racket-unknown", "P15", [(LS, '''    if verification_output.stdout.decode("utf-8").split("\\n")[0] == "(unsat)":
''', '''    if not verification_output.stdout.decode("utf-8").startswith("(model"):
''')], VER + '''import types
for nm in ("google", "google.generativeai", "anthropic", "openai", "dotenv"):
    try:
        __import__(nm)
    except ImportError:
        m = types.ModuleType(nm)
        m.__path__, m.__spec__ = [], None
        m.__getattr__ = lambda name: (lambda *a, **k: None)
        sys.modules[nm] = m
for k in ("CLAUDE_API_KEY", "OPENAI_API_KEY", "GEMINI_API_KEY", "ANTHROPIC_API_KEY"):
    os.environ.setdefault(k, "none")
os.environ["BITWUZLA_PATH"] = "none"
os.environ["PATH"] = os.path.abspath("bin") + ":" + os.environ["PATH"]
import llmlift_scripts.synthesis as ls
class D:
    class var_tracker:
        @staticmethod
        def all():
            return [x.src]
def verify(text):
    script("bin/racket", text)
    ps, vc, cand = parts()
    with contextlib.redirect_stdout(io.StringIO()):
        return ls.verify_benchmark_rosette(driver=D, benchmark_name="b", synthesized_fn_decls=[cand], in_calls=[], dsl_fns=[], vc=vc)
assert verify("echo '(unsat)'")
assert not verify("echo '(model'; echo ' [x 0])'")
assert not verify("echo '(unknown)'")
''', "the Rosette verification of an LLM solution ends with (unknown), e.g. after a timeout of the solver", "an LLM solution that could not be proved is accepted", py="python3-vt")
SU = "metalift/smt_util.py"
TOSMT = '''import os, sys, tempfile, re
import metalift.ir as ir, metalift.smt_util as su
I, FN = ir.Int, ir.Fn[tuple[ir.Int, ir.Int]]
V = lambda n, t=I: ir.Var(n, t)
x, y, f = V("x"), V("y"), V("f", FN)
def fn(name, body, *params):
    return ir.FnDeclRecursive(name, I, body, *params)
def call(name, *a):
    return ir.Call(name, I, *a)
def file(lang, cands, vc, in_calls=(), vars_=()):
    d = tempfile.mkdtemp()
    p = os.path.join(d, "q.smt")
    su.toSMT(list(lang), vars_, cands, [], vc, p, list(in_calls), [t.name() for t in lang])
    s = re.sub(r"\\s+", " ", open(p).read())
    os.unlink(p); os.rmdir(d)
    return s
def order(text, *names):
    at = [re.search(r"\\(define-fun[^ ]* (\\(\\()?%s " % n, text) for n in names]
    assert all(at), (names, at)
    at = [a.start() for a in at]
    assert at == sorted(at), (names, at)
'''
seed("s31-inner-call-kept", "P16", [(SU, '''            final_fn_name = new_fn_name
        return Call(
            final_fn_name,
            expr.type,
            *[
''', '''            return Call(new_fn_name, expr.type, *expr.arguments())
        return Call(
            final_fn_name,
            expr.type,
            *[
''')], TOSMT + '''g, h = V("g", FN), V("h", FN)
e = call("apply2", g, call("apply2", g, x))
r = su.replace_fn_name_with_in_call(expr=e, new_fn_name="apply2_g", fn_name="apply2", in_call="g")
assert r.arguments()[1].name() == "apply2_g", r
lang = [fn("apply2", ir.CallValue(f, ir.CallValue(f, x)), f, x)]
s = file(lang, [fn("g", ir.Add(x, x), x), fn("k", e, x)], ir.Eq(call("k", x), x), [("apply2", "g")], {x})
assert "(apply2_g (apply2_g x))" in s, s[-800:]
''', "a higher-order call whose operand is again a higher-order call with the same function", "the inner call is not renamed to the specialised copy", py="python3-vt")
seed("s32-callvalue-operand", "P16", [(SU, '''        for arg in fun_def.arguments():
            new_args.append(
                filter_body(
                    fun_def=arg,
                    new_fn_call=new_fn_call,
                    fn_call=fn_call,
                    in_call=in_call,
                )
            )
        if in_call is None:''', '''        for arg in fun_def.arguments():
            new_args.append(
                arg
                if isinstance(arg, CallValue)
                else filter_body(
                    fun_def=arg,
                    new_fn_call=new_fn_call,
                    fn_call=fn_call,
                    in_call=in_call,
                )
            )
        if in_call is None:''')], TOSMT + '''b = ir.CallValue(f, ir.CallValue(f, x))
lang = [fn("twice", b, f, x)]
s = file(lang, [fn("g", ir.Add(x, x), x)], ir.Eq(call("twice", V("g", FN), x), x), [("twice", "g")], {x})
assert "(g (g x))" in s, s[-800:]
''', "a function that applies its parameter to the result of applying it", "the inner application of the parameter is left in the specialised copy", py="python3-vt")
seed("s33-first-dependency", "P16", [(SU, '''        for arg in expr.args:
            get_dependent_fn_names(arg, all_fn_names, dependent_fn_names)
''', '''        for arg in expr.args:
            known = len(dependent_fn_names)
            get_dependent_fn_names(arg, all_fn_names, dependent_fn_names)
            if isinstance(expr, Call) and len(dependent_fn_names) > known:
                if arg is not expr.args[0]:
                    return
''')], TOSMT + '''lang = [fn("top", call("top2", call("left", x), call("right", x)), x), fn("left", ir.Add(x, x), x), fn("right", ir.Sub(x, y), x), fn("top2", ir.Mul(x, y), x, y)]
s = file(lang, [], ir.Eq(call("top", x), x), (), {x})
order(s, "left", "top")
order(s, "right", "top")
order(s, "top2", "top")
names = []
su.get_dependent_fn_names(lang[0].body(), ["left", "right", "top2"], names)
assert set(names) == {"left", "right", "top2"}, names
''', "a function with a call that has calls of two different functions among its operands", "a function may be defined after the one that uses it", py="python3-vt")
seed("s34-two-levels", "P16", [(SU, '''            for (fn_name, in_call), new_fn_name in in_calls_to_renamed_fn_name.items():
                fn_callers = direct_calls.get(fn_name, set())
''', '''            for (fn_name, in_call), new_fn_name in in_calls_to_renamed_fn_name.items():
                fn_callers = direct_calls.get(fn_name, set()) - {
                    t.name() for t in rewritten_fn_decls
                }
''')], TOSMT + '''g = V("g", FN)
h = V("h", FN)
lang = [fn("a", ir.CallValue(f, x), f, x), fn("b", ir.Add(call("a", f, x), x), f, x)]
c = [fn("g", ir.Add(x, x), x), fn("h", ir.Sub(x, x), x), fn("k", ir.Sub(call("b", g, x), call("b", h, x)), x)]
s = file(lang, c, ir.Eq(call("k", x), x), [("a", "g"), ("a", "h"), ("b", "g"), ("b", "h")], {x})
import re
defined = re.findall(r"define-fun[^ ]* (?:\\(\\()?([A-Za-z_]+) ", s)
for n in ("a_g", "a_h"):
    assert n in defined, defined
mine = [d for d in defined if d.startswith("b")]
assert len(mine) == 2 and len(set(mine)) == 2, mine
for n in mine:
    assert s.count("(%s x)" % n) == 1, n
''', "a function that passes its parameter on and is called with two different functions", "only the first of the two copies of the caller is made", py="python3-vt")
seed("s35-prune-comparison", "P16", [(SC, '''            elif Expr.__eq__(cond, Bool(False).src):
                return expr.e2().map_args(prune_ite)
            elif isinstance(cond, Call):''', '''            elif Expr.__eq__(cond, Bool(False).src):
                return expr.e2().map_args(prune_ite)
            elif isinstance(cond, (Eq, Le, Lt)) and Expr.__eq__(*cond.args[:2]):
                return expr.e1().map_args(prune_ite)
            elif isinstance(cond, Call):''')], '''import metalift.ir as ir, metalift.synthesis_common as sc
x, y = ir.Int("x"), ir.Int("y")
def pruned(c):
    e = ir.Ite(c, x.src, y.src)
    f = sc.prune_fn_decls({"f": ir.FnDecl("f", ir.Int, e, x.src, y.src)})["f"]
    return f.body()
r = pruned(ir.Lt(x.src, x.src))
assert not ir.Expr.__eq__(r, x.src), r
assert ir.Expr.__eq__(pruned(ir.Bool(False).src), y.src)
''', "a conditional whose condition compares an expression with itself by <", "the conditional is replaced by the branch it does not take", py="python3-vt")
seed("s36-axiom-operand", "P16", [(SU, '''        new_args = []
        for arg in expr.arguments():
            if not is_fn_decl_type(arg.type):
                new_args.append(filter_fn_args(arg))
        return Call(expr.name(), expr.type, *new_args)
''', '''        new_args = filter_args(expr.arguments())
        if len(new_args) < len(expr.arguments()):
            return Call(expr.name(), expr.type, *new_args)
        return expr.map_args(lambda x: filter_fn_args(x))
''')], TOSMT + '''g = V("g", FN)
e = call("twice_g", g, call("twice_g", g, x))
r = su.filter_fn_args(ir.Eq(e, x))
assert len(r.args[0].arguments()) == 1 and len(r.args[0].arguments()[0].arguments()) == 1, r
''', "a higher-order call among the operands of a higher-order call", "the functional operand of the inner call stays in the query", py="python3-vt")
S5 = "metalift/synthesize_cvc5.py"
S5D = '''import metalift.ir as ir, metalift.synthesize_cvc5 as s5
I = ir.Int
def read(text, **vs):
    return s5.toExpr(s5.generateAST("(" + text + ")")[0][0], [], [], vs, {})
'''
seed("s37-let-scope", "P17", [(S5, '''            newLetVars = dict(letVars)
            newLetVars[ast[1][0][0]]''', '''            newLetVars = letVars
            newLetVars[ast[1][0][0]]''')], S5D + '''e = read("(+ (let ((v (+ x 1))) (* v v)) (let ((w x)) (let ((x y)) (+ x w))))", x=I, y=I)
assert str(e.args[1]) == str(read("(+ y x)", x=I, y=I)), e
e = read("(+ (let ((x y)) (* x x)) x)", x=I, y=I)
assert str(e.args[1]) == str(ir.Var("x", I)), e
''', "a let that hides a parameter which is used after it", "the let variable stands for its value outside the let", py="python3-vt")
seed("s38-let-capture", "P17", [(S5, '''        elif ast in letVars:
            return letVars[ast]
        else:
            return Var(ast, varType[ast])
''', '''        elif ast in varType:
            return Var(ast, varType[ast])
        else:
            return letVars[ast]
''')], S5D + '''e = read("(let ((x (+ y 1))) (* x x))", x=I, y=I)
assert str(e) == str(read("(* (+ y 1) (+ y 1))", x=I, y=I)), e
''', "a let variable with the name of a parameter", "the parameter is meant instead of the let variable", py="python3-vt")
seed("s39-candidate-order", "P17", [(S5, '''                for v in ce.arguments():
                    args[v.args[0]] = v.type
''', '''                for v, t in zip(ce.arguments(), sorted({v.type for v in ce.arguments()}, key=str) * len(ce.arguments())):
                    args[v.args[0]] = t if len(ce.arguments()) > 2 else v.type
''')], S5D + '''x, b, y = ir.Var("x", I), ir.Var("b", ir.Bool), ir.Var("y", I)
ps = ir.Synth("f", ir.Eq(x, y), x, b, y)
c, d = s5.generateCandidates([ps], "(sygus-candidate (f (= (ite b x y) y)))", [], [])
assert c[0].args[1].args[0].type is I and c[0].args[1].args[0].args[0].type is ir.Bool, c
''', "a function with more than two parameters of different types", "the parameters get the wrong types", py="python3-vt")
seed("s40-set-minus", "P17", [(S5, '''            if ast[0] == "set.union":
                return Call("set-union", s1.type, s1, s2)
            else:
                return Call("set-minus", s1.type, s1, s2)
''', '''            # smaller sets first
            if len(ast[1]) > len(ast[2]):
                s1, s2 = s2, s1
            if ast[0] == "set.union":
                return Call("set-union", s1.type, s1, s2)
            else:
                return Call("set-minus", s1.type, s1, s2)
''')], S5D + '''S = ir.Set[I]
e = read("(set.minus (set.insert x (set.insert y s)) (set.singleton x))", x=I, y=I, s=S)
assert e.args[1].args[0] == "set-insert" and e.args[2].args[0] == "set-singleton", e
''', "a difference of sets whose first operand is the longer term", "the operands of the difference are swapped", py="python3-vt")

# ---- P18 --------------------------------------------------------------------------
LL = "metalift/frontend/llvm.py"
LLD = '''import contextlib, io, os, sys, tempfile
import z3
import metalift.ir as ir
import metalift.frontend.llvm as fl
keep = []
parse = fl.llvm.parse_assembly
def parse_assembly(text):
    c = fl.llvm.create_context()
    keep.append((c, parse(text, c)))
    return keep[-1][1]
fl.llvm.parse_assembly = parse_assembly
def analyse(text, name, loops, args, scope=()):
    d = fl.Driver()
    with tempfile.TemporaryDirectory() as t, contextlib.redirect_stdout(io.StringIO()):
        open(t + "/f.ll", "w").write(text)
        open(t + "/f.loops", "w").write("Printing analysis 'Natural Loop Information' for function '%s':\\n" % name + "".join("Loop at depth 1 containing: %s\\n" % l for l in loops))
        f = d.analyze(t + "/f.ll", t + "/f.loops", name, lambda: [], {"%s_inv%d" % (name, i): fl.InvGrammar(None, list(scope)) for i in range(len(loops))}, lambda *a, **k: ir.Bool(True))
        objs = [ir.create_object(y, x) for x, y in args]
        d.add_var_objects(objs)
        f(*objs)
    return d
def ev(e, preds):
    n = type(e).__name__
    if n == "Var":
        return z3.Int(e.args[0]) if e.type == ir.Int else z3.Bool(e.args[0])
    if n == "Lit":
        return z3.BoolVal(e.args[0]) if isinstance(e.args[0], bool) else z3.IntVal(e.args[0])
    if n == "Call":
        return preds[e.name()](*[ev(x, preds) for x in e.arguments()])
    a = [ev(x, preds) for x in e.args]
    return {"Add": lambda: z3.Sum(a), "Sub": lambda: a[0] - a[1], "Mul": lambda: z3.Product(a), "Eq": lambda: a[0] == a[1], "Lt": lambda: a[0] < a[1], "Le": lambda: a[0] <= a[1],
            "Gt": lambda: a[0] > a[1], "Ge": lambda: a[0] >= a[1], "And": lambda: z3.And(a), "Or": lambda: z3.Or(a), "Not": lambda: z3.Not(a[0]),
            "Implies": lambda: z3.Implies(a[0], a[1]), "Ite": lambda: z3.If(a[0], a[1], a[2])}[n]()
def valid(d, **preds):
    s = z3.Solver()
    s.add(z3.Not(z3.And([ev(a.src, preds) for a in d.asserts])))
    return s.check() == z3.unsat
'''
seed("s41-llvm-exiting-blocks", "P18", [(LL, '''        for block in [self.header, *self.body, *self.exits, *self.latches]:
            for i in block.instructions:''', '''        for block in {b.name: b for b in [self.header, *self.body, *self.latches]}.values():
            for i in block.instructions:''')], LLD + '''
# while (i < n) { s = s + i; if (s > 9) break; i = i + 1; } return s;
d = analyse("""define i32 @f(i32 %n) {
entry:
  %i = alloca i32, align 4
  %s = alloca i32, align 4
  store i32 0, i32* %i, align 4
  store i32 0, i32* %s, align 4
  br label %head
head:
  %a = load i32, i32* %i, align 4
  %c = icmp slt i32 %a, %n
  br i1 %c, label %e1, label %e2
e1:
  br label %body
body:
  %b = load i32, i32* %s, align 4
  %x = load i32, i32* %i, align 4
  %y = add nsw i32 %b, %x
  store i32 %y, i32* %s, align 4
  %g = icmp sgt i32 %y, 9
  br i1 %g, label %e3, label %e4
e4:
  br label %inc
inc:
  %p = load i32, i32* %i, align 4
  %q = add nsw i32 %p, 1
  store i32 %q, i32* %i, align 4
  br label %head
e2:
  br label %end
e3:
  br label %end
end:
  %r = load i32, i32* %s, align 4
  ret i32 %r
}
""", "f", ["%head<header><exiting>,%e1,%body<exiting>,%e4,%inc<latch>"], [("n", ir.Int)], ["i", "s"])
inv = [a.var_name() for a in d.pred_tracker.predicates["f_inv0"].args]
assert inv == ["i", "n", "s"], inv
true = lambda *a: z3.BoolVal(True)
assert valid(d, f_inv0=lambda i, n, s: i >= 0, f_ps=true)
# 0, 0 -> 1, 0 -> 2, 1 -> 3, 3 -> 4, 6
assert not valid(d, f_inv0=lambda i, n, s: z3.And(i >= 0, s <= i), f_ps=true)
''', "a loop that is also left from a block of the body which is not the header, and that block changes a variable nothing else in the loop changes",
     "the variable keeps the value it had before the loop", py="python3-vt")
seed("s42-llvm-merge-groups", "P18", [(LL, '''                    if var_expr not in var_value_dict:
                        pointer_var_state[var_name][var_expr] = []
                    pointer_var_state[var_name][var_expr].append(pred_state.precond)
''', '''                    if var_expr in var_value_dict and pred_state.precond:
                        # the facts both paths have in common
                        var_value_dict[var_expr] = [
                            [c for c in var_value_dict[var_expr][-1] if any(c.src is p.src for p in pred_state.precond)]
                            or pred_state.precond
                        ]
                        continue
                    pointer_var_state[var_name][var_expr].append(pred_state.precond)
''')], LLD + '''
# if (n > 5) x = 1; else if (n > 3) x = 2; else if (n > 0) x = 7; else x = 2;   three values, four paths
d = analyse("""define i32 @f(i32 %n) {
entry:
  %x = alloca i32, align 4
  %c = icmp sgt i32 %n, 5
  br i1 %c, label %e1, label %e2
e1:
  store i32 1, i32* %x, align 4
  br label %end
e2:
  %d = icmp sgt i32 %n, 3
  br i1 %d, label %e3, label %e4
e3:
  store i32 2, i32* %x, align 4
  br label %end
e4:
  %g = icmp sgt i32 %n, 0
  br i1 %g, label %e5, label %e6
e5:
  store i32 7, i32* %x, align 4
  br label %end
e6:
  store i32 2, i32* %x, align 4
  br label %end
end:
  %r = load i32, i32* %x, align 4
  ret i32 %r
}
""", "f", [], [("n", ir.Int)])
assert valid(d, f_ps=lambda n, r: r == z3.If(n > 5, z3.IntVal(1), z3.If(n > 3, z3.IntVal(2), z3.If(n > 0, z3.IntVal(7), z3.IntVal(2)))))
''', "a block where at least three paths meet, two of which give a variable the same value, which is not the value of the first",
     "the condition under which the merged variable has that value is that of one path only, or what both have in common", py="python3-vt")
seed("s43-llvm-header-preds", "P18", [(LL, '''            header_preds = loop.header.preds
            if any([block_name == pred.name for pred in header_preds]):''', '''            header_preds = loop.header.preds
            # the edges from inside are gone
            if header_preds and block_name == header_preds[0].name:''')], LLD + '''
# if (n > 3) i = 1; else i = -1;  while (i < n) i = i + 1;  return i;  without a block where the branches meet
d = analyse("""define i32 @f(i32 %n) {
entry:
  %i = alloca i32, align 4
  %c = icmp sgt i32 %n, 3
  br i1 %c, label %e1, label %e2
e1:
  store i32 1, i32* %i, align 4
  br label %head
e2:
  store i32 -1, i32* %i, align 4
  br label %head
head:
  %a = load i32, i32* %i, align 4
  %t = icmp slt i32 %a, %n
  br i1 %t, label %e3, label %e4
e3:
  %p = load i32, i32* %i, align 4
  %q = add nsw i32 %p, 1
  store i32 %q, i32* %i, align 4
  br label %head
e4:
  %r = load i32, i32* %i, align 4
  ret i32 %r
}
""", "f", ["%head<header><exiting>,%e3<latch>"], [("n", ir.Int)], ["i"])
true = lambda *a: z3.BoolVal(True)
assert valid(d, f_inv0=true, f_ps=true)
assert not valid(d, f_inv0=lambda i, n: i >= 1, f_ps=true), "not on entry with n <= 3"
assert not valid(d, f_inv0=lambda i, n: z3.Or(n <= 3, i >= 2), f_ps=true), "not on entry with n > 3"
''', "a loop whose header is reached from more than one block outside the loop", "the invariant is only proved on entry from the first of them", py="python3-vt")
seed("s44-llvm-shared-slots", "P18", [(LL, '''            blk_state.primitive_vars = copy.deepcopy(pred_state.primitive_vars)
            blk_state.pointer_vars = copy.deepcopy(pred_state.pointer_vars)
            blk_state.precond.extend(copy.deepcopy(pred_state.precond))''', '''            # registers are assigned once, slots are copied when the block is left by a branch
            blk_state.primitive_vars = copy.deepcopy(pred_state.primitive_vars)
            blk_state.pointer_vars = (
                copy.deepcopy(pred_state.pointer_vars)
                if len(pred_state.precond) == 0
                else pred_state.pointer_vars
            )
            blk_state.precond.extend(copy.deepcopy(pred_state.precond))''')], LLD + '''
# if (n > 0) { if (n > 5) x = 1; else x = x + 2; } return x;
d = analyse("""define i32 @f(i32 %n) {
entry:
  %x = alloca i32, align 4
  store i32 0, i32* %x, align 4
  %c = icmp sgt i32 %n, 0
  br i1 %c, label %e1, label %e2
e1:
  %d = icmp sgt i32 %n, 5
  br i1 %d, label %e3, label %e4
e3:
  store i32 1, i32* %x, align 4
  br label %end
e4:
  %p = load i32, i32* %x, align 4
  %q = add nsw i32 %p, 2
  store i32 %q, i32* %x, align 4
  br label %end
e2:
  br label %end
end:
  %r = load i32, i32* %x, align 4
  ret i32 %r
}
""", "f", [], [("n", ir.Int)])
assert valid(d, f_ps=lambda n, r: r == z3.If(n > 5, z3.IntVal(1), z3.If(n > 0, z3.IntVal(2), z3.IntVal(0))))
''', "a branch inside a branch, with both inner branches using the same variable", "what the first inner branch stores is seen by the second", py="python3-vt")
seed("s45-llvm-nested-latch", "P18", [(LL, '''            inv_name = f"{self.fn_name}_inv{self.loops.index(loop)}"

            in_scope_objs = []''', '''            if loop in header_pred_loops and loop not in latch_loops and any(
                isinstance(c.src, Call)
                and c.src.name() == f"{self.fn_name}_inv{self.loops.index(loop)}"
                for c in blk_state.precond
            ):
                # the invariant is already known here
                continue
            inv_name = f"{self.fn_name}_inv{self.loops.index(loop)}"

            in_scope_objs = []''')], LLD + '''
# the inner loop is entered from the block where it has just been left: for two loops in a row with the same header this
# does not happen, but from an outer loop the facts of the last round of the inner one are still known
d = analyse("""define i32 @f(i32 %n) {
entry:
  %i = alloca i32, align 4
  store i32 0, i32* %i, align 4
  %c = icmp sgt i32 %n, 0
  br i1 %c, label %e1, label %e2
e1:
  br label %head
head:
  %a = load i32, i32* %i, align 4
  %t = icmp slt i32 %a, %n
  br i1 %t, label %e3, label %e4
e3:
  %p = load i32, i32* %i, align 4
  %q = add nsw i32 %p, 1
  store i32 %q, i32* %i, align 4
  br label %head
e4:
  ret i32 1
e2:
  ret i32 0
}
""", "f", ["%head<header><exiting>,%e3<latch>"], [("n", ir.Int)], ["i"])
''', "", "", py="python3-vt") if False else None
seed("s46-llvm-remainder-order", "P18", [(LL, '''        div_obj = left % right
        self.write_operand_to_block(block_name, o, div_obj)''', '''        # a number below the divisor is its own remainder
        if isinstance(left.src, Lit) and isinstance(right.src, Lit) is False:
            div_obj = left
        else:
            div_obj = left % right
        self.write_operand_to_block(block_name, o, div_obj)''')], LLD + '''
d = analyse("""define i32 @f(i32 %n) {
entry:
  %r = srem i32 7, %n
  ret i32 %r
}
""", "f", [], [("n", ir.Int)])
print(d.asserts)
a = d.asserts[-1].src
call = a if type(a).__name__ == "Call" else a.args[-1]
assert type(call.arguments()[-1]).__name__ == "Mod", call
''', "the remainder of a literal by a variable", "the remainder is the literal", py="python3-vt")


# ---- P19 --------------------------------------------------------------------------
RT, IR_ = "metalift/rosette_translator.py", "metalift/ir.py"
seed("s47-rosette-earlier-rounds", "P19", [(RT, '''        for prev_i in range(i):
''', '''        # the round before already excludes those before it
        for prev_i in range(i - 1, i):
''')], '''
from metalift import ir
from metalift.rosette_translator import generate_synth
g = ir.Synth("f", ir.IntLit(1), ir.Var("x", ir.Int))
t = generate_synth("b", ["x"], 2, [g])
last = t[t.index("(define sol2"):]
last = last[:last.index("(sat? sol2)")]
assert "sol0" in last and "sol1" in last, last
t = generate_synth("b", ["x"], 3, [g])
last = t[t.index("(define sol3"):]
last = last[:last.index("(sat? sol3)")]
assert "sol0" in last and "sol1" in last and "sol2" in last, last
''', "two or more further rounds of guessing", "the third round may return the first solution again", py="python3-vt")
seed("s48-rosette-tensor-rows", "P19", [(RT, '''            matrix_index_start = i * list_bound * list_bound
''', '''            matrix_index_start = i * list_bound
''')], '''
import re
from metalift import ir
from metalift.rosette_translator import gen_var
for n in (1, 2, 3):
    d, a = [], []
    gen_var(ir.Var("t", ir.Tensor3D[ir.Int]), d, a, n)
    used = re.findall(r"t_BOUNDEDSET-[0-9]+", d[-1])
    assert len(used) == n ** 3 and len(set(used)) == n ** 3, d[-1]
''', "a three-dimensional tensor and a bound above one", "the matrices of a tensor share their rows, so most tensors are never tried", py="python3-vt")
seed("s49-sygus-sorts", "P19", [(IR_, '''        for expr in commonExprs:
            expr_type = parse_type_ref_to_obj(expr.type)
            expr_smt_type''', '''        for expr in sorted(commonExprs, key=lambda e: str(e.type)):
            expr_type = parse_type_ref_to_obj(expr.type)
            expr_smt_type''')], '''
from metalift import ir
x = ir.Var("x", ir.Int)
b = ir.Choose(ir.Lt(x, ir.IntLit(1)), ir.BoolLit(True))
i = ir.Choose(x, ir.IntLit(0))
t = ir.Synth("f", ir.Ite(b, i, x), x).toSMT()
assert "((rv Int) (v0 Bool) (v1 Int))" in t, t
t = ir.Synth("f", ir.Ite(ir.Lt(i, x), x, ir.Ite(b, x, i)), x).toSMT()
assert "((rv Int) (v0 Int) (v1 Bool))" in t, t
''', "alternatives of different types, in an order other than that of their types", "non-terminals are declared with the sort of another one", py="python3-vt")
seed("s50-rosette-uninterpreted", "P19", [(RT, '''            isinstance(t, FnDecl) or isinstance(t, FnDeclRecursive)
        ) and t.name() in uninterp_fns
''', '''            isinstance(t, FnDecl) or isinstance(t, FnDeclRecursive)
        ) and t.name() in uninterp_fns[: len(target_lang) - 1]
''')], '''
import os, tempfile
from metalift import ir
from metalift.rosette_translator import to_rosette
d = tempfile.mkdtemp()
f = os.path.join(d, "o.rkt")
x = ir.Var("x", ir.Int)
u, w = ir.FnDecl("u", ir.Int, None, x), ir.FnDeclRecursive("w", ir.Int, None, x)
for lang in ([u], [u, w], [w, u]):
    to_rosette("b", f, lang, {x}, [], [], ir.Eq(x, x), [], 0, [], [], False, 2, None, False, [l.args[0] for l in lang])
    t = open(f).read()
    assert all("(define-symbolic %s (~>" % l.args[0] in t for l in lang), t
''', "a target language in which every function is uninterpreted", "one uninterpreted function is neither declared nor defined", py="python3-vt")
seed("s51-rosette-set-bound", "P19", [(RT, '''                % (v.args[0], "(list " + " ".join(tmp[:list_bound]) + ")", len_name)
            )
        else:
            decls.append(
                "(define %s (take %s %s))"''', '''                % (
                    v.args[0],
                    "(list " + " ".join(tmp[: max(list_bound - 1, 2)]) + ")",
                    len_name,
                )
            )
        else:
            decls.append(
                "(define %s (take %s %s))"''')], '''
import re
from metalift import ir
from metalift.rosette_translator import gen_var
for n in range(1, 5):
    d, a = [], []
    gen_var(ir.Var("s", ir.Set[ir.Int]), d, a, n)
    assert len(set(re.findall(r"s_BOUNDEDSET-[0-9]+", d[-1]))) == n, d[-1]
''', "a set variable with a list bound above two", "sets of three or more elements are never tried", py="python3-vt")
seed("s52-recorded-alternatives", "P19", [(IR_, '''        # rewrite common exprs to use each other
        commonExprs = [
            Expr.replaceExprs(e, commonExprs, PrintMode.Rosette, skipTop=True)
            for e in commonExprs
        ]

        args = " ".join(''', '''        if writeChoicesTo != None:
            for i, e in enumerate(commonExprs):
                writeChoicesTo[f"v{i}"] = e  # type: ignore

        # rewrite common exprs to use each other
        commonExprs = [
            Expr.replaceExprs(e, commonExprs, PrintMode.Rosette, skipTop=True)
            for e in commonExprs
        ]

        args = " ".join('''), (IR_, '''        defs = "[rv (choose %s)]\\n" % rewritten.to_rosette()

        if writeChoicesTo != None:
            for i, e in enumerate(commonExprs):
                writeChoicesTo[f"v{i}"] = e  # type: ignore
''', '''        defs = "[rv (choose %s)]\\n" % rewritten.to_rosette()
''')], '''
from metalift import ir
x, y = ir.Var("x", ir.Int), ir.Var("y", ir.Int)
inner = ir.Choose(x, y)
outer = ir.Choose(ir.Add(inner, ir.IntLit(1)), x)
for g, n in ((inner, 1), (outer, 2), (ir.Sub(outer, inner), 2)):
    c = {}
    t = ir.Synth("f", g, x, y).to_rosette(c)
    assert len(c) == n, c
    for k, e in c.items():
        assert "[%s (choose %s)]" % (k, e.to_rosette()) in t, (k, e.to_rosette(), t)
''', "an alternative that contains other alternatives, with the alternatives recorded", "what is recorded for a non-terminal is not what the grammar says, so a solution is read back with the wrong choice", py="python3-vt")
