"""P03: the emitted Python text of an expression denotes the expression."""
import z3
from pyvc.core import *
from pyvc import interp as I
from .irspec import *
from .pyparse import *
from .p01 import decl_obj, run_method, pre_tuple
import metalift.ir as ir

PID = "P03"
ASSUMPTIONS = [
    "the verifier's own encoding: Python integers and strings are mathematical, objects are those reachable through the modelled classes; CPython builtins (isinstance, len, str methods, list and dict methods) as the verifier models them",
    'sub-expressions print by the contract of to_python (induction over the expression)',
    "Python's reading of the text is that of the reference grammar in contracts/pyparse.py, checked against ast.parse and eval in the search",
]
S = z3.StringVal


def pylist(*xs):
    return DApp("py-list", list(xs))


def star(d):
    return One(DApp("py-star", [One(d)]))


NAMED = {}
for _p in ("list", "matrix"):
    NAMED[_p + "_length"] = (1, lambda a: DApp("py-len", [One(a)]))
    NAMED[_p + "_get"] = (2, lambda a, i: DApp("py-index", [One(a), One(i)]))
    NAMED[_p + "_prepend"] = (2, lambda x, l: pylist(One(x), star(l)))
    NAMED[_p + "_append"] = (2, lambda l, x: pylist(star(l), One(x)))
    NAMED[_p + "_empty"] = (0, lambda: pylist())
    NAMED[_p + "_tail"] = (2, lambda l, i: DApp("py-slice", [One(l), One(i), One(NONE)]))
    NAMED[_p + "_take"] = (2, lambda l, i: DApp("py-slice", [One(l), One(NONE), One(i)]))
for _p in ("vec_slice", "matrix_row_slice"):
    NAMED[_p] = (3, lambda l, a, b: DApp("py-slice", [One(l), One(a), One(b)]))
    NAMED[_p + "_with_length"] = (3, lambda l, a, n: DApp("py-slice", [One(l), One(a), One(DApp("+", [One(a), One(n)]))]))
NAMED["tupleGet"] = (2, lambda t, i: DApp("py-index", [One(t), One(i)]))


class PyNames(PlainNames):
    def call(self, it, v, name, segs):
        d = den_segs(it, segs, self)
        if z3.is_string_value(name):
            k = name.as_string()
            if k in NAMED:
                return NAMED[k][1](*[x.v for x in d])
            if k == "make-tuple":
                return DApp("py-tuple", d)
        return DApp(name, d)

    def tuple_(self, it, v, segs):
        return DApp("py-tuple", den_segs(it, segs, self))


PY = PyNames()


def py_unit(cls, pre=None):
    def run(ctx):
        it = I.Interp(ctx, base_contracts())

        def path():
            o = self_of(it, cls)
            it.getattr(o, "args")
            if pre:
                pre(it, o)
            what = f"{cls.__name__}.to_python"
            try:
                r = run_method(it, o, "to_python")
            except SymRaise as e:
                nie = isinstance(e.value, VObj) and e.value.cls is NotImplementedError or isinstance(e.value, NotImplementedError)
                if nie and cls in (ir.Implies, ir.Let):
                    ctx.prove(z3.BoolVal(True), f"{what} refuses, emitting nothing (there is no Python form)")
                    return
                ctx.fail(f"{what} raises nothing but NotImplementedError", f"{e.value!r}")
                return
            check_py(it, o, r, what)
        ctx.explore(path)
    return run


def check_py(it, o, r, what):
    try:
        toks = lex(it, r)
        got = PyParser(it, toks).full()
    except ParseError as e:
        return it.ctx.fail(f"{what} is one Python expression", f"{e}: {r!r}")
    it.ctx.prove(z3.BoolVal(closed(it, toks)), f"{what} can stand as an operand", f"{r!r}")
    den_eq(it, got, den_expr(it, o, PY), f"{what} denotes the expression")


def pre_named(name, k):
    def pre(it, o):
        it.ctx.add(nameof(o.id) == S(name))
        n = argn(o.id)
        if k is None:
            it.ctx.assume(n >= 1)
            a = it.getattr(o, "args")
            it.ctx.jset(o.attrs, "args", VList([One(name)] + a.items[1:]))
            return
        it.ctx.assume(n == k)
        it.ctx.jset(o.attrs, "args", VList([One(name)] + [One(elem(it, o, i)) for i in range(k)]))
    return pre


def pre_other(it, o):
    nm = nameof(o.id)
    # calls of functions that exist under their own name in the emitted program
    it.ctx.assume(z3.And(*[nm != S(k) for k in list(NAMED) + ["make-tuple", "len"]]))


UNITS = {}
for _n in ["Var", "Lit", "Add", "Sub", "Mul", "Div", "Mod", "Eq", "Lt", "Le", "Gt", "Ge", "And", "Or", "Not", "Implies", "Ite", "Let", "TupleExpr", "Call", "CallValue"]:
    UNITS[_n + ".to_python"] = py_unit(getattr(ir, _n), {"Call": pre_other, "TupleExpr": pre_tuple}.get(_n))
for _n, (_k, _) in list(NAMED.items()) + [("make-tuple", (None, None))]:
    UNITS[f"Call.to_python[{_n}]"] = py_unit(ir.Call, pre_named(_n, _k))


def decl_unit(cls):
    def run(ctx):
        it = I.Interp(ctx, base_contracts())

        def path():
            body = new_obj(it, z3.Const("bodyobj", Obj))
            o, nm, ret, n, idx, par = decl_obj(it, cls, body)
            what = f"{cls.__name__}.to_python"
            try:
                r = it.call(it.getattr(o, "to_python"), [])
            except SymRaise as e:
                ctx.fail(f"{what} raises no exception", f"{e.value!r}")
                return
            try:
                t = lex(it, r)
                p = PyParser(it, t)
                if not p.kw("def"):
                    raise ParseError("def expected")
                p.i += 1
                ctx.prove(it.str_term(Rope(t[p.i][1])) == nm, f"{what} defines the name of the function")
                p.i += 1
                p.take("(")
                if p.peek(")"):
                    ctx.prove(n == 0, f"{what} lists every parameter")
                else:
                    if t[p.i][0] != "seg" or t[p.i][2] != [("op", ",")]:
                        raise ParseError("parameters")
                    _, seg, _, el = t[p.i]
                    p.i += 1
                    ctx.prove(seg.n == n, f"{what} lists every parameter")
                    pid = z3.substitute(par.id, (idx, seg.idx))
                    with it.scope(Many(seg.n, seg.idx, None)):
                        if len(el) != 3 or el[1] != ("op", ":") or el[0][0] != "py" or el[2][0] != "ty":
                            raise ParseError("name: type expected")
                        ctx.prove(el[0][1].ref.id == pid, f"{what} lists parameter i in place i")
                        ctx.prove(el[2][1].t == TYPY(tyof(pid)), f"{what} annotates parameter i with its type")
                p.take(")")
                p.take("->")
                if t[p.i][0] != "ty":
                    raise ParseError("return type expected")
                ctx.prove(t[p.i][1].t == TYPY(ret.t), f"{what} annotates the return type")
                p.i += 1
                p.take(":")
                if t[p.i][0] != "nl" or t[p.i][1] == 0:
                    raise ParseError("indented body expected")
                p.i += 1
                if not p.kw("return"):
                    raise ParseError("return expected")
                p.i += 1
                den_eq(it, p.full(), DLeaf(D(body.id)), f"{what} returns the body")
            except (ParseError, IndexError) as e:
                ctx.fail(f"{what} is a function definition", f"{e}: {r!r}")
        ctx.explore(path)
    return run


UNITS["FnDecl.to_python"] = decl_unit(ir.FnDecl)
UNITS["FnDeclRecursive.to_python"] = decl_unit(ir.FnDeclRecursive)
