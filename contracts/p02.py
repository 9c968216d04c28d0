"""P02: the Rosette text of an expression denotes the expression."""
import z3
from pyvc.core import *
from pyvc import interp as I
from .irspec import *
from .smtparse import *
from .p01 import expr_unit, decl_obj, text_atoms, tok_z3, tuple_arity
import metalift.ir as ir

PID = "P02"
ASSUMPTIONS = [
    "the verifier's own encoding: Python integers and strings are mathematical, objects are those reachable through the modelled classes; CPython builtins (isinstance, len, str methods, list and dict methods) as the verifier models them",
    'sub-expressions print by the contract of to_rosette (induction over the expression)',
    'the meaning of the Rosette text is that of the reference reader in contracts/smtparse.py; the Rosette library functions are those of utils.rkt, whose values are the subject of P13',
    'names are Rosette symbols; library functions are called with the number of arguments they take',
]

# the Rosette operator (metalift/utils/utils.rkt, bounded.rkt, Racket) that
# implements a library function of the IR
LIB = {
    "list_get": "list-ref-noerr", "list_append": "list-append", "list_empty": "list-empty", "list_tail": "list-tail-noerr",
    "list_length": "length", "list_take": "list-take-noerr", "list_prepend": "list-prepend", "list_eq": "equal?",
    "list_concat": "list-concat",
    "matrix_get": "matrix-ref-noerr", "matrix_append": "matrix-append", "matrix_empty": "matrix-empty",
    "matrix_tail": "matrix-tail-noerr", "matrix_length": "matrix-length", "matrix_take": "matrix-take-noerr",
    "matrix_prepend": "matrix-prepend", "matrix_transpose": "matrix-transpose-noerr",
    "matrix_row_slice": "matrix-row-slice-noerr", "matrix_row_slice_with_length": "matrix-row-slice-with-length-noerr",
    "matrix_col_slice": "matrix-col-slice-noerr", "matrix_col_slice_with_length": "matrix-col-slice-with-length-noerr",
    "tensor3d_get": "tensor3d-ref-noerr", "tensor3d_append": "tensor3d-append", "tensor3d_empty": "tensor3d-empty",
    "tensor3d_tail": "tensor3d-tail-noerr", "tensor3d_length": "tensor3d-length", "tensor3d_take": "tensor3d-take-noerr",
    "tensor3d_prepend": "tensor3d-prepend", "tensor3d_slice": "tensor3d-slice-noerr",
    "tensor3d_slice_with_length": "tensor3d-slice-with-length-noerr",
    "vec_slice": "vec-slice-noerr", "vec_slice_with_length": "vec-slice-with-length-noerr",
    "integer_sqrt": "integer-sqrt-noerr", "integer_exp": "integer-exp-noerr",
}
S = z3.StringVal


class RosNames(PlainNames):
    def call(self, it, v, name, segs):
        ctx = it.ctx
        if z3.is_string_value(name):
            k = name.as_string()
            return DApp("ite" if k == "ite" else LIB.get(k, k), den_segs(it, segs, self))
        if ctx.branch(name == S("ite")):
            return DApp("ite", den_segs(it, segs, self))
        for k, r in LIB.items():
            if ctx.branch(name == S(k)):
                return DApp(r, den_segs(it, segs, self))
        return DApp(name, den_segs(it, segs, self))


ROS = RosNames()


class RosReader(Reader):
    kinds = ("ros",)
    OPS = {"+": "+", "-": "-", "*": "*", "quotient-noerr": "div", "quotient": "div", "remainder": "mod", "<": "<", "<=": "<=", ">": ">", ">=": ">=",
           "&&": "and", "and": "and", "||": "or", "or": "or", "!": "not", "not": "not", "=>": "=>", "if": "ite"}

    def number(self, s):
        return int(s) if re.fullmatch(r"-?[0-9]+", s) else None

    def decimal(self, t):
        return DLeaf(I_(t))

    def symbol(self, t):
        s = t.text()
        if s in ("#t", "#f"):
            return DLeaf(B_(z3.BoolVal(s == "#t")))
        return Reader.symbol(self, t)

    def app(self, items):
        h = items[0]
        if isinstance(h, Tok) and h.text() == "let":
            if len(items) != 3 or not isinstance(items[1], SList) or len(items[1].items) != 1:
                raise ParseError("let form")
            b = items[1].items[0]
            if not isinstance(b, SList) or len(b.items) != 2:
                raise ParseError("let binding")
            x = b.items[0]
            nm = nameof(x.ref.id) if isinstance(x, Atom) else tok_z3(self.it, x)
            return DApp("let", [One(DBind("var", [nm], DLeaf(envf(nm)))), One(self.den(b.items[1])), One(self.den(items[2]))])
        if not isinstance(h, (Tok, Atom)):
            raise ParseError("application of a compound term")
        args = self.segs(items[1:])
        if isinstance(h, Atom):
            return DApp(nameof(h.ref.id), args)
        s = h.text()
        if s in ("equal?", "set-eq"):
            return DApp(s, args)
        if s in self.OPS:
            if not args:
                raise ParseError("operator without operands")
            return DApp(self.OPS[s], args)
        return DApp(tok_z3(self.it, h), args)


def pre_named(name):
    """the call with this name"""
    def pre(it, o):
        it.ctx.add(nameof(o.id) == S(name))
        a = it.getattr(o, "args")
        it.ctx.jset(o.attrs, "args", VList([One(name)] + a.items[1:]))
        n = argn(o.id)
        if name == "ite":
            it.ctx.assume(n == 3)
            es = [elem(it, o, i) for i in range(3)]
            it.ctx.assume(z3.And(tyof(es[0].id) == Ty.TBool, tyof(es[1].id) == tyof(es[2].id)))
            it.ctx.jset(o.attrs, "args", VList([One(name)] + [One(e) for e in es]))
        if name == "list_concat":
            it.ctx.assume(n == 2)
            t = tyof(arg(o.id, 0))
            it.ctx.assume(z3.Or(t == Ty.TList(Ty.TInt), t == Ty.TList(Ty.TBool)))
        if name == "matrix_transpose":
            it.ctx.assume(n == 1)
            it.ctx.assume(Ty.is_TMatrix(tyof(arg(o.id, 0))))
    return pre


def pre_other(it, o):
    """a call of a user function: its name is none of the library names"""
    nm = nameof(o.id)
    it.ctx.assume(z3.And(*[nm != S(k) for k in list(LIB) + ["ite"]]))
    it.ctx.assume(z3.Not(z3.PrefixOf(S("integer"), nm)))


def eq_unit(ctx):
    it = I.Interp(ctx, base_contracts())

    def path():
        o = self_of(it, ir.Eq)
        it.getattr(o, "args")
        try:
            r = it.call(it.class_lookup(ir.Eq, "to_rosette"), [One(o)])
            got = RosReader(it).one(r)
        except SymRaise as e:
            ctx.fail("Eq.to_rosette raises no exception", repr(e.value))
            return
        except ParseError as e:
            ctx.fail("Eq.to_rosette is one well-formed term", f"{e}: {r!r}")
            return
        op = "set-eq" if ctx.branch(Ty.is_TSet(tyof(arg(o.id, 0)))) else "equal?"
        den_eq(it, got, DApp(op, [One(DLeaf(D(arg(o.id, 0)))), One(DLeaf(D(arg(o.id, 1))))]), "Eq.to_rosette compares the operands with the equality of their type")
    ctx.explore(path)


def pre_tuple(it, o):
    it.ctx.assume(argn(o.id) >= 1)


PRE = {"Call": pre_other, "TupleExpr": pre_tuple}
UNITS = {}
for _n in ["Var", "Lit", "Add", "Sub", "Mul", "Div", "Mod", "Lt", "Le", "Gt", "Ge", "And", "Or", "Not", "Implies", "Ite", "Let", "TupleExpr", "Call", "CallValue"]:
    UNITS[_n + ".to_rosette"] = expr_unit(getattr(ir, _n), "to_rosette", ROS, RosReader, pre=PRE.get(_n))
UNITS["Eq.to_rosette"] = eq_unit
for _n in list(LIB) + ["ite"]:
    UNITS[f"Call.to_rosette[{_n}]"] = expr_unit(ir.Call, "to_rosette", ROS, RosReader, pre=pre_named(_n))


# ---- declarations ---------------------------------------------------------------
def ros_decl_unit(cls):
    def run(ctx):
        it = I.Interp(ctx, base_contracts())

        def path():
            body = new_obj(it, z3.Const("bodyobj", Obj))
            o, nm, ret, n, idx, par = decl_obj(it, cls, body)
            what = f"{cls.__name__}.to_rosette"
            uninterp = Sym(z3.Bool("is_uninterp"))
            try:
                r = it.call(it.getattr(o, "to_rosette"), [], {"is_uninterp": uninterp})
            except SymRaise as e:
                ctx.fail(f"{what} raises no exception", f"{e.value!r} {getattr(e.value, 'attrs', '')}")
                return
            try:
                xs = parse_rope(it, r, ("ros",))
                if len(xs) != 1 or not isinstance(xs[0], SList) or len(xs[0].items) != 3:
                    raise ParseError("(define (name parameters) body) expected")
                h, sig, b = xs[0].items
                want = ("define",) if cls is ir.FnDecl else ("define-bounded", "define")
                if not isinstance(h, Tok) or h.text() not in want or not isinstance(sig, SList) or not sig.items:
                    raise ParseError("(define (name parameters) body) expected")
                ctx.prove(text_atoms(it, sig.items[0]) == nm, f"{what} defines the name of the function")
                check_ros_params(it, sig.items[1:], n, idx, par, what)
                den_eq(it, RosReader(it).den(b), DLeaf(D(body.id)), f"{what} gives the body")
            except ParseError as e:
                ctx.fail(f"{what} is a well-formed definition", f"{e}: {r!r}")
        ctx.explore(path)
    return run


def check_ros_params(it, items, n, idx, par, what):
    if not items:
        it.ctx.prove(n == 0, f"{what} lists every parameter")
        return
    if len(items) != 1 or not isinstance(items[0], Seg) or len(items[0].exprs) != 1:
        raise ParseError(f"parameters {items}")
    g = items[0]
    it.ctx.prove(g.many.n == n, f"{what} lists every parameter")
    pid = z3.substitute(par.id, (idx, g.many.idx))
    with it.scope(Many(g.many.n, g.many.idx, None)):
        e = g.exprs[0]
        # the text of a variable is its name (Var.to_rosette)
        if isinstance(e, Atom) and e.kind == "ros":
            it.ctx.prove(e.ref.id == pid, f"{what} lists parameter i in place i")
        else:
            it.ctx.prove(text_atoms(it, e) == nameof(pid), f"{what} lists parameter i in place i")


def ros_uninterp_unit(cls):
    """a function without body: (define-symbolic name (~> argument types result type))"""
    def run(ctx):
        it = I.Interp(ctx, base_contracts())

        def path():
            o, nm, ret, n, idx, par = decl_obj(it, cls, None)
            # only Int and Bool have Rosette predicates
            ctx.add(prim(ret.t))
            ctx.add_univ(n, idx, prim(tyof(par.id)))
            what = f"{cls.__name__}.to_rosette"
            try:
                r = it.call(it.getattr(o, "to_rosette"), [], {"is_uninterp": True})
                xs = parse_rope(it, r, ("ros",))
                if len(xs) != 1 or not isinstance(xs[0], SList) or len(xs[0].items) != 3 or not isinstance(xs[0].items[2], SList):
                    raise ParseError("(define-symbolic name (~> types)) expected")
                h, nme, sig = xs[0].items
                if h.text() != "define-symbolic" or sig.items[0].text() != "~>":
                    raise ParseError("(define-symbolic name (~> types)) expected")
                ctx.prove(text_atoms(it, nme) == nm, f"{what} declares the name of the function")
                ctx.prove(text_atoms(it, sig.items[-1]) == TYROS(ret.t), f"{what} declares the result type last")
                mid = sig.items[1:-1]
                if not mid:
                    ctx.prove(n == 0, f"{what} declares every argument type")
                else:
                    if len(mid) != 1 or not isinstance(mid[0], Seg) or len(mid[0].exprs) != 1:
                        raise ParseError("argument types")
                    g = mid[0]
                    ctx.prove(g.many.n == n, f"{what} declares every argument type")
                    pid = z3.substitute(par.id, (idx, g.many.idx))
                    with it.scope(Many(g.many.n, g.many.idx, None)):
                        ctx.prove(text_atoms(it, g.exprs[0]) == TYROS(tyof(pid)), f"{what} declares argument type i in place i")
            except SymRaise as e:
                ctx.fail(f"{what} raises no exception", f"{e.value!r} {getattr(e.value, 'attrs', '')}")
            except ParseError as e:
                ctx.fail(f"{what} is a well-formed declaration", f"{e}: {r!r}")
        ctx.explore(path)
    return run


def prim(t):
    return z3.Or(t == Ty.TInt, t == Ty.TBool)


def TYROS(t):
    return z3.If(t == Ty.TInt, S("integer?"), S("boolean?"))


def axiom_unit(ctx):
    """axioms are for verification only: nothing reaches the synthesizer"""
    it = I.Interp(ctx, base_contracts())

    def path():
        n = z3.Int("nvars")
        ctx.add(n >= 0)
        idx = it.idx_for(n)
        par = VObj((ir.Var,), z3.Function("param", z3.IntSort(), Obj)(idx), {}, lazy=True, sort="expr")
        body = new_obj(it, z3.Const("bodyobj", Obj))
        o = it.call(ir.Axiom, [One(body), Many(n, idx, par)])
        r = it.call(it.getattr(o, "to_rosette"), [])
        ctx.prove(z3.BoolVal(not [x for x in parse_rope(it, r, ("ros",))]), "Axiom.to_rosette adds nothing to the program")
    ctx.explore(path)


for _c in (ir.FnDecl, ir.FnDeclRecursive):
    UNITS[f"{_c.__name__}.to_rosette"] = ros_decl_unit(_c)
    UNITS[f"{_c.__name__}.to_rosette[uninterpreted]"] = ros_uninterp_unit(_c)
UNITS["Axiom.to_rosette"] = axiom_unit
