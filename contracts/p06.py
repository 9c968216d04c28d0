"""P06: structural equality of expressions."""
import z3
from pyvc.core import *
from pyvc import interp as I
from .irspec import *
from .p04 import STRV
import metalift.ir as ir

PID = "P06"
ASSUMPTIONS = [
    'types of variables and calls are not part of the comparison (one name has one type)',
    'hash of strings and tuples is a function of their value',
]
SAME = z3.Function("same", Obj, Obj, z3.BoolSort())     # Expr.__eq__ of operands, by contract
_BASE = ["Var", "Lit", "Add", "Sub", "Mul", "Div", "Mod", "Eq", "Lt", "Le", "Gt", "Ge", "And", "Or", "Not", "Implies", "Ite", "Let", "TupleExpr", "Choose", "Call", "CallValue"]


def atom_eq(it, a, b):
    """equality of two operands: z3 term"""
    a, b = it.split(a), it.split(b)
    if isinstance(a, VObj) and isinstance(b, VObj):
        return SAME(a.id, b.id)
    if isinstance(a, (str, Rope)) and isinstance(b, (str, Rope)):
        return it.str_term(rope(a)) == it.str_term(rope(b))
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.t == b.t if a.t.sort() == b.t.sort() else z3.BoolVal(False)
    return z3.BoolVal(False)


def eq_unit(cls, ne=False):
    def run(ctx):
        con = base_contracts()
        top = []

        def eqc(it, args, kw):
            a, b = it.split(args[0].v), it.split(args[1].v)
            if not top:
                top.append(1)
                return it.run_func(it.vfunc(ir.Expr.__eq__), args, kw)
            if isinstance(a, VObj) and isinstance(b, VObj):
                return Sym(SAME(a.id, b.id))
            return NotImplemented
        con.by_qual["metalift.ir.Expr.__eq__"] = eqc
        con.virtual["__eq__"] = lambda it, o, a, k: eqc(it, [One(o)] + list(a), k)
        it = I.Interp(ctx, con)

        def path():
            top.clear()
            a = self_of(it, cls)
            b = new_obj(it, z3.Const("other", Obj))
            what = f"{cls.__name__} {'!=' if ne else '=='}"
            try:
                r = it.call(ir.Expr.__ne__ if ne else ir.Expr.__eq__, [One(a), One(b)])
            except SymRaise as e:
                ctx.fail(f"{what}: raises no exception", repr(e.value))
                return
            if r is NotImplemented:
                ctx.fail(f"{what}: two expressions are comparable", "")
                return
            t = it._tt(r)
            if ne:
                t = z3.Not(t)
            same_cls = ctx.branch(clsof(b.id) == con.code(cls))
            if not same_cls:
                ctx.prove(z3.Not(t), f"{what}: different operators are different")
                return
            it.narrow(b, [cls])
            sa, sb = it.seq(it.getattr(a, "args")), it.seq(it.getattr(b, "args"))
            parts, wits = [], []
            for x, y in zip(sa, sb):
                if isinstance(x, One):
                    parts.append(atom_eq(it, x.v, y.v))
                else:
                    w = ctx.fresh(z3.IntSort(), "wit")
                    al = ctx.fresh(z3.BoolSort(), "all_same")
                    e = SAME(x.val.id, z3.substitute(y.val.id, (y.idx, x.idx)))
                    ctx.add_univ(x.n, x.idx, z3.Implies(z3.And(al, x.idx >= 0, x.idx < x.n), e))
                    ctx.assume(z3.Implies(z3.Not(al), z3.And(w >= 0, w < x.n, z3.Not(z3.substitute(e, (x.idx, w))))))
                    wits += [(x.n, w), (y.n, w)]
                    parts += [x.n == y.n, z3.Or(x.n != y.n, al)]
            pts = [t_ for _, t_ in ctx.points] + [w for _, w in wits]
            for n in {n.sexpr(): n for n, _ in wits}.values():
                for p in {p.sexpr(): p for p in pts}.values():
                    ctx.instantiate(n, p)
            ctx.prove(t == zand(parts), f"{what}: equal exactly when the operands are equal, one by one")
        ctx.explore(path)
    return run


def other_unit(ctx):
    con = base_contracts()
    it = I.Interp(ctx, con)

    def path():
        a = new_obj(it, z3.Const("self", Obj))
        k = ctx.choose(4)
        b = [None, Rope([Atom(z3.String("text"), "name")]), Sym(z3.Int("number")), vlist([])][k]
        r = it.call(ir.Expr.__eq__, [One(a), One(b)])
        ctx.prove(z3.BoolVal(r is NotImplemented), "an expression and something else are not compared")
        r = it.call(ir.Expr.__ne__, [One(a), One(b)])
        ctx.prove(z3.BoolVal(r is NotImplemented), "an expression and something else are not compared (!=)")
    ctx.explore(path)


UNITS = {"other": other_unit}
for _n in _BASE:
    UNITS[_n + ".__eq__"] = eq_unit(getattr(ir, _n))
for _n in ("Var", "Add", "Call", "Eq"):
    UNITS[_n + ".__ne__"] = eq_unit(getattr(ir, _n), True)


def hash_unit(ctx):
    con = base_contracts()
    it = I.Interp(ctx, con)

    def path():
        i = ctx.choose(len(_BASE))
        cls = getattr(ir, _BASE[i])
        a = self_of(it, cls)
        b = new_obj(it, z3.Const("other", Obj), (cls,))
        ctx.add(clsof(b.id) == con.code(cls))
        # two equal expressions: pairwise equal operands
        h = [it.call(ir.Expr.__hash__, [One(x)]) for x in (a, b)]
        ctx.prove(it.num(h[0]) == it.num(h[1]), f"{cls.__name__}: equal expressions have equal hashes")
    ctx.explore(path)


UNITS["hash"] = hash_unit
BOUNDED = ["Expr.findCommonExprs: compared with an independent traversal on the generated expressions only"]
