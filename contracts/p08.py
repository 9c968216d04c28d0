"""P08: the constructors of the IR accept exactly well-typed operands."""
import z3
from pyvc.core import *
from pyvc import interp as I
from .irspec import *
from .p04 import sden, vden, STRV, OBJV
import metalift.ir as ir

PID = "P08"
OPER = z3.Function("oper", z3.IntSort(), Obj)
# operand count of each constructor: (least, exact)
ONE_TYPE = {"Add": (1, None), "Mul": (1, None), "Sub": (2, 2), "Div": (2, 2), "Mod": (2, 2), "Choose": (1, None)}
CMP = ("Lt", "Le", "Gt", "Ge")


def operand(it, i):
    o = new_obj(it, OPER(i if z3.is_expr(i) else z3.IntVal(i)), EXPR, facts=False)
    for c in EXPR:
        it.con.code(c)
    return o


def many_operands(it, least=0):
    n = z3.Int("nargs")
    it.ctx.add(n >= least)
    idx = it.idx_for(n)
    return Many(n, idx, operand(it, idx))


def same_named(a, b):
    return TYSTR(a) == TYSTR(b)


def assume_all(it, m, f):
    """assume f (about the element m.idx) for every element"""
    it.ctx.add_univ(m.n, m.idx, z3.Implies(z3.And(m.idx >= 0, m.idx < m.n), f))
    for p in {t.sexpr(): t for _, t in it.ctx.points}.values():
        it.ctx.instantiate(m.n, p)


def prove_all(it, m, f, what):
    with it.scope(Many(m.n, m.idx, None)):
        it.ctx.prove(z3.Implies(z3.And(m.idx >= 0, m.idx < m.n), f), what)


def check_built(it, r, cls, ty, segs, what):
    r = it.split(r)
    ok = isinstance(r, VObj) and r.cls is cls
    it.ctx.prove(z3.BoolVal(ok), f"{what}: an expression of that operator", repr(r))
    if not ok:
        return None
    t = it.type_term(it.getattr(r, "type"))
    it.ctx.prove(z3.BoolVal(t is not None) if t is None else t == ty, f"{what}: its type")
    den_eq(it, DApp("args", sden(it, it.seq(it.getattr(r, "args")))), DApp("args", sden(it, segs)), f"{what}: holds exactly the operands in order")
    return r


def nary_unit(cls, elem_type, least, exact, result):
    """elem_type None: all operands of one type; else all of that type"""
    def run(ctx):
        it = I.Interp(ctx, base_contracts())
        name = cls.__name__

        def path():
            m = many_operands(it)
            r = e = None
            try:
                r = it.call(cls, [m])
            except SymRaise as x:
                e = x
            want = elem_type if elem_type is not None else tyof(OPER(z3.IntVal(0)))
            if e is None:
                count = m.n == exact if exact else m.n >= least
                ctx.prove(count, f"{name}: accepted only with the right number of operands")
                ctx.instantiate(m.n, z3.IntVal(0))
                prove_all(it, m, tyof(m.val.id) == want if elem_type is not None else same_named(tyof(m.val.id), want),
                          f"{name}: accepted only if every operand has the right type")
                check_built(it, r, cls, result(), [m], name)
            else:
                # nothing well typed is refused
                ctx.assume(m.n == exact if exact else m.n >= least)
                assume_all(it, m, tyof(m.val.id) == want)
                ctx.fail(f"{name}: well-typed operands are accepted", repr(e.value))
        ctx.explore(path)
    return run


def fixed_unit(cls, k, typed, result):
    """typed(t) -> (z3: must hold when accepted, z3: suffices for acceptance)"""
    def run(ctx):
        it = I.Interp(ctx, base_contracts())
        name = cls.__name__

        def path():
            os = [operand(it, i) for i in range(k)]
            ts = [tyof(o.id) for o in os]
            need, suffices = typed(ts)
            try:
                r = it.call(cls, [One(o) for o in os])
            except SymRaise as e:
                ctx.prove(z3.Not(suffices), f"{name}: well-typed operands are accepted", repr(e.value))
                return
            ctx.prove(need, f"{name}: accepted only if the operands are well typed")
            check_built(it, r, cls, result(ts), [One(o) for o in os], name)
        ctx.explore(path)
    return run


def all_bool(ts):
    f = zand([t == Ty.TBool for t in ts])
    return f, f


def one_type(ts):
    return zand([same_named(t, ts[0]) for t in ts[1:]]), zand([t == ts[0] for t in ts[1:]])


def any_type(ts):
    return z3.BoolVal(True), z3.BoolVal(True)


def ite_typed(ts):
    return z3.And(ts[0] == Ty.TBool, same_named(ts[1], ts[2])), z3.And(ts[0] == Ty.TBool, ts[1] == ts[2])


def call_unit(target):
    def run(ctx):
        it = I.Interp(ctx, base_contracts())

        def path():
            m = many_operands(it)
            nm = z3.String("fname")
            ret = SType(z3.Const("retT", Ty))
            name = Rope([Atom(nm, "name", None)])
            cls = ir.TargetCall if target else ir.Call
            extra = [One(None)] if target else []
            try:
                r = it.call(cls, [One(name), One(ret)] + extra + [m])
            except SymRaise as e:
                ctx.fail(f"{cls.__name__}: can be built", repr(e.value))
                return
            r = check_built(it, r, cls, ret.t, [One(name), m], cls.__name__)
            if r is None:
                return
            den_eq(it, DApp("a", sden(it, it.seq(it.call(it.getattr(r, "arguments"), [])))), DApp("a", sden(it, [m])), f"{cls.__name__}.arguments(): the arguments")
            g = it.call(it.getattr(r, "name"), [])
            ctx.prove(it.str_term(rope(g)) == nm, f"{cls.__name__}.name(): the name")
        ctx.explore(path)
    return run


def callvalue_unit(ctx):
    it = I.Interp(ctx, base_contracts())

    def path():
        m = many_operands(it)
        f = new_obj(it, z3.Const("callee", Obj), (ir.Var,))
        ctx.add(clsof(f.id) == it.con.code(ir.Var))
        ctx.add(z3.And(Ty.is_TFn(tyof(f.id)), TyL.is_cons(Ty.fn_of(tyof(f.id)))))
        try:
            r = it.call(ir.CallValue, [One(f), m])
        except SymRaise as e:
            ctx.fail("CallValue: can be built from a function value", repr(e.value))
            return
        r = check_built(it, r, ir.CallValue, TyL.hd(Ty.fn_of(tyof(f.id))), [One(f), m], "CallValue")
        if r is not None:
            den_eq(it, DApp("a", sden(it, it.seq(it.call(it.getattr(r, "arguments"), [])))), DApp("a", sden(it, [m])), "CallValue.arguments(): the arguments")
    ctx.explore(path)


def tuple_unit(ctx):
    it = I.Interp(ctx, base_contracts())

    def path():
        m = many_operands(it)
        try:
            r = it.call(ir.TupleExpr, [m])
        except SymRaise as e:
            ctx.fail("TupleExpr: can be built", repr(e.value))
            return
        want = Ty.TTuple(it.tyl(VList([Many(m.n, m.idx, SType(tyof(m.val.id)))])))
        check_built(it, r, ir.TupleExpr, want, [m], "TupleExpr")
    ctx.explore(path)


def let_unit(ctx):
    it = I.Interp(ctx, base_contracts())

    def path():
        os = [operand(it, i) for i in range(3)]
        try:
            r = it.call(ir.Let, [One(o) for o in os])
        except SymRaise as e:
            ctx.fail("Let: can be built", repr(e.value))
            return
        check_built(it, r, ir.Let, tyof(os[2].id), [One(o) for o in os], "Let")
    ctx.explore(path)


def decl_unit(cls):
    def run(ctx):
        it = I.Interp(ctx, base_contracts())

        def path():
            m = many_operands(it)
            body = new_obj(it, z3.Const("bodyobj", Obj))
            nm = z3.String("fname")
            name = Rope([Atom(nm, "name", None)])
            ret = SType(z3.Const("retT", Ty))
            what = cls.__name__
            if cls is ir.Synth:
                a = [One(name), One(body), m]
                want = tyof(body.id)
            elif cls is ir.Axiom:
                a = [One(body), m]
                want = Ty.TBool
            else:
                a = [One(name), One(ret), One(body), m]
                want = Ty.TFn(TyL.cons(ret.t, it.tyl(VList([Many(m.n, m.idx, SType(tyof(m.val.id)))]))))
            try:
                r = it.call(cls, a)
            except SymRaise as e:
                ctx.fail(f"{what}: can be built", repr(e.value))
                return
            segs = ([] if cls is ir.Axiom else [One(name)]) + [One(body), m]
            r = check_built(it, r, cls, want, segs, what)
            if r is None:
                return
            get = lambda n: it.call(it.getattr(r, n), [])
            den_eq(it, DApp("a", sden(it, it.seq(get("vars" if cls is ir.Axiom else "arguments")))), DApp("a", sden(it, [m])), f"{what}: its parameters")
            b = it.split(get("e" if cls is ir.Axiom else "body"))
            ctx.prove(z3.BoolVal(b is body), f"{what}: its body")
            if cls is not ir.Axiom:
                ctx.prove(it.str_term(rope(get("name"))) == nm, f"{what}: its name")
            if cls in (ir.FnDecl, ir.FnDeclRecursive):
                ctx.prove(it.type_term(get("return_type")) == ret.t, f"{what}: its return type")
        ctx.explore(path)
    return run


def accessor_unit(cls, names):
    def run(ctx):
        it = I.Interp(ctx, base_contracts())

        def path():
            o = self_of(it, cls)
            segs = it.seq(it.getattr(o, "args"))
            for nm, k in names.items():
                try:
                    r = it.split(it.call(it.getattr(o, nm), []))
                except SymRaise as e:
                    ctx.fail(f"{cls.__name__}.{nm}(): gives an operand", repr(e.value))
                    continue
                w = it.split(segs[k].v)
                ctx.prove(z3.BoolVal(vkey(r) == vkey(w)), f"{cls.__name__}.{nm}(): operand {k}", repr(r))
        ctx.explore(path)
    return run


def setter_unit(cls):
    def run(ctx):
        it = I.Interp(ctx, base_contracts())

        def path():
            m = many_operands(it)
            nm, nm2 = z3.String("fname"), z3.String("fname2")
            body, body2 = new_obj(it, z3.Const("bodyobj", Obj)), new_obj(it, z3.Const("bodyobj2", Obj))
            ret = SType(z3.Const("retT", Ty))
            name, name2 = Rope([Atom(nm, "name", None)]), Rope([Atom(nm2, "name", None)])
            o = it.call(cls, [One(name), One(ret), One(body), m])
            n2 = z3.Int("nargs2")
            ctx.add(n2 >= 0)
            idx = it.idx_for(n2)
            m2 = Many(n2, idx, new_obj(it, z3.Function("oper2", z3.IntSort(), Obj)(idx), EXPR, facts=False))
            cur = [One(name), One(body), m]
            for meth, a, new in (("set_name", name2, lambda c: [One(name2)] + c[1:]), ("set_body", body2, lambda c: [c[0], One(body2)] + c[2:]),
                                 ("set_arguments", VList([m2]), lambda c: c[:2] + [m2])):
                try:
                    it.call(it.getattr(o, meth), [One(a)])
                except SymRaise as e:
                    ctx.fail(f"{cls.__name__}.{meth}: raises no exception", repr(e.value))
                    return
                cur = new(cur)
                den_eq(it, DApp("args", sden(it, it.seq(it.getattr(o, "args")))), DApp("args", sden(it, cur)), f"{cls.__name__}.{meth}: replaces that part and no other")
        ctx.explore(path)
    return run


UNITS = {}
for _c in (ir.FnDecl, ir.FnDeclRecursive):
    UNITS[f"{_c.__name__} setters"] = setter_unit(_c)
_int, _bool = (lambda *a: Ty.TInt), (lambda *a: Ty.TBool)
for _n, (_l, _x) in ONE_TYPE.items():
    UNITS[_n] = nary_unit(getattr(ir, _n), None, _l, _x, (lambda: tyof(OPER(z3.IntVal(0)))) if _n == "Choose" else _int)
for _n in ("And", "Or"):
    UNITS[_n] = nary_unit(getattr(ir, _n), Ty.TBool, 1, None, _bool)
for _n in CMP:
    UNITS[_n] = fixed_unit(getattr(ir, _n), 2, one_type, _bool)
UNITS["Eq"] = fixed_unit(ir.Eq, 2, any_type, _bool)
UNITS["Not"] = fixed_unit(ir.Not, 1, all_bool, _bool)
UNITS["Implies"] = fixed_unit(ir.Implies, 2, all_bool, _bool)
UNITS["Ite"] = fixed_unit(ir.Ite, 3, ite_typed, lambda ts: ts[1])
UNITS["Assert"] = fixed_unit(ir.Assert, 1, any_type, _bool)
UNITS["Constraint"] = fixed_unit(ir.Constraint, 1, any_type, _bool)
UNITS["Call"] = call_unit(False)
UNITS["TargetCall"] = call_unit(True)
UNITS["CallValue"] = callvalue_unit
UNITS["TupleExpr"] = tuple_unit
UNITS["Let"] = let_unit
for _c in (ir.FnDecl, ir.FnDeclRecursive, ir.Synth, ir.Axiom):
    UNITS[_c.__name__] = decl_unit(_c)
for _n, _d in {"Eq": ("e1", "e2"), "Lt": ("e1", "e2"), "Le": ("e1", "e2"), "Gt": ("e1", "e2"), "Ge": ("e1", "e2"), "Ite": ("c", "e1", "e2"), "Let": ("v", "e", "e2"),
               "Assert": ("e",), "Constraint": ("e",), "Var": ("name",), "Lit": ("val",)}.items():
    UNITS[f"{_n} accessors"] = accessor_unit(getattr(ir, _n), {a: k for k, a in enumerate(_d)})

BOUNDED = []
ASSUMPTIONS = [
    "two operands have the same type if their types are equal; constructors that compare the printed names of the types (get_type_str) may also accept types that print alike (nested containers inside sets and tuples), which the check leaves open",
    "operands are expressions; the called value of CallValue is a variable of function type",
]
