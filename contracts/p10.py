"""P10: the function bodies read back from the synthesizer's answer."""
import z3
from pyvc.core import *
from pyvc import interp as I
from .irspec import *
from .p04 import sden
from .p08 import operand, OPER, check_built, assume_all
import metalift.ir as ir
import metalift.synthesize_rosette as sr

PID = "P10"
Q = "metalift.synthesize_rosette."
STR = z3.StringSort()
INFNS = z3.Function("in_fns", STR, z3.BoolSort())
FNTY = z3.Function("fn_type", STR, Ty)
INVARS = z3.Function("in_vars", STR, z3.BoolSort())
VARTY = z3.Function("var_type", STR, Ty)
T = z3.Const("T", Ty)
TI, TB, L, M, T3, SET = Ty.TInt, Ty.TBool, Ty.TList, Ty.TMatrix, Ty.TTensor3D, Ty.TSet

# operator: class, operand types (None: any one type)
OPS = {"+": ("Add", TI), "*": ("Mul", TI), "&&": ("And", TB), "or": ("Or", TB)}
BINOPS = {"-": ("Sub", TI, TI), "quotient-noerr": ("Div", TI, TI), "remainder": ("Mod", TI, TI), "<": ("Lt", TI, TB), "<=": ("Le", TI, TB), ">": ("Gt", TI, TB),
          ">=": ("Ge", TI, TB), "=>": ("Implies", TB, TB), "equal?": ("Eq", None, TB), "=": ("Eq", None, TB), "set-eq": ("Eq", None, TB)}
# library function: name in the IR, operand types, result type (T: any element type)
LIB = {
    "length": ("list_length", [L(T)], TI), "matrix-length": ("matrix_length", [M(T)], TI), "tensor3d-length": ("tensor3d_length", [T3(T)], TI),
    "list-empty": ("list_empty", [], L(TI)), "matrix-empty": ("matrix_empty", [], M(TI)), "tensor3d-empty": ("tensor3d_empty", [], T3(TI)),
    "list-append": ("list_append", [L(T), T], L(T)), "matrix-append": ("matrix_append", [M(T), L(T)], M(T)), "tensor3d-append": ("tensor3d_append", [T3(T), M(T)], T3(T)),
    "list-prepend": ("list_prepend", [T, L(T)], L(T)), "matrix-prepend": ("matrix_prepend", [L(T), M(T)], M(T)), "tensor3d-prepend": ("tensor3d_prepend", [M(T), T3(T)], T3(T)),
    "list-ref-noerr": ("list_get", [L(T), TI], T), "matrix-ref-noerr": ("matrix_get", [M(T), TI], L(T)), "tensor3d-ref-noerr": ("tensor3d_get", [T3(TI), TI], M(TI)),
    "list-tail-noerr": ("list_tail", [L(T), TI], L(T)), "matrix-tail-noerr": ("matrix_tail", [M(T), TI], M(T)), "tensor3d-tail-noerr": ("tensor3d_tail", [T3(T), TI], T3(T)),
    "list-take-noerr": ("list_take", [L(T), TI], L(T)), "matrix-take-noerr": ("matrix_take", [M(T), TI], M(T)), "tensor3d-take-noerr": ("tensor3d_take", [T3(T), TI], T3(T)),
    "list-concat": ("list_concat", [L(T), L(T)], L(T)),
    "vec-slice-noerr": ("vec_slice", [L(T), TI, TI], L(T)), "matrix-row-slice-noerr": ("matrix_row_slice", [M(T), TI, TI], M(T)), "tensor3d-slice-noerr": ("tensor3d_slice", [T3(T), TI, TI], T3(T)),
    "vec-slice-with-length-noerr": ("vec_slice_with_length", [L(T), TI, TI], L(T)),
    "matrix-row-slice-with-length-noerr": ("matrix_row_slice_with_length", [M(T), TI, TI], M(T)),
    "tensor3d-slice-with-length-noerr": ("tensor3d_slice_with_length", [T3(T), TI, TI], T3(T)),
    "matrix-col-slice-noerr": ("matrix_col_slice", [M(T), TI, TI], M(T)), "matrix-col-slice-with-length-noerr": ("matrix_col_slice_with_length", [M(T), TI, TI], M(T)),
    "matrix-transpose-noerr": ("matrix_transpose", [M(T)], M(T)),
    "integer-sqrt-noerr": ("integer_sqrt", [TI], TI), "integer-exp-noerr": ("integer_exp", [TI], TI),
    "set-create": ("set-create", [], SET(TI)), "set-insert": ("set-insert", [T, SET(T)], SET(T)), "set-singleton": ("set-singleton", [T], SET(T)),
    "set-union": ("set-union", [SET(T), SET(T)], SET(T)), "set-minus": ("set-minus", [SET(T), SET(T)], SET(T)),
    "set-subset": ("set-subset", [SET(T), SET(T)], TB), "set-member": ("set-member", [T, SET(T)], TB),
}
HEADS = set(OPS) | set(BINOPS) | set(LIB) | {"!", "define", "choose", "if", "let", "make-tuple", "tupleGet", "lambda", "map-union", "map-values", "map-singleton", "map-create", "map-get", "reduce_int", "reduce_bool"}


def canonical(t):
    """a matrix is a list of lists"""
    if t.decl().kind() != z3.Z3_OP_DT_CONSTRUCTOR or t.num_args() == 0:
        return t
    n, c = t.decl().name(), [canonical(x) if x.sort() == Ty else x for x in t.children()]
    if n == "TMatrix":
        return L(L(c[0]))
    if n == "TTensor3D":
        return L(L(L(c[0])))
    return t.decl()(*c)


def symbolic_dict(member, typ):
    def base(it, d, k):
        t = it.str_term(rope(it.split(k)))
        return member(t), (lambda: SType(typ(t)))
    base.keys = lambda it, d: Opaque("keys", {"__contains__": SpecFn(lambda it, a, k: Sym(member(it.str_term(rope(it.split(a[0].v))))), "in keys")})
    return VDict([], base)


class Env:
    def __init__(self):
        self.fns, self.vars, self.choices = symbolic_dict(INFNS, FNTY), symbolic_dict(INVARS, VARTY), VDict([])
        self.bound = None       # (name, value) a let may add


def child(i):
    return Opaque("ast", {}, i if z3.is_expr(i) else z3.IntVal(i))


def setup(ctx):
    con = base_contracts()
    it = I.Interp(ctx, con)
    env = Env()
    it.env = env

    def rec(it, a, k):
        names = ["ast", "fnsType", "varType", "choices", "typeHint"]
        b = dict(zip(names, [x.v for x in a]))
        b.update(k)
        v = it.split(b["ast"])
        if not (isinstance(v, Opaque) and v.tag == "ast"):
            it.unsupported("reading of a term that is not part of the given one")
        ok = b.get("fnsType") is env.fns and b.get("choices") is env.choices
        ctx.prove(z3.BoolVal(ok), "subterms are read with the same functions and grammar rules")
        d = b.get("varType")
        if d is not env.vars:
            good = env.bound is not None and isinstance(d, VDict) and d.base is env.vars.base and len(d.entries) == 1
            ctx.prove(z3.BoolVal(good), "subterms are read with the same variables (a let adds its variable)")
            if good:
                kk, vv = d.entries[0]
                ctx.prove(it.str_term(rope(kk)) == env.bound[0], "the variable bound by a let is known in its body")
                ctx.prove(it.type_term(vv) == tyof(OPER(env.bound[1])), "the variable bound by a let has the type of its value")
                ctx.scratch["let"] = True
        else:
            ctx.prove(z3.BoolVal(env.bound is None or not v.id.eq(env.bound[2])), "the body of a let knows its variable")
        return operand(it, v.id)
    con.by_qual[Q + "to_expr"] = rec
    con.by_qual["str.isnumeric"] = isnumeric
    return it, env


def isnumeric(it, a, k):
    r = rope(it.split(a[0].v))
    if r.parts and all(isinstance(p, DecAtom) or isinstance(p, str) and p.isnumeric() for p in r.parts):
        return True
    if any(isinstance(p, str) and not p.isnumeric() for p in r.parts):
        return False
    t = it.str_term(r)
    return Sym(z3.Function("isnumeric", STR, z3.BoolSort())(t))


def read(it, env, ast):
    f = it.vfunc(sr.to_expr)
    return it.run_func(f, [One(ast), One(env.fns), One(env.vars), One(env.choices)], {})


def after(it, env):
    it.ctx.prove(z3.BoolVal(not env.vars.entries and not env.fns.entries), "the known variables and functions are left alone")


def unit(body):
    def run(ctx):
        def path():
            it, env = setup(ctx)
            body(it, env)
            after(it, env)
        ctx.explore(path)
    return run


def guarded(it, what, f):
    try:
        return f()
    except SymRaise as e:
        it.ctx.fail(f"{what}: can be read", f"{e.value!r} {getattr(e.value, 'attrs', '')}")
        return None


def has_type(it, i, t):
    operand(it, i)
    it.ctx.assume(tyof(OPER(z3.IntVal(i))) == t)


def fixed(head, cls, types, result, name=None):
    def body(it, env):
        for i, t in enumerate(types):
            has_type(it, i + 1, t)
        r = guarded(it, head, lambda: read(it, env, VList([One(head)] + [One(child(i + 1)) for i in range(len(types))])))
        if r is None:
            return
        ops = [One(operand(it, i + 1)) for i in range(len(types))]
        if cls is not ir.Call:
            return check_built(it, r, cls, result, ops, head)
        r = it.split(r)
        ok = isinstance(r, VObj) and r.cls is ir.Call
        it.ctx.prove(z3.BoolVal(ok), f"{head}: a call", repr(r))
        if ok:
            got = it.type_term(it.getattr(r, "type"))
            it.ctx.prove(z3.BoolVal(False) if got is None else z3.Or(got == result, canonical(got) == canonical(result)), f"{head}: its type", str(got))
            den_eq(it, DApp("args", sden(it, it.seq(it.getattr(r, "args")))), DApp("args", sden(it, [One(name)] + ops)), f"{head}: the call of {name} with the operands in order")
    return unit(body)


def nary(head, cls, t, result, least=1):
    def body(it, env):
        n = z3.Int("nargs")
        it.ctx.add(n >= least)
        idx = it.idx_for(n)
        kids = Many(n, idx, child(idx + 1))
        ops = Many(n, idx, operand(it, idx + 1))
        if t is not None:
            assume_all(it, ops, tyof(ops.val.id) == t)
        r = guarded(it, head, lambda: read(it, env, VList([One(head), kids])))
        if r is not None:
            known = [k for k in range(5) if it.ctx.sat(n != k) == z3.unsat]
            check_built(it, r, cls, result, [One(operand(it, i + 1)) for i in range(known[0])] if known else [ops], head)
    return unit(body)


def eq_types(it, k):
    it.ctx.assume(tyof(OPER(z3.IntVal(1))) == tyof(OPER(z3.IntVal(2))))


def eq_unit(head):
    def body(it, env):
        has_type(it, 1, T)
        has_type(it, 2, T)
        if head == "set-eq":
            it.ctx.assume(Ty.is_TSet(T))
        r = guarded(it, head, lambda: read(it, env, VList([One(head), One(child(1)), One(child(2))])))
        if r is not None:
            check_built(it, r, ir.Eq, TB, [One(operand(it, 1)), One(operand(it, 2))], head)
    return unit(body)


def if_unit(it, env):
    has_type(it, 1, TB)
    has_type(it, 2, T)
    has_type(it, 3, T)
    r = guarded(it, "if", lambda: read(it, env, VList([One("if")] + [One(child(i)) for i in (1, 2, 3)])))
    if r is not None:
        check_built(it, r, ir.Ite, T, [One(operand(it, i)) for i in (1, 2, 3)], "if")


def let_unit(it, env):
    x = z3.String("x")
    it.ctx.assume(wf_name(x))
    has_type(it, 1, T)
    name = Rope([Atom(x, "name", None)])
    env.bound = (x, z3.IntVal(1), z3.IntVal(2))
    r = guarded(it, "let", lambda: read(it, env, VList([One("let"), One(VList([One(VList([One(name), One(child(1))]))])), One(child(2))])))
    if r is None:
        return
    r = it.split(r)
    if not (isinstance(r, VObj) and r.cls is ir.Let):
        return it.ctx.fail("let: a let expression", repr(r))
    a = it.seq(it.getattr(r, "args"))
    v = it.split(a[0].v)
    it.ctx.prove(z3.BoolVal(isinstance(v, VObj) and v.cls is ir.Var), "let: binds a variable")
    it.ctx.prove(it.str_term(rope(it.call(it.getattr(v, "name"), []))) == x, "let: the variable's name")
    it.ctx.prove(it.type_term(it.getattr(v, "type")) == T, "let: the variable's type is the value's")
    it.ctx.prove(it.split(a[1].v).id == OPER(z3.IntVal(1)), "let: the value")
    it.ctx.prove(it.split(a[2].v).id == OPER(z3.IntVal(2)), "let: the body")
    it.ctx.prove(it.type_term(it.getattr(r, "type")) == tyof(OPER(z3.IntVal(2))), "let: its type")
    it.ctx.prove(z3.BoolVal(bool(it.ctx.scratch.get("let"))), "let: the body knows the variable")


def pass_unit(head, at):
    def body(it, env):
        r = guarded(it, head, lambda: read(it, env, VList([One(head)] + [One(child(i)) for i in (1, 2)])))
        if r is not None:
            it.ctx.prove(it.split(r).id == OPER(z3.IntVal(at)), f"{head}: the {'body' if head == 'define' else 'first alternative'}")
    return unit(body)


def tuple_get_unit(k):
    def body(it, env):
        l = TyL.nil
        cs = [z3.Const(f"C{i}", Ty) for i in range(k)]
        for c in reversed(cs):
            l = TyL.cons(c, l)
        has_type(it, 1, Ty.TTuple(l))
        for j in range(k):
            # the index is a literal
            i = it.ctx.branch(z3.Int("index") == j)
            if i:
                break
        else:
            raise PathEnd()
        lit = it.call(ir.Lit, [One(j), One(ir.Int)])
        con = it.con.by_qual[Q + "to_expr"]
        it.con.by_qual[Q + "to_expr"] = lambda it, a, kw: lit if it.split(a[0].v).id.eq(z3.IntVal(2)) else con(it, a, kw)
        r = guarded(it, "tupleGet", lambda: read(it, env, VList([One("tupleGet"), One(child(1)), One(child(2))])))
        if r is None:
            return
        r = it.split(r)
        a = it.seq(it.getattr(r, "args"))
        it.ctx.prove(z3.BoolVal(isinstance(r, VObj) and r.cls is ir.Call and a[0].v == "tupleGet" and len(a) == 3), "tupleGet: a call")
        it.ctx.prove(it.type_term(it.getattr(r, "type")) == cs[j], "tupleGet: the type of the component")
        it.ctx.prove(it.split(a[1].v).id == OPER(z3.IntVal(1)), "tupleGet: the tuple")
        it.ctx.prove(z3.BoolVal(it.split(a[2].v) is lit), "tupleGet: the index")
    return unit(body)


def make_tuple_unit(it, env):
    n = z3.Int("nargs")
    it.ctx.add(n >= 1)
    idx = it.idx_for(n)
    r = guarded(it, "make-tuple", lambda: read(it, env, VList([One("make-tuple"), Many(n, idx, child(idx + 1))])))
    if r is None:
        return
    r = it.split(r)
    ok = isinstance(r, VObj) and r.cls is ir.TupleExpr
    it.ctx.prove(z3.BoolVal(ok), "make-tuple: a tuple")
    if ok:
        den_eq(it, DApp("args", sden(it, it.seq(it.getattr(r, "args")))), DApp("args", sden(it, [Many(n, idx, operand(it, idx + 1))])), "make-tuple: the components in order")


def user_call(it, env):
    f = z3.String("f")
    it.ctx.assume(wf_name(f))
    it.ctx.assume(z3.And(*[f != z3.StringVal(h) for h in sorted(HEADS)]))
    l = z3.Const("sig", TyL)
    it.ctx.assume(z3.And(INFNS(f), FNTY(f) == Ty.TFn(l), TyL.is_cons(l)))
    n = z3.Int("nargs")
    it.ctx.add(n >= 0)
    idx = it.idx_for(n)
    name = Rope([Atom(f, "name", None)])
    r = guarded(it, "call", lambda: read(it, env, VList([One(name), Many(n, idx, child(idx + 1))])))
    if r is None:
        return
    r = it.split(r)
    ok = isinstance(r, VObj) and r.cls is ir.Call
    it.ctx.prove(z3.BoolVal(ok), "call: a call", repr(r))
    if ok:
        it.ctx.prove(it.type_term(it.getattr(r, "type")) == TyL.hd(l), "call: the result type of the function")
        den_eq(it, DApp("args", sden(it, it.seq(it.getattr(r, "args")))), DApp("args", sden(it, [One(name), Many(n, idx, operand(it, idx + 1))])), "call: name and arguments in order")


def unknown_head(it, env):
    f = z3.String("f")
    it.ctx.assume(wf_name(f))
    it.ctx.assume(z3.And(*[f != z3.StringVal(h) for h in sorted(HEADS)]))
    it.ctx.assume(z3.Not(INFNS(f)))
    try:
        r = read(it, env, VList([One(Rope([Atom(f, "name", None)])), One(child(1))]))
    except SymRaise:
        return
    it.ctx.fail("an unknown function is refused", repr(r))


def number_unit(neg):
    def body(it, env):
        n = z3.Int("n")
        it.ctx.assume(n >= (1 if neg else 0))
        r = guarded(it, "number", lambda: read(it, env, Rope((["-"] if neg else []) + [DecAtom(n)])))
        if r is None:
            return
        r = it.split(r)
        ok = isinstance(r, VObj) and r.cls is ir.Lit
        it.ctx.prove(z3.BoolVal(ok), "number: a literal", repr(r))
        if ok:
            v = it.seq(it.getattr(r, "args"))[0].v
            it.ctx.prove(it.num(v) == (-n if neg else n), "number: its value")
            it.ctx.prove(it.type_term(it.getattr(r, "type")) == TI, "number: an integer")
    return unit(body)


def bool_unit(it, env):
    for s in ("true", "false"):
        r = guarded(it, s, lambda: read(it, env, s))
        if r is None:
            return
        r = it.split(r)
        ok = isinstance(r, VObj) and r.cls is ir.Lit
        it.ctx.prove(z3.BoolVal(ok and it.seq(it.getattr(r, "args"))[0].v is (s == "true")), f"{s}: its value", repr(r))
        it.ctx.prove(it.type_term(it.getattr(r, "type")) == TB, f"{s}: a boolean")


def name_unit(it, env):
    x = z3.String("x")
    it.ctx.assume(wf_name(x))
    it.ctx.assume(z3.And(x != z3.StringVal("true"), x != z3.StringVal("false"), z3.Not(z3.PrefixOf(z3.StringVal("-"), x))))
    it.ctx.assume(z3.Not(z3.Function("isnumeric", STR, z3.BoolSort())(x)))
    it.ctx.assume(z3.Or(INFNS(x), INVARS(x)))
    r = guarded(it, "name", lambda: read(it, env, Rope([Atom(x, "name", None)])))
    if r is None:
        return
    r = it.split(r)
    ok = isinstance(r, VObj) and r.cls is ir.Var
    it.ctx.prove(z3.BoolVal(ok), "name: a variable", repr(r))
    if ok:
        it.ctx.prove(it.str_term(rope(it.call(it.getattr(r, "name"), []))) == x, "name: its name")
        it.ctx.prove(it.type_term(it.getattr(r, "type")) == z3.If(INFNS(x), FNTY(x), VARTY(x)), "name: its declared type")


UNITS = {}
for _h, (_c, _t) in OPS.items():
    UNITS[f"to_expr {_h}"] = nary(_h, getattr(ir, _c), _t, _t)
for _h, (_c, _t, _r) in BINOPS.items():
    UNITS[f"to_expr {_h}"] = eq_unit(_h) if _t is None else fixed(_h, getattr(ir, _c), [_t, _t], _r)
UNITS["to_expr !"] = fixed("!", ir.Not, [TB], TB)
for _h, (_n, _ts, _r) in LIB.items():
    UNITS[f"to_expr {_h}"] = fixed(_h, ir.Call, _ts, _r, _n)
UNITS["to_expr if"] = unit(if_unit)
UNITS["to_expr let"] = unit(let_unit)
UNITS["to_expr define"] = pass_unit("define", 2)
UNITS["to_expr choose"] = pass_unit("choose", 1)
for _k in (1, 2, 3, 4):
    UNITS[f"to_expr tupleGet of {_k}"] = tuple_get_unit(_k)
UNITS["to_expr make-tuple"] = unit(make_tuple_unit)
UNITS["to_expr call"] = unit(user_call)
UNITS["to_expr unknown"] = unit(unknown_head)
UNITS["to_expr number"] = number_unit(False)
UNITS["to_expr negative number"] = number_unit(True)
UNITS["to_expr true, false"] = unit(bool_unit)
UNITS["to_expr name"] = unit(name_unit)


# ---- the declared types of variables and functions ------------------------------
def types_unit(fn):
    """generate_types: every variable or function of the list with its type"""
    def run(ctx):
        it = I.Interp(ctx, base_contracts())

        def path():
            n = z3.Int("nvars")
            ctx.add(n >= 0)
            idx = it.idx_for(n)
            dom = (ir.FnDecl, ir.FnDeclRecursive) if fn else (ir.Var,)
            o = VObj(dom, z3.Function("declared", z3.IntSort(), Obj)(idx), {}, lazy=True, sort="expr")
            for c in dom:
                it.con.code(c)
            r = guarded(it, "generate_types", lambda: it.call(sr.generate_types, [One(VList([Many(n, idx, o)]))]))
            if r is None:
                return
            if not isinstance(r, VDict) or r.base is not None:
                return ctx.fail("generate_types: a dictionary", repr(r))
            es = [(k, v) for k, v in r.entries]
            if not es:
                return ctx.prove(n == 0, "generate_types: an entry for every declaration")
            ok = len(es) == 1 and isinstance(es[0][0], Many) and es[0][0].cond is None
            ctx.prove(z3.BoolVal(ok), "generate_types: an entry for every declaration", repr(es))
            if not ok:
                return
            k, v = es[0]
            ctx.prove(k.n == n, "generate_types: an entry for every declaration")
            me = z3.substitute(o.id, (idx, k.idx))
            with it.scope(Many(k.n, k.idx, None)):
                ctx.prove(it.str_term(rope(k.val)) == nameof(me), "generate_types: under its name")
                ctx.prove(it.type_term(v.val if isinstance(v, Many) else v) == tyof(me), "generate_types: with its type")
        ctx.explore(path)
    return run


UNITS["generate_types variables"] = types_unit(False)
UNITS["generate_types functions"] = types_unit(True)


BOUNDED = ["generate_ast (pyparsing) and parse_output are compared on printed expressions and on multi-line solution files",
           "grammar rules left in a solution (replace_choices) are compared on random grammars and solutions", "convert_expr is compared on examples"]
ASSUMPTIONS = ["maps, lambdas and reduce_int/reduce_bool are not covered (their types do not exist in the IR)",
               "names in the solution are not numerals and do not start with '-'",
               "the element type of an empty list or set is not written in the solution: it is read as Int"]
