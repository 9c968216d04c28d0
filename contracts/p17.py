"""P17: the functions read back from a SyGuS solution."""
import z3
from pyvc.core import *
from pyvc import interp as I
from pyvc.havoc import Havoc
from .irspec import *
from .p04 import sden
from .p08 import operand, OPER, check_built, assume_all
from .p10 import symbolic_dict, child, isnumeric, has_type, guarded, T, TI, TB, SET, VARTY, INVARS, INFNS, FNTY
import metalift.ir as ir
import metalift.synthesize_cvc5 as s5

PID = "P17"
Q = "metalift.synthesize_cvc5."
STR = z3.StringSort()
FNAT = z3.Function("fn_at", STR, z3.IntSort())          # position in funName
TYAT = z3.Function("fn_type_at", z3.IntSort(), Ty)      # type at that position
INLET = z3.Function("let_bound", STR, z3.BoolSort())
LETAT = z3.Function("let_value", STR, Obj)

NARY = {"+": ("Add", TI), "*": ("Mul", TI), "and": ("And", TB), "or": ("Or", TB)}
BIN = {"-": ("Sub", TI, TI), "div": ("Div", TI, TI), "mod": ("Mod", TI, TI), "<": ("Lt", TI, TB), "<=": ("Le", TI, TB), ">": ("Gt", TI, TB),
       ">=": ("Ge", TI, TB), "=>": ("Implies", TB, TB)}
LIB = {"set.insert": ("set-insert", [T, SET(T)], SET(T)), "set.singleton": ("set-singleton", [T], SET(T)), "set.union": ("set-union", [SET(T), SET(T)], SET(T)),
       "set.minus": ("set-minus", [SET(T), SET(T)], SET(T)), "set.subset": ("set-subset", [SET(T), SET(T)], TB), "set.member": ("set-member", [T, SET(T)], TB)}
HEADS = set(NARY) | set(BIN) | set(LIB) | {"=", "set.eq", "not", "let", "ite", "as", "true", "false"}


class Envs:
    def __init__(self, it):
        t = lambda k: it.str_term(rope(it.split(k)))
        self.fns = Opaque("funName", {
            "__contains__": SpecFn(lambda it, a, k: Sym(INFNS(t(a[0].v)))),
            "index": SpecFn(lambda it, a, k: Sym(FNAT(t(a[0].v)))),
        })
        self.types = Opaque("returnType", {"__getitem__": SpecFn(lambda it, a, k: SType(TYAT(it.num(it.split(a[0].v)))))})
        self.vars = symbolic_dict(INVARS, VARTY)

        def base(it, d, k):
            x = t(k)
            return INLET(x), (lambda: let_value(it, x))
        self.lets = VDict([], base)
        self.bound = None


def let_value(it, x):
    o = new_obj(it, LETAT(x), EXPR, facts=False)
    for c in EXPR:
        it.con.code(c)
    return o


def setup(ctx):
    con = base_contracts()
    it = I.Interp(ctx, con)
    env = Envs(it)

    def rec(it, a, k):
        b = dict(zip(["ast", "funName", "returnType", "varType", "letVars"], [x.v for x in a]))
        b.update(k)
        v = it.split(b["ast"])
        if not (isinstance(v, Opaque) and v.tag == "ast"):
            it.unsupported("reading of a term that is not part of the given one")
        ok = b.get("funName") is env.fns and b.get("returnType") is env.types and b.get("varType") is env.vars
        ctx.prove(z3.BoolVal(ok), "subterms are read with the same functions and variables")
        d = b.get("letVars")
        inner = env.bound is not None and v.id.eq(env.bound[2])
        if d is env.lets:
            ctx.prove(z3.BoolVal(not inner), "the body of a let knows its variable")
        elif isinstance(d, VDict) and d.base is env.lets.base and not d.entries:
            ctx.prove(z3.BoolVal(not inner), "the body of a let knows its variable")
        else:
            good = inner and isinstance(d, VDict) and d.base is env.lets.base and len(d.entries) == 1
            ctx.prove(z3.BoolVal(good), "only the body of a let knows its variable")
            if good:
                kk, vv = d.entries[0]
                ctx.prove(it.str_term(rope(kk)) == env.bound[0], "the variable bound by a let is known in its body")
                ctx.prove(z3.BoolVal(isinstance(vv, VObj)) if not isinstance(vv, VObj) else vv.id == OPER(env.bound[1]), "the variable bound by a let has its value")
                ctx.jset(ctx.scratch, "let", True)
        return operand(it, v.id)
    con.by_qual[Q + "toExpr"] = rec
    con.by_qual["str.isnumeric"] = isnumeric
    return it, env


def read(it, env, ast):
    return it.run_func(it.vfunc(s5.toExpr), [One(ast), One(env.fns), One(env.types), One(env.vars), One(env.lets)], {})


def unit(body):
    def run(ctx):
        def path():
            it, env = setup(ctx)
            body(it, env)
            ctx.prove(z3.BoolVal(not env.vars.entries and not env.lets.entries), "the known variables and let variables are left alone")
        ctx.explore(path)
    return run


def heads_free(it, f):
    # operators are not names of functions
    it.ctx.assume(z3.And(*[z3.Not(INFNS(z3.StringVal(h))) for h in sorted(HEADS)]))


def fixed(head, cls, types, result, name=None):
    def body(it, env):
        it.ctx.assume(z3.Not(INFNS(z3.StringVal(head))))
        for i, t in enumerate(types):
            has_type(it, i + 1, t)
        r = guarded(it, head, lambda: read(it, env, VList([One(head)] + [One(child(i + 1)) for i in range(len(types))])))
        if r is None:
            return
        ops = [One(operand(it, i + 1)) for i in range(len(types))]
        if cls is not ir.Call:
            return check_built(it, r, cls, result, ops, head)
        r = it.split(r)
        ok = isinstance(r, VObj) and r.cls is ir.Call
        it.ctx.prove(z3.BoolVal(ok), f"{head}: a call", repr(r))
        if ok:
            got = it.type_term(it.getattr(r, "type"))
            it.ctx.prove(z3.BoolVal(False) if got is None else got == result, f"{head}: its type", str(got))
            den_eq(it, DApp("args", sden(it, it.seq(it.getattr(r, "args")))), DApp("args", sden(it, [One(name)] + ops)), f"{head}: the call of {name} with the operands in order")
    return unit(body)


def expand(it, m):
    """the operands one by one where their number is known"""
    for k in range(5):
        if it.ctx.sat(m.n != k) == z3.unsat:
            return [One(operand(it, i + 1)) for i in range(k)]
    return [m]


def nary(head, cls, t):
    def body(it, env):
        it.ctx.assume(z3.Not(INFNS(z3.StringVal(head))))
        n = z3.Int("nargs")
        it.ctx.add(n >= 2)
        idx = it.idx_for(n)
        kids = Many(n, idx, child(idx + 1))
        ops = Many(n, idx, operand(it, idx + 1))
        assume_all(it, ops, tyof(ops.val.id) == t)
        r = guarded(it, head, lambda: read(it, env, VList([One(head), kids])))
        if r is not None:
            check_built(it, r, cls, t, expand(it, ops), head)
    return unit(body)


def minus_unit(it, env):
    """(- x) is 0 - x"""
    it.ctx.assume(z3.Not(INFNS(z3.StringVal("-"))))
    has_type(it, 1, TI)
    r = guarded(it, "unary -", lambda: read(it, env, VList([One("-"), One(child(1))])))
    if r is None:
        return
    r = it.split(r)
    a = it.seq(it.getattr(r, "args")) if isinstance(r, VObj) else []
    if not (isinstance(r, VObj) and r.cls in (ir.Sub, ir.Mul) and len(a) == 2):
        it.unsupported("another way to negate")
    ops = [it.split(x.v) for x in a]
    lit = [o for o in ops if o.cls is ir.Lit]
    if len(lit) != 1 or r.cls is ir.Mul:
        it.unsupported("another way to negate")
    it.ctx.prove(z3.BoolVal(ops[0].cls is ir.Lit), "unary -: subtracts the operand")
    it.ctx.prove(it.num(it.split(it.seq(it.getattr(lit[0], "args"))[0].v)) == 0, "unary -: from 0")
    it.ctx.prove(ops[1].id == OPER(z3.IntVal(1)), "unary -: the operand")
    it.ctx.prove(it.type_term(it.getattr(r, "type")) == TI, "unary -: an integer")


def if_unit(it, env):
    heads_free(it, None)
    has_type(it, 1, TB)
    has_type(it, 2, T)
    has_type(it, 3, T)
    r = guarded(it, "ite", lambda: read(it, env, VList([One("ite")] + [One(child(i)) for i in (1, 2, 3)])))
    if r is not None:
        check_built(it, r, ir.Ite, T, [One(operand(it, i)) for i in (1, 2, 3)], "ite")


def let_unit(it, env):
    """the let variable is replaced by its value in the body"""
    heads_free(it, None)
    x = z3.String("x")
    it.ctx.assume(wf_name(x))
    name = Rope([Atom(x, "name", None)])
    env.bound = (x, z3.IntVal(1), z3.IntVal(2))
    r = guarded(it, "let", lambda: read(it, env, VList([One("let"), One(VList([One(VList([One(name), One(child(1))]))])), One(child(2))])))
    if r is None:
        return
    it.ctx.prove(it.split(r).id == OPER(z3.IntVal(2)), "let: the body")
    it.ctx.prove(z3.BoolVal(bool(it.ctx.scratch.get("let"))), "let: the body knows the variable")


def eq_unit(head):
    def body(it, env):
        heads_free(it, None)
        has_type(it, 1, T)
        has_type(it, 2, T)
        if head == "set.eq":
            it.ctx.assume(Ty.is_TSet(T))
        r = guarded(it, head, lambda: read(it, env, VList([One(head), One(child(1)), One(child(2))])))
        if r is not None:
            check_built(it, r, ir.Eq, TB, [One(operand(it, 1)), One(operand(it, 2))], head)
    return unit(body)


def tuple_of(cs):
    l = TyL.nil
    for c in reversed(cs):
        l = TyL.cons(c, l)
    return l


def tuple_get_unit(k, j):
    def body(it, env):
        head = f"tuple{k}_get{j}"
        it.ctx.assume(z3.Not(INFNS(z3.StringVal(head))))
        cs = [z3.Const(f"C{i}", Ty) for i in range(k)]
        has_type(it, 1, Ty.TTuple(tuple_of(cs)))
        r = guarded(it, head, lambda: read(it, env, VList([One(head), One(child(1))])))
        if r is None:
            return
        r = it.split(r)
        a = it.seq(it.getattr(r, "args"))
        it.ctx.prove(z3.BoolVal(isinstance(r, VObj) and r.cls is ir.Call and len(a) == 3 and a[0].v == "tupleGet"), f"{head}: a component of a tuple", repr(r))
        it.ctx.prove(it.type_term(it.getattr(r, "type")) == cs[j], f"{head}: the type of the component")
        it.ctx.prove(it.split(a[1].v).id == OPER(z3.IntVal(1)), f"{head}: the tuple")
        lit = it.split(a[2].v)
        ok = isinstance(lit, VObj) and lit.cls is ir.Lit
        it.ctx.prove(z3.BoolVal(ok) if not ok else it.num(it.split(it.seq(it.getattr(lit, "args"))[0].v)) == j, f"{head}: the index")
    return unit(body)


def tuple_unit(k):
    def body(it, env):
        it.ctx.assume(z3.Not(INFNS(z3.StringVal(f"tuple{k}"))))
        r = guarded(it, "tuple", lambda: read(it, env, VList([One(f"tuple{k}")] + [One(child(i + 1)) for i in range(k)])))
        if r is None:
            return
        r = it.split(r)
        ok = isinstance(r, VObj) and r.cls is ir.TupleExpr
        it.ctx.prove(z3.BoolVal(ok), "tuple: a tuple", repr(r))
        if ok:
            den_eq(it, DApp("args", sden(it, it.seq(it.getattr(r, "args")))), DApp("args", sden(it, [One(operand(it, i + 1)) for i in range(k)])), "tuple: the components in order")
            it.ctx.prove(it.type_term(it.getattr(r, "type")) == Ty.TTuple(tuple_of([tyof(OPER(z3.IntVal(i + 1))) for i in range(k)])), "tuple: its type")
    return unit(body)


def empty_set(it, env):
    heads_free(it, None)
    r = guarded(it, "set.empty", lambda: read(it, env, VList([One("as"), One("set.empty"), One(VList([One("Set"), One("Int")]))])))
    if r is None:
        return
    r = it.split(r)
    a = it.seq(it.getattr(r, "args"))
    it.ctx.prove(z3.BoolVal(isinstance(r, VObj) and r.cls is ir.Call and len(a) == 1 and a[0].v == "set-create"), "set.empty: the empty set", repr(r))
    it.ctx.prove(it.type_term(it.getattr(r, "type")) == SET(TI), "set.empty: its type")


def user_call(it, env):
    f = z3.String("f")
    it.ctx.assume(wf_name(f))
    it.ctx.assume(z3.And(*[f != z3.StringVal(h) for h in sorted(HEADS)]))
    l = z3.Const("sig", TyL)
    it.ctx.assume(z3.And(INFNS(f), TYAT(FNAT(f)) == Ty.TFn(l), TyL.is_cons(l)))
    n = z3.Int("nargs")
    it.ctx.add(n >= 0)
    idx = it.idx_for(n)
    name = Rope([Atom(f, "name", None)])
    r = guarded(it, "call", lambda: read(it, env, VList([One(name), Many(n, idx, child(idx + 1))])))
    if r is None:
        return
    r = it.split(r)
    ok = isinstance(r, VObj) and r.cls is ir.Call
    it.ctx.prove(z3.BoolVal(ok), "call: a call", repr(r))
    if ok:
        it.ctx.prove(it.type_term(it.getattr(r, "type")) == TyL.hd(l), "call: the result type of the function")
        den_eq(it, DApp("args", sden(it, it.seq(it.getattr(r, "args")))), DApp("args", sden(it, [One(name), Many(n, idx, operand(it, idx + 1))])), "call: name and arguments in order")


def unknown_head(it, env):
    f = z3.String("f")
    it.ctx.assume(wf_name(f))
    it.ctx.assume(z3.And(*[f != z3.StringVal(h) for h in sorted(HEADS)]))
    it.ctx.assume(z3.And(z3.Not(INFNS(f)), z3.Not(z3.PrefixOf(z3.StringVal("tuple"), f))))
    try:
        r = read(it, env, VList([One(Rope([Atom(f, "name", None)])), One(child(1))]))
    except SymRaise:
        return
    it.ctx.fail("an unknown function is refused", repr(r))


def number_unit(it, env):
    n = z3.Int("n")
    it.ctx.assume(n >= 0)
    r = guarded(it, "number", lambda: read(it, env, Rope([DecAtom(n)])))
    if r is None:
        return
    r = it.split(r)
    ok = isinstance(r, VObj) and r.cls is ir.Lit
    it.ctx.prove(z3.BoolVal(ok), "number: a literal", repr(r))
    if ok:
        it.ctx.prove(it.num(it.seq(it.getattr(r, "args"))[0].v) == n, "number: its value")
        it.ctx.prove(it.type_term(it.getattr(r, "type")) == TI, "number: an integer")


def bool_unit(it, env):
    it.ctx.assume(z3.And(z3.Not(INLET(z3.StringVal("true"))), z3.Not(INLET(z3.StringVal("false")))))
    for s in ("true", "false"):
        r = guarded(it, s, lambda: read(it, env, s))
        if r is None:
            return
        r = it.split(r)
        ok = isinstance(r, VObj) and r.cls is ir.Lit
        it.ctx.prove(z3.BoolVal(ok and it.seq(it.getattr(r, "args"))[0].v is (s == "true")), f"{s}: its value", repr(r))
        it.ctx.prove(it.type_term(it.getattr(r, "type")) == TB, f"{s}: a boolean")


def name_unit(it, env):
    x = z3.String("x")
    it.ctx.assume(wf_name(x))
    it.ctx.assume(z3.And(x != z3.StringVal("true"), x != z3.StringVal("false")))
    it.ctx.assume(z3.Not(z3.Function("isnumeric", STR, z3.BoolSort())(x)))
    it.ctx.assume(z3.Or(INLET(x), INVARS(x)))
    r = guarded(it, "name", lambda: read(it, env, Rope([Atom(x, "name", None)])))
    if r is None:
        return
    r = it.split(r)
    if it.ctx.branch(INLET(x)):
        # the innermost let that binds the name
        return it.ctx.prove(z3.BoolVal(isinstance(r, VObj)) if not isinstance(r, VObj) else r.id == LETAT(x), "name: the value of a let variable")
    ok = isinstance(r, VObj) and r.cls is ir.Var
    it.ctx.prove(z3.BoolVal(ok), "name: a variable", repr(r))
    if ok:
        it.ctx.prove(it.str_term(rope(it.call(it.getattr(r, "name"), []))) == x, "name: its name")
        it.ctx.prove(it.type_term(it.getattr(r, "type")) == VARTY(x), "name: its declared type")


# ---- the functions of a solution ----------------------------------------------------
def functions_unit(ctx):
    """extractFuns: every function of the language with its type, axioms left out"""
    def path():
        con = base_contracts()
        it = I.Interp(ctx, con)
        n, m = z3.Int("nfns"), z3.Int("naxioms")
        ctx.add(n >= 0)
        ctx.add(m >= 0)
        idx = it.idx_for(n)
        dom = (ir.FnDecl, ir.FnDeclRecursive)
        o = VObj(dom, z3.Function("declared", z3.IntSort(), Obj)(idx), {}, lazy=True, sort="expr")
        jdx = it.idx_for(m)
        ax = VObj((ir.Axiom,), z3.Function("law", z3.IntSort(), Obj)(jdx), {}, lazy=True, sort="expr")
        for c in dom + (ir.Axiom,):
            con.code(c)
        r = guarded(it, "extractFuns", lambda: it.call(s5.extractFuns, [One(VList([Many(n, idx, o), Many(m, jdx, ax)]))]))
        if r is None:
            return
        r = it.split(r)
        for k, what in ((0, "names"), (1, "types")):
            segs = [s for s in it.seq(r.items[k].v) if not (isinstance(s, Many) and ctx.sat(s.n > 0) == z3.unsat)]
            if not segs:
                ctx.prove(n == 0, f"extractFuns: the {what} of all functions")
                continue
            ok = len(segs) == 1 and isinstance(segs[0], Many) and segs[0].cond is None
            ctx.prove(z3.BoolVal(ok), f"extractFuns: the {what} of all functions and nothing else", repr(segs))
            if not ok:
                continue
            s = segs[0]
            ctx.prove(s.n == n, f"extractFuns: the {what} of all functions")
            me = z3.substitute(o.id, (idx, s.idx))
            with it.scope(Many(s.n, s.idx, None)):
                if k == 0:
                    ctx.prove(it.str_term(rope(it.split(s.val))) == nameof(me), "extractFuns: the names in order")
                else:
                    ctx.prove(it.type_term(it.split(s.val)) == tyof(me), "extractFuns: the types in order")
    ctx.explore(path)


def candidates_unit(count, order):
    """generateCandidates: for every function to synthesize, the function with its
    parameters and the body given in the line"""
    def run(ctx):
        def path():
            con = base_contracts()
            it = I.Interp(ctx, con)
            names = [z3.String(f"f{i}") for i in range(count)]
            for i, x in enumerate(names):
                ctx.assume(wf_name(x))
                for y in names[:i]:
                    ctx.assume(x != y)
            nm = [Rope([Atom(x, "name", None)]) for x in names]
            synths, params = [], []
            for i in range(count):
                ps = [it.call(ir.Var, [One(Rope([Atom(z3.String(f"p{i}_{j}"), "name", None)])), One(SType(z3.Const(f"P{i}_{j}", Ty)))]) for j in range(i + 1)]
                for j in range(i + 1):
                    ctx.assume(wf_name(z3.String(f"p{i}_{j}")))
                    for k in range(j):
                        ctx.assume(z3.String(f"p{i}_{j}") != z3.String(f"p{i}_{k}"))
                g = new_obj(it, z3.Const(f"grammar{i}", Obj), EXPR, facts=False)
                for c in EXPR:
                    con.code(c)
                ctx.assume(z3.Not(Ty.is_TFn(tyof(g.id))))
                synths.append(it.call(ir.Synth, [One(nm[i]), One(g)] + [One(p) for p in ps]))
                params.append(ps)
            line = [One("sygus-candidate")] + [One(VList([One(nm[i]), One(child(i))])) for i in order]
            con.by_qual[Q + "generateAST"] = lambda it, a, k: VList([One(VList(line))])
            n = z3.Int("nfns")
            ctx.add(n >= 0)
            idx = it.idx_for(n)
            known = Many(n, idx, Rope([Atom(z3.Function("known", z3.IntSort(), STR)(idx), "name", None)]))
            ktypes = Many(n, idx, SType(TYAT(idx)))
            fn, ty = VList([known]), VList([ktypes])

            def rec(it, a, k):
                b = dict(zip(["ast", "funName", "returnType", "varType", "letVars"], [x.v for x in a]))
                b.update(k)
                v = it.split(b["ast"])
                if isinstance(v, (str, Rope)):
                    ctx.fail("generateCandidates: only bodies of functions are read", repr(v))
                    raise PathEnd()
                if not (isinstance(v, Opaque) and v.tag == "ast" and z3.is_int_value(v.id)):
                    it.unsupported("reading of something that is not the body of a function")
                i = v.id.as_long()
                d = it.split(b["varType"])
                for j, p in enumerate(params[i]):
                    has, val = it.dict_find(d, Rope([Atom(z3.String(f"p{i}_{j}"), "name", None)]))
                    ctx.prove(has if z3.is_expr(has) else z3.BoolVal(bool(has)), "generateCandidates: the body is read with the function's parameters")
                    ctx.prove(it.type_term(it.split(val() if callable(val) else val)) == z3.Const(f"P{i}_{j}", Ty), "generateCandidates: the parameters have their types")
                l = it.split(b["letVars"])
                ctx.prove(z3.BoolVal(isinstance(l, VDict) and not l.entries), "generateCandidates: no let variable is known outside")
                f, t = it.seq(b["funName"]), it.seq(b["returnType"])
                ok = len(f) == len(t) == 1 + count and f[0] is known and t[0] is ktypes
                if len(f) == len(t) < 1 + count:
                    ctx.fail("generateCandidates: synthesized functions can be called", repr(f))
                    raise PathEnd()
                if not ok:
                    it.unsupported("another way to pass the functions")
                got = {}
                for x, y in zip(f[1:], t[1:]):
                    for i2 in range(count):
                        if ctx.sat(it.str_term(rope(it.split(x.v))) != names[i2]) == z3.unsat:
                            got[i2] = y.v
                ctx.prove(z3.BoolVal(len(got) == count), "generateCandidates: synthesized functions can be called")
                for i2, y in got.items():
                    ctx.prove(it.type_term(it.split(y)) == Ty.TFn(TyL.cons(tyof(z3.Const(f"grammar{i2}", Obj)), tuple_of([z3.Const(f"P{i2}_{j}", Ty) for j in range(i2 + 1)]))),
                              "generateCandidates: synthesized functions have their types")
                o = operand(it, 100 + i)
                ctx.assume(tyof(o.id) == tyof(z3.Const(f"grammar{i}", Obj)))
                return o
            con.by_qual[Q + "toExpr"] = rec
            r = guarded(it, "generateCandidates", lambda: it.call(s5.generateCandidates, [One(VList([One(s) for s in synths])), One(Rope([Atom(z3.String("line"), "line", None)])), One(fn), One(ty)]))
            if r is None:
                return
            r = it.split(r)
            ctx.prove(z3.BoolVal(it.seq(fn) == [known] and it.seq(ty) == [ktypes]), "generateCandidates: the functions of the language are left alone")
            cs, d = it.seq(r.items[0].v), it.split(r.items[1].v)
            ok = len(cs) == count and all(isinstance(c, One) for c in cs)
            ctx.prove(z3.BoolVal(ok), "generateCandidates: one definition for each function", repr(cs))
            if not ok:
                return
            for i, c in enumerate(cs):
                c = it.split(c.v)
                ok = isinstance(c, VObj) and c.cls in (ir.FnDeclRecursive, ir.FnDecl)
                ctx.prove(z3.BoolVal(ok), "generateCandidates: definitions", repr(c))
                if not ok:
                    continue
                a = it.seq(it.getattr(c, "args"))
                ctx.prove(it.str_term(rope(it.split(a[0].v))) == names[i], "generateCandidates: the functions in the order given")
                ctx.prove(it.split(a[1].v).id == OPER(z3.IntVal(100 + i)), "generateCandidates: each with its own body")
                ctx.prove(z3.BoolVal([it.split(x.v) for x in a[2:]] == params[i]), "generateCandidates: each with its parameters")
                has, val = it.dict_find(d, nm[i])
                ctx.prove(has if z3.is_expr(has) else z3.BoolVal(bool(has)), "generateCandidates: the bodies by name")
                v = it.split(val() if callable(val) else val)
                ctx.prove(v.id == OPER(z3.IntVal(100 + i)), "generateCandidates: the body under the function's name")
            ctx.prove(z3.BoolVal(len(d.entries) == count), "generateCandidates: nothing else")
        ctx.explore(path)
    return run


def end_unit(ctx):
    """synthesize: the loop that reads the solver's output ends with the output"""
    from . import p15
    import subprocess

    def path():
        it = p15.interp(ctx)
        con = it.con
        con.by_qual["metalift.synthesis_common.verify_synth_result"] = p15.spec_verify
        con.by_qual["metalift.smt_util.toSMT"] = lambda it, a, k: it.outside("toSMT", a, k) and None
        it.skip_prints = True

        def of_text(eof, what):
            # some fact about the line that is false of the empty line
            b = it.fresh_bool()
            it.ctx.assume(z3.Implies(eof, z3.Not(b)))
            return b

        def text(eof):
            t = Opaque("line", {"eof": eof, "__bool__": Sym(z3.Not(eof)),
                                "__contains__": SpecFn(lambda it, a, k: Sym(of_text(eof, "in"))),
                                "startswith": SpecFn(lambda it, a, k: Sym(of_text(eof, "startswith"))),
                                "endswith": SpecFn(lambda it, a, k: Sym(of_text(eof, "endswith")))})
            for nm in ("strip", "rstrip", "lstrip"):
                # an empty line stays empty; another one may become empty
                def f(it, a, k):
                    e = it.fresh_bool()
                    it.ctx.assume(z3.Implies(eof, e))
                    return text(e)
                t.attrs[nm] = SpecFn(f)
            t.attrs["split"] = SpecFn(lambda it, a, k: Havoc("words"))
            return t

        def eq(it, a, b):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Opaque) and "eof" in x.attrs and isinstance(y, (str, bytes)):
                    return of_text(x.attrs["eof"], "==") if y else x.attrs["eof"]
            return NotImplemented
        con.eq_hook = eq

        def readline(it, a, k):
            eof = it.ctx.fresh(z3.BoolSort(), "end")
            it.ctx.jset(it.ctx.scratch, "line", eof)
            t = text(eof)
            t.attrs["decode"] = SpecFn(lambda it, a, k: t)
            return t

        def popen(it, a, k):
            it.maybe_raise()
            out = Opaque("stdout", {"readline": SpecFn(readline)})
            return Opaque("process", {"stdout": out, "stderr": Havoc("stderr"), "poll": SpecFn(lambda it, a, k: Havoc("code")), "returncode": Havoc("code"),
                                      "terminate": SpecFn(lambda it, a, k: None), "kill": SpecFn(lambda it, a, k: None), "wait": SpecFn(lambda it, a, k: Havoc("code")), "pid": Havoc("pid")})
        con.native[id(subprocess.Popen)] = popen

        def iterated():
            line = ctx.scratch.get("line")
            if line is not None:
                ctx.prove(z3.Not(line), "synthesize: no more is read after the end of the solver's output")
        it.iterated = iterated
        try:
            it.call(s5.synthesize, [], {"basename": p15.text("basename"), "targetLang": Havoc("target"), "vars": Havoc("vars"), "invAndPs": Havoc("inv"), "preds": Havoc("preds"),
                                        "vc": p15.vc_token(it, None), "loopAndPsInfo": Havoc("info"), "cvcPath": p15.text("cvc")})
        except SymRaise:
            pass
        ctx.prove(z3.BoolVal(True), "synthesize: ends")
    ctx.explore(path)


UNITS = {}
for _h, (_c, _t) in NARY.items():
    UNITS[f"toExpr {_h}"] = nary(_h, getattr(ir, _c), _t)
for _h, (_c, _t, _r) in BIN.items():
    UNITS[f"toExpr {_h}"] = fixed(_h, getattr(ir, _c), [_t, _t], _r)
for _h in ("=", "set.eq"):
    UNITS[f"toExpr {_h}"] = eq_unit(_h)
UNITS["toExpr unary -"] = unit(minus_unit)
UNITS["toExpr not"] = fixed("not", ir.Not, [TB], TB)
for _h, (_n, _ts, _r) in LIB.items():
    UNITS[f"toExpr {_h}"] = fixed(_h, ir.Call, _ts, _r, _n)
UNITS["toExpr set.empty"] = unit(empty_set)
UNITS["toExpr ite"] = unit(if_unit)
UNITS["toExpr let"] = unit(let_unit)
for _k in (1, 2, 3, 4, 5):
    UNITS[f"toExpr tuple of {_k}"] = tuple_unit(_k)
    for _j in range(_k):
        UNITS[f"toExpr component {_j} of {_k}"] = tuple_get_unit(_k, _j)
UNITS["toExpr call"] = unit(user_call)
UNITS["toExpr unknown"] = unit(unknown_head)
UNITS["toExpr number"] = unit(number_unit)
UNITS["toExpr true, false"] = unit(bool_unit)
UNITS["toExpr name"] = unit(name_unit)
UNITS["synthesize: end of the output"] = end_unit
UNITS["extractFuns"] = functions_unit
import itertools
for _n in (1, 2, 3):
    for _o in itertools.permutations(range(_n)):
        UNITS[f"generateCandidates {_n} functions, order {''.join(map(str, _o))}"] = candidates_unit(_n, _o)

BOUNDED = ["generateCandidates: one to three functions with one to three parameters, in any order in the line",
           "tuples of one to five components",
           "generateAST (pyparsing): compared on printed solutions; synthesize also with a solver that is played by a script"]
ASSUMPTIONS = ["the solver writes one binding per let (cvc5 does)", "sets are sets of integers where an empty set is written",
               "operators and tuple functions of the SMT prelude are not names of library functions", "the names of parameters and functions are not numerals"]
