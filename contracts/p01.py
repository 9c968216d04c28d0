"""P01: the SMT-LIB text of an expression denotes the expression."""
import z3
from pyvc.core import *
from pyvc import interp as I
from .irspec import *
from .smtparse import *
import metalift.ir as ir

PID = "P01"
ASSUMPTIONS = [
    "the verifier's own encoding: Python integers and strings are mathematical, objects are those reachable through the modelled classes; CPython builtins (isinstance, len, str methods, list and dict methods) as the verifier models them",
    'sub-expressions print by the contract of toSMT (induction over the expression)',
    'names are SMT symbols (no blanks, parentheses or quotes), operators have the operand counts their constructors demand',
    'the meaning of the SMT-LIB text is that of the reference reader in contracts/smtparse.py',
]


class SMTNames(PlainNames):
    """SMT-LIB counterpart of IR function names"""

    def call(self, it, v, name, segs):
        ctx = it.ctx
        S = z3.StringVal
        if ctx.branch(name == S("make-tuple")):
            return self.tuple_(it, v, segs)
        if ctx.branch(name == S("tupleGet")):
            t = it.split(it.getitem(VList(segs), 0))
            i = it.split(it.getitem(VList(segs), 1))
            iv_ = it.num(it.split(it.seq(it.getattr(i, "args"))[0].v))
            n = tuple_arity(it, t)
            return DApp(z3.Concat(S("tuple"), z3.IntToStr(n), S("_get"), z3.IntToStr(iv_)), [One(den_child(it, t, self))])
        if ctx.branch(name == S("set-create")):
            return DApp(z3.Concat(S("as set.empty "), TYSMT(it.type_term(it.getattr(v, "type")))), [])
        if ctx.branch(name == S("list_eq")):
            name = S("=")
        elif ctx.branch(z3.PrefixOf(S("set-"), name)):
            name = z3.Concat(S("set."), z3.SubString(name, 4, z3.Length(name) - 4))
        elif ctx.branch(z3.PrefixOf(S("map-"), name)):
            name = z3.Concat(S("map_"), z3.SubString(name, 4, z3.Length(name) - 4))
        n = it.seq_len(segs)
        if n == 0 or (isinstance(n, Sym) and not ctx.branch(n.t > 0)):
            return DLeaf(envf(name))  # a constant
        return DApp(name, den_segs(it, segs, self))

    def tuple_(self, it, v, segs):
        n = it.num(it.seq_len(segs))
        if it.ctx.branch(n == 0):
            return DLeaf(envf(z3.StringVal("tuple0")))
        return DApp(z3.Concat(z3.StringVal("tuple"), z3.IntToStr(n)), den_segs(it, segs, self))


TYL_LEN = z3.Function("tyl_len", TyL, z3.IntSort())


def tuple_arity(it, t):
    ty = it.type_term(it.getattr(t, "type"))
    return TYL_LEN(Ty.tuple_of(ty))


SMT = SMTNames()


def run_method(it, o, name, *args):
    f = it.class_lookup(o.dom[0], name)
    return it.call(f, [One(o)] + [One(a) for a in args])


def check_text(it, o, r, names, reader, what):
    if not isinstance(r, (str, Rope)):
        return it.ctx.fail(f"{what} returns text", f"returned {r!r}")
    try:
        got = reader(it).one(r)
    except ParseError as e:
        return it.ctx.fail(f"{what} is one well-formed term denoting the expression", f"{e}: {r!r}")
    want = den_expr(it, o, names)
    return den_eq(it, got, want, f"{what} denotes the expression")


def expr_unit(cls, method, names, reader, pre=None, min_nary=1):
    def run(ctx):
        con = base_contracts()
        con.shape = lambda it, o, name: shape(it, o, name, min_nary)
        it = I.Interp(ctx, con)

        def path():
            o = self_of(it, cls)
            it.getattr(o, "args")
            if pre:
                pre(it, o)
            try:
                r = run_method(it, o, method)
            except SymRaise as e:
                ctx.fail(f"{cls.__name__}.{method} raises no exception", f"{e.value!r} {getattr(e.value, 'attrs', '')}")
                return
            check_text(it, o, r, names, reader, f"{cls.__name__}.{method}")
        ctx.explore(path)
    return run


def pre_call(it, o):
    """Calls: pseudo functions have the operands they are built with"""
    ctx = it.ctx
    S = z3.StringVal
    nm = nameof(o.id)
    n = argn(o.id)
    if ctx.branch(nm == S("tupleGet")):
        ctx.assume(n == 2)
        a = it.getattr(o, "args").items[1]
        t, i = it.at(a, z3.IntVal(0)), it.at(a, z3.IntVal(1))
        ctx.assume(Ty.is_TTuple(tyof(t.id)))
        ctx.assume(TYL_LEN(Ty.tuple_of(tyof(t.id))) >= 0)
        class_is(it, i, ir.Lit)
        ctx.add(tyof(i.id) == Ty.TInt)
        ctx.add(intof(i.id) >= 0)
        it.getattr(i, "args")
        it.ctx.jset(o.attrs, "args", VList([One("tupleGet"), One(t), One(i)]))
        # class invariant of TupleExpr and of make-tuple calls: the type lists the operands
        ctx.assume(z3.Implies(clsof(t.id) == it.con.code(ir.TupleExpr), argn(t.id) == TYL_LEN(Ty.tuple_of(tyof(t.id)))))
        ctx.assume(z3.Implies(z3.And(clsof(t.id) == it.con.code(ir.Call), nameof(t.id) == S("make-tuple")),
                              argn(t.id) == TYL_LEN(Ty.tuple_of(tyof(t.id)))))


def pre_tuple(it, o):
    """a tuple has components"""
    it.ctx.assume(argn(o.id) >= 1)


def pre_callvalue(it, o):
    """an application of a function value has arguments"""
    it.ctx.assume(argn(o.id) >= 1)


PRE = {"Call": pre_call, "CallValue": pre_callvalue, "TupleExpr": pre_tuple}
UNITS = {}
for _n in ["Var", "Lit", "Add", "Sub", "Mul", "Div", "Mod", "Eq", "Lt", "Le", "Gt", "Ge", "And", "Or", "Not", "Implies", "Ite", "Let", "TupleExpr", "Call", "CallValue"]:
    UNITS[_n + ".toSMT"] = expr_unit(getattr(ir, _n), "toSMT", SMT, SMTReader, pre=PRE.get(_n),
                                     min_nary=2 if _n in ("Add", "Mul") else 1)


# ---- declarations -------------------------------------------------------------
def decl_obj(it, cls, body):
    """an arbitrary declaration built by the real constructor from symbolic parts"""
    ctx = it.ctx
    nm = z3.String("fname")
    ctx.add(wf_name(nm))
    n = z3.Int("nparams")
    ctx.add(n >= 0)
    idx = it.idx_for(n)
    par = VObj((ir.Var,), z3.Function("param", z3.IntSort(), Obj)(idx), {}, lazy=True, sort="expr")
    for c in EXPR:
        it.con.code(c)
    ctx.add_univ(n, idx, clsof(par.id) == it.con.code(ir.Var))
    ret = SType(z3.Const("retT", Ty))
    name = Rope([Atom(nm, "name", None)])
    o = it.call(cls, [One(name), One(ret), One(body), Many(n, idx, par)])
    return o, nm, ret, n, idx, par


def text_atoms(it, x):
    if isinstance(x, Atom):
        return x.t
    if isinstance(x, Tok):
        return tok_z3(it, x)
    raise ParseError(f"{x!r} where a name or sort is expected")


def check_params(it, plist, n, idx, par, sort):
    """( (name sort) ... ) lists the parameters in order"""
    if not isinstance(plist, SList):
        raise ParseError("parameter list expected")
    if not plist.items:
        it.ctx.prove(n == 0, "every parameter is declared")
        return
    if len(plist.items) != 1 or not isinstance(plist.items[0], Seg):
        raise ParseError(f"parameter list {plist}")
    g = plist.items[0]
    it.ctx.prove(g.many.n == n, "every parameter is declared")
    if len(g.exprs) != 1:
        raise ParseError("parameter")
    e = g.exprs[0]
    pid = z3.substitute(par.id, (idx, g.many.idx))
    with it.scope(Many(g.many.n, g.many.idx, None)):
        if sort == "typed":
            if not isinstance(e, SList) or len(e.items) != 2:
                raise ParseError("typed parameter expected")
            it.ctx.prove(text_atoms(it, e.items[0]) == nameof(pid), "parameter i is declared under its own name")
            it.ctx.prove(text_atoms(it, e.items[1]) == TYSMT(tyof(pid)), "parameter i is declared with its own sort")
        elif sort == "sort":
            it.ctx.prove(text_atoms(it, e) == TYSMT(tyof(pid)), "argument sort i is the sort of parameter i")


def smt_decl_unit(cls, kind):
    def run(ctx):
        con = base_contracts()
        con.by_qual["metalift.ir.parse_type_ref_to_obj"] = lambda it, a, k: a[0].v
        it = I.Interp(ctx, con)

        def path():
            body = {"none": lambda: None, "str": lambda: Rope([Atom(z3.String("bodytext"), "smt", VObj((ir.Call,), z3.Const("bodyobj", Obj)))]),
                    "expr": lambda: new_obj(it, z3.Const("bodyobj", Obj))}[kind]()
            o, nm, ret, n, idx, par = decl_obj(it, cls, body)
            what = f"{cls.__name__}.toSMT"
            try:
                r = it.call(it.getattr(o, "toSMT"), [])
            except SymRaise as e:
                ctx.fail(f"{what} raises no exception", f"{e.value!r} {getattr(e.value, 'attrs', '')}")
                return
            try:
                rd = SMTReader(it)
                xs = parse_rope(it, r, ("smt",))
                if len(xs) != 1 or not isinstance(xs[0], SList):
                    raise ParseError("one s-expression expected")
                xs = xs[0].items
                head = xs[0].text() if isinstance(xs[0], Tok) else None
                if kind == "none":
                    if head != "declare-fun" or len(xs) != 4:
                        raise ParseError("declare-fun expected")
                    ctx.prove(text_atoms(it, xs[1]) == nm, f"{what} declares the name of the function")
                    check_params(it, xs[2], n, idx, par, "sort")
                    ctx.prove(text_atoms(it, xs[3]) == TYSMT(ret.t), f"{what} declares the result sort")
                    return
                want = "define-fun" if cls is ir.FnDecl else "define-fun-rec"
                if head != want or len(xs) != 5:
                    raise ParseError(f"{want} name (parameters) sort body expected")
                ctx.prove(text_atoms(it, xs[1]) == nm, f"{what} defines the name of the function")
                check_params(it, xs[2], n, idx, par, "typed")
                ctx.prove(text_atoms(it, xs[3]) == TYSMT(ret.t), f"{what} gives the result sort")
                den_eq(it, rd.den(xs[4]), DLeaf(D(z3.Const("bodyobj", Obj))), f"{what} gives the body")
            except ParseError as e:
                ctx.fail(f"{what} is a well-formed declaration", f"{e}: {r!r}")
        ctx.explore(path)
    return run


def axiom_unit(ctx):
    con = base_contracts()
    it = I.Interp(ctx, con)

    def path():
        n = z3.Int("nvars")
        ctx.add(n >= 0)
        idx = it.idx_for(n)
        par = VObj((ir.Var,), z3.Function("param", z3.IntSort(), Obj)(idx), {}, lazy=True, sort="expr")
        for c in EXPR:
            con.code(c)
        ctx.add_univ(n, idx, clsof(par.id) == con.code(ir.Var))
        body = new_obj(it, z3.Const("bodyobj", Obj))
        o = it.call(ir.Axiom, [One(body), Many(n, idx, par)])
        try:
            r = it.call(it.getattr(o, "toSMT"), [])
        except SymRaise as e:
            ctx.fail("Axiom.toSMT raises no exception", repr(e.value))
            return
        try:
            xs = parse_rope(it, r, ("smt",))
            if len(xs) != 1 or not isinstance(xs[0], SList) or len(xs[0].items) != 2 or xs[0].items[0].text() != "assert":
                raise ParseError("(assert ...) expected")
            fa = xs[0].items[1]
            if not isinstance(fa, SList) or len(fa.items) != 3 or not isinstance(fa.items[0], Tok) or fa.items[0].text() != "forall":
                raise ParseError("(forall (...) body) expected")
            check_params(it, fa.items[1], n, idx, par, "typed")
            den_eq(it, SMTReader(it).den(fa.items[2]), DLeaf(D(z3.Const("bodyobj", Obj))), "Axiom.toSMT asserts the body")
        except ParseError as e:
            ctx.fail("Axiom.toSMT is a universally quantified assertion", f"{e}: {r!r}")
    ctx.explore(path)


def assert_unit(cls):
    def run(ctx):
        it = I.Interp(ctx, base_contracts())

        def path():
            e = new_obj(it, z3.Const("cond", Obj))
            o = it.call(cls, [One(e)])
            try:
                r = it.call(it.getattr(o, "toSMT"), [])
                xs = parse_rope(it, r, ("smt",))
                if len(xs) != 1 or not isinstance(xs[0], SList) or len(xs[0].items) != 2 or xs[0].items[0].text() != ("assert" if cls is ir.Assert else "constraint"):
                    raise ParseError("(assert condition) expected")
                den_eq(it, SMTReader(it).den(xs[0].items[1]), DLeaf(D(e.id)), f"{cls.__name__}.toSMT states its condition")
            except SymRaise as ex:
                ctx.fail(f"{cls.__name__}.toSMT raises no exception", repr(ex.value))
            except ParseError as ex:
                ctx.fail(f"{cls.__name__}.toSMT is a command", f"{ex}: {r!r}")
        ctx.explore(path)
    return run


for _c in (ir.FnDecl, ir.FnDeclRecursive):
    for _k in ("none", "str", "expr"):
        UNITS[f"{_c.__name__}.toSMT[{_k}]"] = smt_decl_unit(_c, _k)
UNITS["Axiom.toSMT"] = axiom_unit
UNITS["Assert.toSMT"] = assert_unit(ir.Assert)
UNITS["Constraint.toSMT"] = assert_unit(ir.Constraint)
