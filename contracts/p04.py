"""P04: the rewriting primitives of the IR (map_args, rewrite, replaceExprs,
chooseArbitrarily, count_variable_uses)."""
import z3
from pyvc.core import *
from pyvc import interp as I
from .irspec import *
from .p01 import run_method, decl_obj
import metalift.ir as ir

PID = "P04"
ASSUMPTIONS = [
    "the verifier's own encoding: Python integers and strings are mathematical, objects are those reachable through the modelled classes; CPython builtins (isinstance, len, str methods, list and dict methods) as the verifier models them",
    'operands are mapped by the contract of the function under verification (induction over the expression)',
    'a variable name has one type',
    'llvmlite values and types inside expressions are opaque',
]
IMG = z3.Function("img", Obj, Obj)      # image of an operand under the function passed to map_args
OBJV = z3.Function("objv", Obj, Val)
STRV = z3.Function("strv", z3.StringSort(), Val)
TYV = z3.Function("tyv", Ty, Val)


def vden(it, v):
    """identity of a value (which object, text or number it is)"""
    v = it.split(v)
    if isinstance(v, VObj) and v.lazy and v.id is not None:
        return DLeaf(OBJV(v.id))
    if isinstance(v, (str, Rope)):
        t = it.str_term(rope(v))
        if t is None:
            raise Unsupported("text identity")
        return DLeaf(STRV(t))
    if isinstance(v, (Sym, int)):
        return den_expr(it, v)
    if isinstance(v, VObj):
        a = it.getattr(v, "args")
        t = it.type_term(it.getattr(v, "type"))
        if t is None:
            raise Unsupported("type identity")
        return DApp("node:" + v.cls.__name__, [One(DLeaf(TYV(t)))] + sden(it, it.seq(a)))
    if v is None:
        return DLeaf(z3.Const("none", Val))
    raise Unsupported(f"identity of {v!r}")


def sden(it, segs):
    out = []
    for s in segs:
        if isinstance(s, One):
            out.append(One(vden(it, s.v)))
        else:
            m = it.map_many(s, lambda v: ("den", vden(it, v)))
            if m is not None:
                if isinstance(m.val, Cases):
                    raise Unsupported("operand by cases")
                out.append(Many(m.n, m.idx, m.val[1], m.cond))
    return out


def ctor_inv(it, o):
    """what the constructor of o's class established (proved in P08)"""
    c = o.cls.__name__
    segs = it.seq(it.getattr(o, "args"))
    x = o.id
    t = it.type_term(it.getattr(o, "type"))
    it.ctx.add(t == tyof(x))
    if c in ("Add", "Mul"):
        m = segs[0]
        it.ctx.add_univ(m.n, m.idx, tyof(m.val.id) == tyof(arg(x, 0)))
    elif c in ("Sub", "Div", "Mod", "Lt", "Le", "Gt", "Ge"):
        it.ctx.add(tyof(arg(x, 0)) == tyof(arg(x, 1)))
    elif c == "CallValue":
        f = segs[0].v
        it.ctx.add(z3.And(Ty.is_TFn(tyof(f.id)), TyL.is_cons(Ty.fn_of(tyof(f.id))), TyL.hd(Ty.fn_of(tyof(f.id))) == tyof(x)))
    elif c == "TupleExpr":
        m = segs[0]
        it.ctx.add(tyof(x) == Ty.TTuple(it.tyl(VList([Many(m.n, m.idx, SType(tyof(m.val.id)))]))))
    elif c == "Let":
        it.ctx.add(tyof(x) == tyof(arg(x, 2)))


def image(it, fn, v, dom=EXPR):
    r = new_obj(it, fn(v.id), dom, facts=False)
    for c in dom:
        it.con.code(c)
    it.ctx.assume(tyof(r.id) == tyof(v.id))
    return r


def spec_f(it, args, kw):
    v = it.split(args[0].v)
    if isinstance(v, VObj):
        if not v.lazy:
            it.unsupported("function applied to a new expression")
        return image(it, IMG, v)
    return v


def same_node(it, r, o, operand, what):
    """r is o with its operands replaced by operand(...)"""
    ctx = it.ctx
    r = it.split(r)
    if not isinstance(r, VObj):
        return ctx.fail(f"{what}: an expression is returned", repr(r))
    if r is o:
        return ctx.fail(f"{what}: a new expression is returned", "")
    ctx.prove(z3.BoolVal(r.cls is o.cls), f"{what}: same operator", f"{r.cls and r.cls.__name__} instead of {o.cls.__name__}")
    if r.cls is not o.cls:
        return
    t = it.type_term(it.getattr(r, "type"))
    ctx.prove(t == tyof(o.id), f"{what}: same type")
    got = DApp("args", sden(it, it.seq(it.getattr(r, "args"))))
    want = []
    for s in it.seq(it.getattr(o, "args")):
        if isinstance(s, One):
            want.append(One(vden(it, operand(it, it.split(s.v)))))
        else:
            m = it.map_many(s, lambda v: ("den", vden(it, operand(it, it.split(v)))))
            if m is not None:
                want.append(Many(m.n, m.idx, m.val[1], m.cond))
    den_eq(it, got, DApp("args", want), f"{what}: every operand replaced, in its place")


def op_image(fn):
    def f(it, v):
        return image(it, fn, v) if isinstance(v, VObj) else v
    return f


def map_unit(cls):
    def run(ctx):
        it = I.Interp(ctx, base_contracts())

        def path():
            o = self_of(it, cls)
            it.getattr(o, "args")
            ctor_inv(it, o)
            before = vden_args(it, o)
            what = f"{cls.__name__}.map_args"
            try:
                r = run_method(it, o, "map_args", SpecFn(spec_f))
            except SymRaise as e:
                ctx.fail(f"{what}: raises no exception", repr(e.value))
                return
            same_node(it, r, o, op_image(IMG), what)
            den_eq(it, vden_args(it, o), before, f"{what}: the expression itself is unchanged")
        ctx.explore(path)
    return run


def vden_args(it, o):
    return DApp("args", sden(it, it.seq(it.getattr(o, "args"))))


def map_decl_unit(cls):
    def run(ctx):
        it = I.Interp(ctx, base_contracts())

        def path():
            body = new_obj(it, z3.Const("bodyobj", Obj))
            o, nm, ret, n, idx, par = decl_obj(it, cls, body)
            what = f"{cls.__name__}.map_args"
            try:
                r = it.call(it.getattr(o, "map_args"), [One(SpecFn(spec_f))])
            except SymRaise as e:
                ctx.fail(f"{what}: raises no exception", repr(e.value))
                return
            r = it.split(r)
            ctx.prove(z3.BoolVal(isinstance(r, VObj) and r.cls is cls), f"{what}: same kind of declaration")
            if not (isinstance(r, VObj) and r.cls is cls):
                return
            want = [One(DLeaf(STRV(nm))), One(DLeaf(OBJV(IMG(body.id)))), Many(n, idx, DLeaf(OBJV(IMG(par.id))))]
            den_eq(it, vden_args(it, r), DApp("args", want), f"{what}: name kept, body and parameters replaced in place")
            t = it.type_term(it.call(it.getattr(r, "return_type"), []))
            ctx.prove(t == ret.t, f"{what}: same return type")
        ctx.explore(path)
    return run


def map_axiom_unit(ctx):
    it = I.Interp(ctx, base_contracts())

    def path():
        n = z3.Int("nvars")
        ctx.add(n >= 0)
        idx = it.idx_for(n)
        par = VObj((ir.Var,), z3.Function("param", z3.IntSort(), Obj)(idx), {}, lazy=True, sort="expr")
        for c in EXPR:
            it.con.code(c)
        body = new_obj(it, z3.Const("bodyobj", Obj))
        o = it.call(ir.Axiom, [One(body), Many(n, idx, par)])
        try:
            r = it.split(it.call(it.getattr(o, "map_args"), [One(SpecFn(spec_f))]))
        except SymRaise as e:
            ctx.fail("Axiom.map_args: raises no exception", repr(e.value))
            return
        ctx.prove(z3.BoolVal(isinstance(r, VObj) and r.cls is ir.Axiom), "Axiom.map_args: an axiom")
        den_eq(it, vden_args(it, r), DApp("args", [One(DLeaf(OBJV(IMG(body.id)))), Many(n, idx, DLeaf(OBJV(IMG(par.id))))]),
               "Axiom.map_args: body and variables replaced in place")
    ctx.explore(path)


def map_synth_unit(ctx):
    it = I.Interp(ctx, base_contracts())

    def path():
        n = z3.Int("nparams")
        ctx.add(n >= 0)
        idx = it.idx_for(n)
        par = VObj((ir.Var,), z3.Function("param", z3.IntSort(), Obj)(idx), {}, lazy=True, sort="expr")
        body = new_obj(it, z3.Const("bodyobj", Obj))
        nm = z3.Const("name", z3.StringSort())
        o = it.call(ir.Synth, [One(Rope([Atom(nm, "name")])), One(body), Many(n, idx, par)])
        try:
            r = it.split(it.call(it.getattr(o, "map_args"), [One(SpecFn(spec_f))]))
        except SymRaise as e:
            ctx.fail("Synth.map_args: raises no exception", repr(e.value))
            return
        ctx.prove(z3.BoolVal(isinstance(r, VObj) and r.cls is ir.Synth), "Synth.map_args: a function to synthesize")
        den_eq(it, vden_args(it, r), DApp("args", [One(DLeaf(STRV(nm))), One(DLeaf(OBJV(IMG(body.id)))), Many(n, idx, DLeaf(OBJV(IMG(par.id))))]),
               "Synth.map_args: name kept, grammar and parameters replaced in place")
    ctx.explore(path)


# ---- rewrite: simultaneous substitution of variables ---------------------------
INMAP = z3.Function("inmap", z3.StringSort(), z3.BoolSort())
MAPPED = z3.Function("mapped", z3.StringSort(), Obj)
REW = z3.Function("rew", Obj, Obj)


def rw_map(it):
    def base(it, d, k):
        t = it.str_term(rope(k))

        def val():
            r = new_obj(it, MAPPED(t))
            return r
        return INMAP(t), val
    d = VDict([], base=base)
    return d


def rewrite_contract(it, o, args, kw):
    m = it.split(args[0].v) if args else it.split(kw["mappings"])
    it.ctx.prove(z3.BoolVal(m is it.ctx.scratch["map"]), "rewrite: operands are rewritten with the same mapping")
    return image(it, REW, o)


def rewrite_unit(cls):
    def run(ctx):
        con = base_contracts()
        con.virtual["rewrite"] = rewrite_contract
        it = I.Interp(ctx, con)

        def path():
            o = self_of(it, cls)
            it.getattr(o, "args")
            ctor_inv(it, o)
            m = rw_map(it)
            ctx.scratch["map"] = m
            what = f"{cls.__name__}.rewrite"
            if cls is ir.Var:
                # a variable is replaced by an expression of its own type
                ctx.assume(tyof(MAPPED(nameof(o.id))) == tyof(o.id))
            try:
                r = run_method(it, o, "rewrite", m)
            except SymRaise as e:
                ctx.fail(f"{what}: raises no exception", repr(e.value))
                return
            if cls is ir.Var:
                want = z3.If(INMAP(nameof(o.id)), OBJV(MAPPED(nameof(o.id))), OBJV(o.id))
                r = it.split(r)
                if isinstance(r, VObj) and not r.lazy and r.cls is ir.Var:
                    # a copy of the variable is as good as the variable
                    ctx.prove(z3.Not(INMAP(nameof(o.id))), f"{what}: mapped variables are replaced")
                    den_eq(it, vden_args(it, r), DApp("args", [One(DLeaf(STRV(nameof(o.id))))]), f"{what}: other variables stay")
                else:
                    den_eq(it, vden(it, r), DLeaf(want), f"{what}: the variable's image if it is mapped, else the variable")
            else:
                same_node(it, r, o, op_image(REW), what)
            ctx.prove(z3.BoolVal(not m.entries), f"{what}: the mapping is not changed")
        ctx.explore(path)
    return run


# ---- chooseArbitrarily ---------------------------------------------------------
CHO = z3.Function("cho", Obj, Obj)


def choose_unit(cls):
    def run(ctx):
        con = base_contracts()
        con.virtual["chooseArbitrarily"] = lambda it, o, a, k: image(it, CHO, o)
        it = I.Interp(ctx, con)

        def path():
            o = self_of(it, cls)
            it.getattr(o, "args")
            ctor_inv(it, o)
            what = f"{cls.__name__}.chooseArbitrarily"
            try:
                r = run_method(it, o, "chooseArbitrarily")
            except SymRaise as e:
                ctx.fail(f"{what}: raises no exception", repr(e.value))
                return
            if cls is ir.Choose:
                r = it.split(r)
                if isinstance(r, VObj) and r.lazy:
                    k = ctx.fresh(z3.IntSort(), "k")
                    # one of the alternatives: the identity of r is that of an operand
                    ctx.prove(z3.Or(OBJV(r.id) == OBJV(arg(o.id, 0)), OBJV(r.id) == OBJV(CHO(arg(o.id, 0))),
                                    OBJV(r.id) == OBJV(arg(o.id, argn(o.id) - 1))), f"{what}: one of the alternatives")
                else:
                    ctx.fail(f"{what}: one of the alternatives", repr(r))
            else:
                same_node(it, r, o, op_image(CHO), what)
        ctx.explore(path)
    return run


# ---- replaceExprs -----------------------------------------------------------------
REP = z3.Function("rep", Obj, Obj)
COMMON = z3.Function("iscommon", Obj, z3.BoolSort())    # the expression equals one of the listed ones


def replace_unit(cls, mode, skip):
    """recursive calls by contract: REP(child); Expr.__eq__ by contract: a relation"""
    def run(ctx):
        con = base_contracts()
        SAME = z3.Function("same_expr", Obj, Obj, z3.BoolSort())
        it = I.Interp(ctx, con)
        top = []

        def rep(it, args, kw):
            e = it.split(args[0].v)
            if not top:
                top.append(1)
                return it.run_func(it.vfunc(ir.Expr.replaceExprs), args, kw)
            if not isinstance(e, VObj):
                return e
            ce = it.split(args[1].v) if len(args) > 1 else it.split(kw["commonExprs"])
            md = it.split(args[2].v) if len(args) > 2 else it.split(kw["mode"])
            sk = it.split(args[3].v) if len(args) > 3 else it.split(kw.get("skipTop", False))
            it.ctx.prove(z3.BoolVal(ce is it.ctx.scratch["common"] and md is mode and sk is False), "replaceExprs: operands are replaced with the same list and mode")
            return image(it, REP, e)

        def eqc(it, args, kw):
            a, b = it.split(args[0].v), it.split(args[1].v)
            if isinstance(a, VObj) and isinstance(b, VObj) and a.id is not None and b.id is not None:
                return Sym(SAME(a.id, b.id))
            return NotImplemented
        con.by_qual["metalift.ir.Expr.replaceExprs"] = rep
        con.by_qual["metalift.ir.Expr.__eq__"] = eqc

        def path():
            top.clear()
            o = self_of(it, cls)
            it.getattr(o, "args")
            ctor_inv(it, o)
            n = z3.Int("ncommon")
            ctx.add(n >= 0)
            idx = it.idx_for(n)
            ce = VList([Many(n, idx, VObj(EXPR, z3.Function("common", z3.IntSort(), Obj)(idx), {}, lazy=True, sort="expr"))])
            for c in EXPR:
                con.code(c)
            ctx.scratch["common"] = ce
            what = f"replaceExprs[{cls.__name__},{mode.name}{',skipTop' if skip else ''}]"
            # list.index, by its documented contract: the first equal element
            k0 = ctx.fresh(z3.IntSort(), "first_common")
            anyc = ctx.fresh(z3.BoolSort(), "is_common")
            C = z3.Function("common", z3.IntSort(), Obj)
            ctx.add_univ(n, idx, z3.Implies(z3.And(idx >= 0, idx < n, SAME(o.id, C(idx))), z3.And(anyc, idx >= k0)))
            ctx.assume(z3.Implies(anyc, z3.And(k0 >= 0, k0 < n, SAME(o.id, C(k0)))))

            def index(it, args, kw):
                l, e = it.split(args[0].v), it.split(args[1].v)
                if l is not ce or e is not o:
                    it.unsupported("list.index")
                if not ctx.branch(anyc):
                    it.raise_(ValueError, "not in list")
                return Sym(k0)
            con.by_qual["list.index"] = index
            ctx.instantiate(n, k0)
            try:
                r = it.split(it.call(ir.Expr.replaceExprs, [One(o), One(ce), One(mode)] + ([One(True)] if skip else [])))
            except SymRaise as e:
                ctx.fail(f"{what}: raises no exception", repr(e.value))
                return
            ctx.instantiate(n, k0)
            if not isinstance(r, VObj):
                ctx.fail(f"{what}: an expression is returned", repr(r))
                return
            named = isinstance(r, VObj) and not r.lazy and r.cls is ir.Var and cls is not ir.Var
            if cls is ir.Var and r.cls is ir.Var and not r.lazy:
                nm = it.split(it.seq(it.getattr(r, "args"))[0].v)
                t = it.str_term(rope(nm))
                dec = DecAtom(k0)
                lab = it.str_term(Rope(["(v", dec, ")"] if mode is ir.PrintMode.Rosette else ["v", dec]))
                ctx.prove(z3.If(z3.And(anyc, z3.BoolVal(not skip)), t == lab, t == nameof(o.id)), f"{what}: the variable, or the name of the listed expression")
                ctx.prove(it.type_term(it.getattr(r, "type")) == tyof(o.id), f"{what}: same type")
                return
            if named:
                ctx.prove(z3.And(anyc, z3.BoolVal(not skip)), f"{what}: only listed expressions are replaced by names")
                nm = it.split(it.seq(it.getattr(r, "args"))[0].v)
                dec = DecAtom(k0)
                lab = it.str_term(Rope(["(v", dec, ")"] if mode is ir.PrintMode.Rosette else ["v", dec]))
                ctx.prove(it.str_term(rope(nm)) == lab, f"{what}: the name carries the position of the listed expression")
                ctx.prove(it.type_term(it.getattr(r, "type")) == tyof(o.id), f"{what}: same type")
            else:
                if not skip:
                    ctx.prove(z3.Not(anyc), f"{what}: listed expressions are replaced by their names")
                same_node(it, r, o, op_image(REP), what)
        ctx.explore(path)
    return run


# ---- count_variable_uses ----------------------------------------------------------
OLDIN = z3.Function("oldin", z3.StringSort(), z3.BoolSort())
OLDCNT = z3.Function("oldcnt", z3.StringSort(), z3.IntSort())


def count_unit(cls):
    def run(ctx):
        con = base_contracts()

        def rec(it, o, args, kw):
            d = it.split(args[0].v) if args else it.split(kw["into"])
            it.ctx.prove(z3.BoolVal(d is it.ctx.scratch["into"]), "count_variable_uses: operands are counted into the same table")
            log = it.ctx.scratch["log"]
            it.ctx.jset(log, "items", list(log.items) + [One(o)])
            return None
        con.virtual["count_variable_uses"] = rec
        it = I.Interp(ctx, con)

        def path():
            o = self_of(it, cls)
            it.getattr(o, "args")

            def base(it, d, k):
                t = it.str_term(rope(k))
                return OLDIN(t), lambda: Sym(OLDCNT(t))
            d = VDict([], base=base)
            log = VList([])
            ctx.scratch["into"], ctx.scratch["log"] = d, log
            what = f"{cls.__name__}.count_variable_uses"
            try:
                run_method(it, o, "count_variable_uses", d)
            except SymRaise as e:
                ctx.fail(f"{what}: raises no exception", repr(e.value))
                return
            if cls in (ir.Var, ir.NonTerm):
                nm = nameof(o.id)
                ctx.prove(z3.BoolVal(len(d.entries) == 1 and not log.items), f"{what}: one entry changes")
                for k, v in d.entries:
                    ctx.prove(it.str_term(rope(k)) == nm, f"{what}: the entry of the variable changes")
                    ctx.prove(it.num(v) == z3.If(OLDIN(nm), OLDCNT(nm), 0) + 1, f"{what}: its count grows by one")
            else:
                ctx.prove(z3.BoolVal(not d.entries), f"{what}: no entry changes but through the operands")
                want = []
                for s in it.seq(it.getattr(o, "args")):
                    if isinstance(s, One):
                        v = it.split(s.v)
                        if isinstance(v, VObj):
                            want.append(One(vden(it, v)))
                    else:
                        want += sden(it, [s])
                den_eq(it, DApp("args", sden(it, log.items)), DApp("args", want), f"{what}: every operand is counted exactly once")
        ctx.explore(path)
    return run


UNITS = {}
_BASE = ["Var", "Lit", "Add", "Sub", "Mul", "Div", "Mod", "Eq", "Lt", "Le", "Gt", "Ge", "And", "Or", "Not", "Implies", "Ite", "Let", "TupleExpr", "Choose", "Call", "CallValue"]
for _n in _BASE:
    UNITS[_n + ".map_args"] = map_unit(getattr(ir, _n))
for _c in (ir.FnDecl, ir.FnDeclRecursive):
    UNITS[_c.__name__ + ".map_args"] = map_decl_unit(_c)
UNITS["Axiom.map_args"] = map_axiom_unit
UNITS["Synth.map_args"] = map_synth_unit
for _n in _BASE:
    UNITS[_n + ".rewrite"] = rewrite_unit(getattr(ir, _n))
for _n in _BASE:
    UNITS[_n + ".chooseArbitrarily"] = choose_unit(getattr(ir, _n))
for _n in _BASE:
    UNITS[_n + ".count_variable_uses"] = count_unit(getattr(ir, _n))
for _n in _BASE:
    for _m, _s in ((ir.PrintMode.SMT, False), (ir.PrintMode.Rosette, False), (ir.PrintMode.SMT, True)):
        UNITS[f"replaceExprs[{_n},{_m.name}{',skip' if _s else ''}]"] = replace_unit(getattr(ir, _n), _m, _s)
