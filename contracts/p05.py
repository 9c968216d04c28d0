"""P05: simplification and the elimination of useless equalities."""
import z3
from pyvc.core import *
from pyvc import interp as I
from .irspec import *
from .p01 import run_method
from .p04 import image, ctor_inv, vden, sden, STRV, OBJV
import metalift.ir as ir

PID = "P05"
ASSUMPTIONS = [
    'a variable has one type; conditions without let bindings',
    'Python dictionary and set semantics as the verifier models them',
]
SIM = z3.Function("sim", Obj, Obj)
REW = z3.Function("rew", Obj, Obj)
OPT = z3.Function("opt", Obj, Obj)
_BASE = ["Var", "Lit", "Add", "Sub", "Mul", "Div", "Mod", "Eq", "Lt", "Le", "Gt", "Ge", "And", "Or", "Not", "Implies", "Ite", "Let", "TupleExpr", "Choose", "Call", "CallValue"]
# Let is left out where substitution is involved (capture); Choose has no value
_VAL = [n for n in _BASE if n != "Choose"]


def junction(it, op, segs, wits):
    """truth of an n-ary and/or over segments of symbolic length"""
    ctx = it.ctx
    pos = op == "and"
    parts = []
    for s in segs:
        if isinstance(s, One):
            parts.append(bv(dval(it, s.v, wits)))
            continue
        t = ctx.fresh(z3.BoolSort(), "junct")
        w = ctx.fresh(z3.IntSort(), "wit")
        e = bv(den_z3(s.val)) if isinstance(s.val, Den) else bv(s.val)
        inr = z3.And(s.idx >= 0, s.idx < s.n, s.cond if s.cond is not None else True)
        at = lambda f: z3.substitute(f, (s.idx, w))
        if pos:
            ctx.add_univ(s.n, s.idx, z3.Implies(z3.And(t, inr), e))
            ctx.assume(z3.Implies(z3.Not(t), z3.And(at(inr), z3.Not(at(e)))))
        else:
            ctx.add_univ(s.n, s.idx, z3.Implies(z3.And(z3.Not(t), inr), z3.Not(e)))
            ctx.assume(z3.Implies(t, z3.And(at(inr), at(e))))
        wits.append((s.n, w))
        parts.append(t)
    if not parts:
        return z3.BoolVal(pos)
    return zand(parts) if pos else zor(parts)


def dval(it, d, wits):
    """Val term of a denotation, n-ary and/or by their truth"""
    if isinstance(d, DApp) and d.op in ("and", "or"):
        return B_(junction(it, d.op, d.segs, wits))
    t = den_z3(d)
    if t is None:
        raise Unsupported(f"value of {d}")
    return t


def settle(it, wits):
    pts = [t for _, t in it.ctx.points] + [w for _, w in wits]
    for m in {n.sexpr(): n for n, _ in wits}.values():
        for t in {t.sexpr(): t for t in pts}.values():
            it.ctx.instantiate(m, t)


def same_value(it, r, o, what):
    """the value of r is the value of o"""
    r = it.split(r)
    if not isinstance(r, VObj):
        return it.ctx.fail(f"{what}: an expression is returned", repr(r))
    a, b = den_child(it, r), den_expr(it, o)
    both = it.ctx.scratch.get("wits") or isinstance(b, DApp) and b.op in ("and", "or") or isinstance(a, DApp) and a.op in ("and", "or")
    if both:
        wits = list(it.ctx.scratch.get("wits", []))
        ta, tb = dval(it, a, wits), dval(it, b, wits)
        settle(it, wits)
        it.ctx.prove(ta == tb, f"{what}: same value")
    else:
        den_eq(it, a, b, f"{what}: same value")
    it.ctx.prove(it.type_term(it.getattr(r, "type")) == tyof(o.id), f"{what}: same type")


def image_same(fn):
    def h(it, o, args, kw):
        r = image(it, fn, o, EXPR if o.cls is not ir.Var else (ir.Var,))
        it.ctx.assume(D(r.id) == D(o.id))
        if o.cls is ir.Var:
            # a variable simplifies to a variable of the same name
            it.ctx.assume(nameof(r.id) == nameof(o.id))
        return r
    return h


def simplify_unit(cls):
    def run(ctx):
        con = base_contracts()
        con.virtual["simplify"] = image_same(SIM)
        it = I.Interp(ctx, con)

        def path():
            o = self_of(it, cls)
            it.getattr(o, "args")
            ctor_inv(it, o)
            before = den_expr(it, o)
            what = f"{cls.__name__}.simplify"
            try:
                r = run_method(it, o, "simplify")
            except SymRaise as e:
                ctx.fail(f"{what}: raises no exception", repr(e.value))
                return
            same_value(it, r, o, what)
            if cls is ir.Var:
                rr = it.split(r)
                ctx.prove(z3.BoolVal(isinstance(rr, VObj) and rr.cls is ir.Var), f"{what}: a variable stays a variable")
        ctx.explore(path)
    return run


UNITS = {}
for _n in _VAL:
    UNITS[_n + ".simplify"] = simplify_unit(getattr(ir, _n))


# ---- collectKnowledge ------------------------------------------------------------
K = z3.Bool("knowledge_holds")          # K implies that the expression is true
INTO_IN = z3.Function("into_in", z3.StringSort(), z3.BoolSort())
INTO = z3.Function("into", z3.StringSort(), Obj)
CONS = z3.Function("constrained", z3.StringSort(), z3.BoolSort())
CONF = z3.Function("conflict", z3.StringSort(), z3.BoolSort())
IFREE = z3.Function("implication_free", Obj, z3.BoolSort())
POSI = z3.Function("implications_positive", Obj, z3.BoolSort())


def know_base(it, hyp, inm, img):
    """table of equalities that hold under hyp"""
    def base(it, d, k):
        t = it.str_term(rope(k))

        def val():
            r = new_obj(it, img(t))
            it.ctx.add(z3.Implies(z3.And(hyp, inm(t)), envf(t) == D(img(t))))
            it.ctx.add(z3.Implies(inm(t), IFREE(img(t))))
            return r
        return inm(t), val
    return base


def collect_unit(cls):
    def run(ctx):
        con = base_contracts()

        def rec(it, o, args, kw):
            nm = ["constrained_elsewhere", "into", "conflicts"]
            a = [it.split(x.v) for x in args] + [it.split(kw[n]) for n in nm[len(args):]]
            s = it.ctx.scratch
            it.ctx.prove(z3.BoolVal(a[0] is s["cons"] and a[1] is s["into"] and a[2] is s["conf"]), "collectKnowledge: conjuncts are collected into the same tables")
            it.ctx.prove(z3.Implies(K, bv(D(o.id))), "collectKnowledge: only from expressions implied by the whole")
            if s["into"].entries:
                it.unsupported("table entries before a recursive call")
            return None
        con.virtual["collectKnowledge"] = rec
        it = I.Interp(ctx, con)

        def path():
            o = self_of(it, cls)
            it.getattr(o, "args")
            what = f"{cls.__name__}.collectKnowledge"
            d = den_expr(it, o)
            ctx.add(IFREE(o.id))
            if isinstance(d, DApp) and d.op == "and":
                for s in it.seq(it.getattr(o, "args")):
                    ctx.add_univ(s.n, s.idx, z3.Implies(z3.And(K, s.idx >= 0, s.idx < s.n), bv(D(s.val.id))))
            else:
                t = den_z3(d)
                if t is not None:
                    ctx.assume(z3.Implies(K, bv(t)))
            for x in it.seq(it.getattr(o, "args")):
                if isinstance(x, One) and isinstance(x.v, VObj):
                    ctx.add(IFREE(x.v.id))
                    ctx.add(z3.Implies(clsof(x.v.id) == con.code(ir.Var), D(x.v.id) == envf(nameof(x.v.id))))
            into = VDict([], base=know_base(it, K, INTO_IN, INTO))
            conf = VDict([], base=lambda it, d, k: (CONF(it.str_term(rope(k))), lambda: True))
            cons = Opaque("constrained", {"__contains__": SpecFn(lambda it, a, k: Sym(CONS(it.str_term(rope(it.split(a[0].v))))))})
            ctx.scratch.update(into=into, conf=conf, cons=cons)
            try:
                run_method(it, o, "collectKnowledge", cons, into, conf)
            except SymRaise as e:
                ctx.fail(f"{what}: raises no exception", repr(e.value))
                return
            if cls is not ir.Eq:
                ctx.prove(z3.BoolVal(not into.entries), f"{what}: only equalities are entered")
            else:
                ctx.prove(z3.BoolVal(len(into.entries) <= 1), f"{what}: at most one entry changes")
            for k, v in into.entries:
                if v is I.DELETED:
                    continue
                v = it.split(v)
                t = it.str_term(rope(it.split(k)))
                ctx.prove(z3.Not(CONS(t)), f"{what}: only variables that are not used elsewhere")
                if not isinstance(v, VObj) or v.id is None:
                    ctx.fail(f"{what}: the table holds operands", repr(v))
                    continue
                ctx.prove(z3.Implies(K, envf(t) == D(v.id)), f"{what}: an entry is an equality implied by the expression")
                ctx.prove(IFREE(v.id), f"{what}: an entry is an operand of the equality")
        ctx.explore(path)
    return run


# ---- rewrite with equalities that hold preserves the value --------------------------
INMAP = z3.Function("inmap", z3.StringSort(), z3.BoolSort())
MAPPED = z3.Function("mapped", z3.StringSort(), Obj)


def rewrite_val_unit(cls):
    def run(ctx):
        con = base_contracts()

        def rec(it, o, args, kw):
            m = it.split(args[0].v) if args else it.split(kw["mappings"])
            it.ctx.prove(z3.BoolVal(m is it.ctx.scratch["map"]), "rewrite: operands are rewritten with the same mapping")
            return image_same(REW)(it, o, [], {})
        con.virtual["rewrite"] = rec
        it = I.Interp(ctx, con)

        def path():
            o = self_of(it, cls)
            it.getattr(o, "args")
            ctor_inv(it, o)
            m = VDict([], base=know_base(it, z3.BoolVal(True), INMAP, MAPPED))
            ctx.scratch["map"] = m
            what = f"{cls.__name__}.rewrite"
            if cls is ir.Var:
                ctx.assume(tyof(MAPPED(nameof(o.id))) == tyof(o.id))
                ctx.add(D(o.id) == envf(nameof(o.id)))
            try:
                r = run_method(it, o, "rewrite", m)
            except SymRaise as e:
                ctx.fail(f"{what}: raises no exception", repr(e.value))
                return
            same_value(it, r, o, what + " with equalities that hold")
        ctx.explore(path)
    return run


# ---- optimize_useless_equality --------------------------------------------------------
CNT = z3.Function("uses", z3.StringSort(), z3.IntSort())
NV = z3.Int("number_of_new_vars")


def opt_contracts(ctx, exact):
    con = base_contracts()

    def opt(it, o, args, kw):
        a = [it.split(x.v) for x in args] + [it.split(kw[n]) for n in ["counts", "new_vars"][len(args):]]
        s = it.ctx.scratch
        it.ctx.prove(z3.BoolVal(a[0] is s["counts"] and a[1] is s["new"]), "optimize_useless_equality: operands share the counts and the new variables")
        r = image(it, OPT, o)
        x, y = o.id, r.id
        it.ctx.assume(z3.Implies(IFREE(x), D(y) == D(x)))
        it.ctx.assume(z3.Implies(z3.And(POSI(x), tyof(x) == Ty.TBool), z3.Implies(bv(D(y)), bv(D(x)))))
        it.ctx.assume(z3.And(z3.Implies(tyof(y) == Ty.TBool, Val.is_B(D(y))), z3.Implies(tyof(y) == Ty.TInt, Val.is_I(D(y)))))
        if o.cls is ir.Var or it.ctx.must(clsof(x) == it.con.code(ir.Var)):
            class_is(it, r, ir.Var)
            it.ctx.assume(nameof(r.id) == nameof(o.id))
        return r
    con.virtual["optimize_useless_equality"] = opt

    def simp(it, args, kw):
        o = it.split(args[0].v)
        if o.lazy:
            return image_same(SIM)(it, o, [], {})
        d = den_child(it, o)
        if not (isinstance(d, DApp) and d.op in ("and", "or")) and den_z3(d) is None:
            return o
        wits = []
        t = dval(it, d, wits)
        r = new_obj(it, it.ctx.fresh(Obj, "simplified"))
        it.ctx.scratch["wits"] = wits
        it.ctx.assume(D(r.id) == t)
        it.ctx.assume(tyof(r.id) == it.type_term(it.getattr(o, "type")))
        return r
    con.by_qual["metalift.ir.Expr.simplify"] = simp

    def count(it, o, args, kw):
        d = it.split(args[0].v) if args else it.split(kw["into"])
        if not isinstance(d, VDict) or d.entries or d.base is not None:
            it.unsupported("counting into a used table")
        inn = z3.Function(f"used_in[{o.id.sexpr()}]", z3.StringSort(), z3.BoolSort())
        cn = z3.Function(f"uses_in[{o.id.sexpr()}]", z3.StringSort(), z3.IntSort())
        it.ctx.jset(d, "base", keyed(it, lambda it, d, k: (inn(it.str_term(rope(k))), lambda: Sym(cn(it.str_term(rope(k))))), inn, o.id.sexpr()))
        return None
    con.virtual["count_variable_uses"] = count

    def collect(it, o, args, kw):
        a = [x.v for x in args]
        into = it.split(a[1])
        if not isinstance(into, VDict) or into.entries or into.base is not None:
            it.unsupported("collecting into a used table")
        inn = z3.Function("known_in", z3.StringSort(), z3.BoolSort())
        img = z3.Function("known", z3.StringSort(), Obj)
        it.ctx.prove(IFREE(o.id), "optimize_useless_equality: equalities are collected from an implication-free expression")
        hyp = bv(D(o.id))
        it.ctx.jset(into, "base", keyed(it, know_base(it, hyp, inn, img), inn, "known"))
        it.ctx.scratch["hyp"] = hyp
        return None
    con.virtual["collectKnowledge"] = collect

    def rew(it, o, args, kw):
        m = it.split(args[0].v) if args else it.split(kw["mappings"])
        if o.cls is not ir.Implies:
            it.unsupported("rewrite of another expression")
        a0, a1 = [x.v for x in it.seq(it.getattr(o, "args"))]
        # every entry of the mapping is an equality that holds when the antecedent does
        if not isinstance(m, VDict):
            it.unsupported("mapping")
        if m.entries:
            it.unsupported("mapping with explicit entries")
        if m.base is not None:
            t = it.ctx.fresh(z3.StringSort(), "anyvar")
            f, v = m.base(it, m, Rope([Atom(t, "name")]))
            v = v()
            it.ctx.prove(z3.Implies(z3.And(bv(D(a0.id)), f), z3.And(envf(t) == D(v.id), IFREE(v.id))), "optimize_useless_equality: variables are replaced only by what the antecedent says they are")
        out = []
        for a in (a0, a1):
            r = image(it, REW, a)
            it.ctx.add(typing_fact(r.id))
            it.ctx.assume(z3.Implies(bv(D(a0.id)), D(r.id) == D(a.id)))
            it.ctx.assume(z3.And(z3.Implies(IFREE(a.id), IFREE(r.id)), z3.Implies(POSI(a.id), POSI(r.id))))
            out.append(One(r))
        if it.ctx.scratch.get("case", 0) == 0:
            return it.call(ir.Implies, out)
    con.virtual["rewrite"] = rew
    return con


def keyed(it, base, inn, tag):
    """keys of a symbolic table, in some order"""
    n = z3.Int(f"nkeys[{tag}]")
    key = z3.Function(f"key[{tag}]", z3.IntSort(), z3.StringSort())

    def keys(it, d):
        it.ctx.assume(n >= 0)
        idx = it.idx_for(n)
        it.ctx.add_univ(n, idx, z3.Implies(z3.And(idx >= 0, idx < n), inn(key(idx))))
        return VIter([Many(n, idx, Rope([Atom(key(idx), "name")]), distinct=True)])
    base.keys = keys
    return base


def opt_unit(cls, exact):
    def run(ctx):
        con = opt_contracts(ctx, exact)
        it = I.Interp(ctx, con)

        def path():
            o = self_of(it, cls)
            it.getattr(o, "args")
            ctor_inv(it, o)
            x = o.id
            what = f"{cls.__name__}.optimize_useless_equality"
            segs = it.seq(it.getattr(o, "args"))
            for i, s in enumerate(segs):
                if isinstance(s, One):
                    if isinstance(s.v, VObj):
                        ctx.add(z3.Implies(clsof(s.v.id) == con.code(ir.Var), D(s.v.id) == envf(nameof(s.v.id))))
                        free = exact or (cls is ir.Implies and i == 0) or (cls is ir.Ite and i == 0)
                        ctx.assume(IFREE(s.v.id) if free else POSI(s.v.id))
                else:
                    ctx.add_univ(s.n, s.idx, IFREE(s.val.id) if exact else POSI(s.val.id))
            if cls is ir.Ite and not exact:
                ctx.assume(tyof(x) == Ty.TBool)
            counts = VDict([], base=lambda it, d, k: (True, lambda: Sym(CNT(it.str_term(rope(k))))))

            def ckeys(it, d):
                v = VIter([])
                v.as_set = VSet([], base=lambda it, s, k: True)
                return v
            counts.base.keys = ckeys
            log = VList([])
            ctx.add(NV >= 0)
            new = Opaque("new_vars", {"add": SpecFn(lambda it, a, k: it.ctx.jset(log, "items", list(log.items) + [One(a[0].v)])),
                                      "__len__": SpecFn(lambda it, a, k: it.num(it.binop("Add", Sym(NV), it.seq_len(log.items))) if False else Sym(NV + len(log.items)))})
            ctx.scratch["counts"], ctx.scratch["new"] = counts, new
            before = den_expr(it, o)
            try:
                r = it.split(run_method(it, o, "optimize_useless_equality", counts, new))
            except SymRaise as e:
                ctx.fail(f"{what}: raises no exception", repr(e.value))
                return
            ctx.prove(z3.BoolVal(not counts.entries), f"{what}: the counts are not changed")
            if not isinstance(r, VObj):
                ctx.fail(f"{what}: an expression is returned", repr(r))
                return
            if cls is ir.Eq and not r.lazy and r.cls is ir.Var:
                t = it.str_term(rope(it.split(it.seq(it.getattr(r, "args"))[0].v)))
                fresh = z3.Concat(z3.StringVal("useless_equality_"), z3.IntToStr(NV))
                ctx.prove(t == fresh, f"{what}: the new variable is numbered by the new variables so far")
                ok = len(log.items) == 1
                ctx.prove(z3.BoolVal(ok), f"{what}: the new variable is recorded")
                if ok:
                    v = it.split(log.items[0].v)
                    ctx.prove(it.str_term(rope(it.split(it.seq(it.getattr(v, "args"))[0].v))) == t, f"{what}: the recorded variable is the new one")
                    ctx.prove(it.type_term(it.getattr(v, "type")) == Ty.TBool, f"{what}: the recorded variable is boolean")
                ctx.prove(it.type_term(it.getattr(r, "type")) == Ty.TBool, f"{what}: the new variable is boolean")
                a, b = arg(x, 0), arg(x, 1)
                ctx.prove(z3.Or(*[z3.And(clsof(y) == con.code(ir.Var), CNT(nameof(y)) == 1) for y in (a, b)]),
                          f"{what}: only an equality with a variable used nowhere else is dropped")
                return
            ctx.prove(z3.BoolVal(not log.items), f"{what}: no other variables are recorded")
            if exact:
                same_value(it, r, o, what)
            else:
                wits = list(ctx.scratch.get("wits", []))
                ta = bv(dval(it, den_child(it, r), wits))
                tb = bv(dval(it, before, wits))
                settle(it, wits)
                ctx.prove(z3.Implies(ta, tb), f"{what}: true only where the expression is true")
                ctx.prove(it.type_term(it.getattr(r, "type")) == tyof(x), f"{what}: same type")
        ctx.explore(path)
    return run


for _n in _VAL:
    UNITS[_n + ".collectKnowledge"] = collect_unit(getattr(ir, _n))
for _n in _VAL:
    if _n != "Let":
        UNITS[_n + ".rewrite"] = rewrite_val_unit(getattr(ir, _n))
for _n in _VAL:
    if _n not in ("Let", "Implies"):
        UNITS[_n + ".optimize[exact]"] = opt_unit(getattr(ir, _n), True)
for _n in ("Implies", "And", "Or", "Ite"):
    UNITS[_n + ".optimize[sound]"] = opt_unit(getattr(ir, _n), False)
