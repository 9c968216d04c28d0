"""P11: the verification condition of analyzed Python functions."""
import ast as pyast
import z3
import mypy.nodes as mn
import mypy.types as mt
from pyvc.core import *
from pyvc import interp as I
from .irspec import *
from .p05 import dval
import metalift.ir as ir
import metalift.frontend.python as fp
import metalift.frontend.utils as fu
import metalift.vc_util as vu
import metalift.analysis as an

PID = "P11"
ASSUMPTIONS = [
    "mypy's parse tree and types: names of one function have one type; the trees of the node classes are those mypy builds",
    'RWVarsVisitor collects the variables a loop reads and changes (assumed contract in the proof of visit_while_stmt, compared with real executions by the search)',
    'to_object_type (a table), VariableTracker.variable and copy.deepcopy (a copy that shares nothing) by contract',
    'sub-expressions change no variable (append, add and remove occur as statements only), no two variables share a list',
    'termination of Driver.fresh_name and of the analyzed loops is not claimed',
]
S = z3.StringSort()
Sig = z3.ArraySort(S, Val)          # values of the program variables
Dec = z3.ArraySort(S, z3.BoolSort())  # which variables have one
BOOL = z3.BoolSort()
EV = z3.Function("ev", Obj, Sig, Val)        # value of a Python expression
NTY = z3.Function("nty", Obj, Ty)            # its type
TYV = z3.Function("tyvar", S, Ty)            # type of a variable of the function
OBL = z3.Function("obl", Obj, Sig, BOOL)     # what has to hold when a statement is executed
NORM = z3.Function("norm", Obj, Sig, BOOL)   # the statement is left at its end
POST = z3.Function("post", Obj, Sig, Sig)    # the variables then
DECL = z3.Function("decl", Obj, Dec, Dec)
RET = z3.Function("ret", Obj, BOOL)          # every path through the statement returns
CONJ = z3.Function("conj", Obj, BOOL)        # all of a list of conditions hold
DISJ = z3.Function("disj", Obj, BOOL)
LIST = z3.Function("listof", Obj, Sig, Obj)
VSRC = z3.Function("vsrc", Sig, S, Obj)
ESRC = z3.Function("esrc", Obj, Sig, Obj)
INVAT = z3.Function("invat", Obj, Sig, BOOL)
INVSRC = z3.Function("invsrc", Obj, Sig, Obj)
EQO = z3.Function("same_expr", Obj, Obj, BOOL)
VARTY = [Ty.TInt, Ty.TList(Ty.TInt), Ty.TSet(Ty.TInt)]

EXPTY = VARTY + [Ty.TBool]


def name_rope(t):
    return Rope([Atom(t, "name", None)])


# ---- lists of conditions ------------------------------------------------------
def cond_list(it, P):
    """an arbitrary list of Bool objects identified by P"""
    ctx = it.ctx
    n = argn(P)
    ctx.add(n >= 0)
    ctx.add(z3.Implies(n == 0, z3.And(CONJ(P), z3.Not(DISJ(P)))))
    W1, W2 = (z3.Function(f, Obj, z3.IntSort())(P) for f in ("notall", "someof"))
    for t, w_, neg in ((z3.Not(CONJ(P)), W1, True), (DISJ(P), W2, False)):
        b = bv(D(arg(P, w_)))
        ctx.add(z3.Implies(t, z3.And(w_ >= 0, w_ < n, z3.Not(b) if neg else b)))
    idx = it.idx_for(n)
    e = new_obj(it, arg(P, idx), facts=False)
    for c in EXPR:
        it.con.code(c)
    ctx.add_univ(n, idx, z3.And(tyof(e.id) == Ty.TBool, Val.is_B(D(e.id))))
    ctx.add_univ(n, idx, z3.Implies(z3.And(idx >= 0, idx < n), z3.And(z3.Implies(CONJ(P), bv(D(e.id))), z3.Implies(bv(D(e.id)), DISJ(P)))))
    for w_ in (W1, W2):
        ctx.instantiate(n, w_)
    return Many(n, idx, VObj([ir.Bool], attrs={"src": e}))


def list_id(s):
    """P when the segment is all of the list P"""
    if s.cond is not None or not isinstance(s.val, VObj):
        return None
    e = s.val.attrs.get("src") if not s.val.lazy else s.val
    if not isinstance(e, VObj) or e.id is None or not e.lazy:
        return None
    t = e.id
    if t.decl().name() != "arg" or not t.arg(1).eq(s.idx):
        return None
    P = t.arg(0)
    return P if s.n.eq(argn(P)) else None


def truth_of(it, v):
    v = it.split(v)
    if is_irobj(v):
        v = it.split(it.getattr(v, "src"))
    if isinstance(v, VObj) and not v.lazy and v.cls is ir.Call:
        # the truth of this call
        key = ("call", id(v))
        if key not in it.ctx.scratch:
            it.ctx.jset(it.ctx.scratch, key, (it.ctx.fresh(BOOL, "call"), v), lazy=True)
        return it.ctx.scratch[key][0]
    d = den_child(it, v)
    return bv(dval(it, d, []))


def junct(it, segs, conj=True):
    """truth of the conjunction (disjunction) of a list of conditions"""
    parts = []
    for s in segs:
        if isinstance(s, One):
            parts.append(truth_of(it, s.v))
            continue
        P = list_id(s)
        if P is not None:
            parts.append((CONJ if conj else DISJ)(P))
            continue
        d = it.map_many(s, lambda v: Sym(truth_of(it, v)))
        if d is None:
            continue
        ctx = it.ctx
        t, w = ctx.fresh(BOOL, "junct"), ctx.fresh(z3.IntSort(), "wit")
        e = it._tt(d.val) if not isinstance(d.val, Cases) else zand([z3.Implies(c, x.t) for c, x in d.val.cases])
        inr = z3.And(s.idx >= 0, s.idx < s.n, d.cond if d.cond is not None else True)
        at = lambda f: z3.substitute(f, (s.idx, w))
        e = e if conj else z3.Not(e)
        tt = t if conj else z3.Not(t)
        ctx.add_univ(s.n, s.idx, z3.Implies(z3.And(tt, inr), e))
        ctx.assume(z3.Implies(z3.Not(tt), z3.And(at(inr), z3.Not(at(e)))))
        for x in {str(x): x for n, x in ctx.points + [(s.n, w)] if n.eq(s.n)}.values():
            ctx.instantiate(s.n, x)
        parts.append(t)
    return (zand if conj else zor)(parts)


def bool_of(it, id_, t):
    """a Bool object with the given truth"""
    e = new_obj(it, id_)
    it.ctx.assume(tyof(id_) == Ty.TBool)
    it.ctx.assume(Val.is_B(D(id_)))
    it.ctx.assume(bv(D(id_)) == t)
    return VObj([ir.Bool], attrs={"src": e})


def h_junct(conj):
    def h(it, args, kw):
        # contract of and_objects / or_objects (proved by the unit of that name)
        t = it.len_cmp_nonempty(VList(list(args)))
        if not it.ctx.branch(t):
            it.raise_(Exception, "Must provide at least one expression!")
        return bool_of(it, it.ctx.fresh(Obj, "junction"), junct(it, args, conj))
    return h


# ---- variables -----------------------------------------------------------------
class Cell:
    """where the arbitrary part of State.vars is kept"""

    def __init__(self, sigma, decl, tag, tys=VARTY):
        self.tys = tys
        self.sigma, self.decl, self.tag, self.objs, self.sn = sigma, decl, tag, [], serial()


def var_obj(it, sigma, t, tys=VARTY):
    x = VSRC(sigma, t)
    ctx = it.ctx
    ctx.assume(z3.And(D(x) == z3.Select(sigma, t), tyof(x) == TYV(t), z3.Or([TYV(t) == y for y in tys]), typing_fact(x)))
    return object_of_type(it, TYV(t), x)


OBJDOM = (ir.Int, ir.Bool, ir.List, ir.Set)
OBJOF = z3.Function("objof", Obj, Obj)


def class_fact(it, t, id_):
    """the class of an object goes with the type of its expression"""
    x = OBJOF(id_)
    return z3.And([(clsof(x) == it.con.code(c)) == (t == y) for c, y in zip(OBJDOM, (Ty.TInt, Ty.TBool, Ty.TList(Ty.TInt), Ty.TSet(Ty.TInt)))] + [z3.Or([t == y for y in EXPTY])])


def object_of_type(it, t, id_):
    """the object create_object makes of an expression of type t (P07): its class is
    looked at only when needed"""
    ctx = it.ctx
    e = new_obj(it, id_, facts=False)
    for c in EXPR:
        it.con.code(c)
    ctx.assume(class_fact(it, t, id_))
    return VObj(OBJDOM, OBJOF(id_), attrs={"src": e, "containedT": ir.Int, "type": SType(t)})


def is_irobj(v):
    return isinstance(v, VObj) and not v.lazy and all(issubclass(c, ir.Object) for c in v.dom)


NDECL = z3.Function("ndecl", Dec, z3.IntSort())
DECLKEY = z3.Function("declkey", Dec, z3.IntSort(), S)
DECLPOS = z3.Function("declpos", Dec, S, z3.IntSort())


def dpos(it, decl, t):
    """position of the variable t"""
    p = DECLPOS(decl, t)
    it.ctx.assume(z3.Implies(z3.Select(decl, t), z3.And(p >= 0, p < NDECL(decl), DECLKEY(decl, p) == t)))
    return p


def cell_base(cell):
    def base(it, d, k):
        t = it.str_term(rope(k))
        dpos(it, cell.decl, t)

        def val():
            for t2, o in cell.objs:
                if t2.eq(t):
                    return o
            for t2, o in cell.objs:
                if changed(o, cell, t2) and it.ctx.branch(t2 == t):
                    return o
            o = var_obj(it, cell.sigma, t, cell.tys)
            it.ctx.jset(cell, "objs", cell.objs + [(t, o)], lazy=True)
            return o
        return z3.Select(cell.decl, t), val

    def keys(it, d):
        n, key, posf = NDECL(cell.decl), DECLKEY, DECLPOS
        it.ctx.assume(n >= 0)
        idx = it.idx_for(n)
        it.ctx.add_univ(n, idx, z3.Implies(z3.And(idx >= 0, idx < n), z3.And(z3.Select(cell.decl, key(cell.decl, idx)), posf(cell.decl, key(cell.decl, idx)) == idx)))
        m = Many(n, idx, name_rope(key(cell.decl, idx)), distinct=True)

        def pos(it, k):
            t = it.str_term(rope(k))
            return z3.Select(cell.decl, t), dpos(it, cell.decl, t)
        m.pos = pos
        return VIter([m])

    def deepcopy(it, memo):
        c2 = Cell(sig_cell(it, cell), cell.decl, cell.tag, cell.tys)
        return cell_base(c2)
    base.keys, base.cell, base.deepcopy = keys, cell, deepcopy
    return base


def changed(o, cell, t):
    e = o.attrs.get("src")
    return not (isinstance(e, VObj) and e.id is not None and e.id.eq(VSRC(cell.sigma, t)))


def value_of(it, o):
    return dval(it, den_child(it, it.getattr(o, "src")), [])


def sig_cell(it, cell):
    s = cell.sigma
    for t, o in cell.objs:
        if changed(o, cell, t):
            s = z3.Store(s, t, value_of(it, o))
    return s


def sigma_of(it, d):
    """the values a State.vars dictionary gives to the variables"""
    b = d.base
    if b is None:
        s = z3.K(S, Val.I(z3.IntVal(0)))
    elif hasattr(b, "cell"):
        s = sig_cell(it, b.cell)
    elif hasattr(b, "origin"):
        key = ("sigma", id(b.origin))
        if key not in it.ctx.scratch:
            it.ctx.jset(it.ctx.scratch, key, (it.ctx.fresh(Sig, "sigma"), b.origin), lazy=True)
        s = it.ctx.scratch[key][0]
    else:
        it.unsupported("variables of an unknown state")
    for k, v in d.entries:
        if isinstance(k, Many) or v is I.DELETED:
            it.unsupported("variables of an unknown state")
        s = z3.Store(s, it.str_term(rope(it.split(k))), value_of(it, it.split(v)))
    return s


def decl_of(it, d):
    b = d.base
    if b is None:
        s = z3.K(S, z3.BoolVal(False))
    elif hasattr(b, "cell"):
        s = b.cell.decl
    elif hasattr(b, "origin"):
        # keys of a family are keys of what it was made from
        key = ("decl", id(b.origin))
        if key not in it.ctx.scratch:
            it.ctx.jset(it.ctx.scratch, key, (it.ctx.fresh(Dec, "decl"), b.origin), lazy=True)
        s = it.ctx.scratch[key][0]
    else:
        it.unsupported("variables of an unknown state")
    for k, v in d.entries:
        s = z3.Store(s, it.str_term(rope(it.split(k))), z3.BoolVal(True))
    return s


# ---- states and visitors ----------------------------------------------------------
class World:
    def __init__(self, it):
        self.it, ctx = it, it.ctx
        self.P, self.A = z3.Const("precond", Obj), z3.Const("asserts", Obj)
        self.sigma, self.decl = z3.Const("sigma", Sig), z3.Const("declared", Dec)
        self.cell = Cell(self.sigma, self.decl, "entry")
        self.state = VObj([fp.State], attrs={"precond": VList([cond_list(it, self.P)]), "asserts": VList([cond_list(it, self.A)]),
                                             "vars": VDict([], base=cell_base(self.cell)), "has_returned": False})
        self.args = VList([self.arg_seg()])
        self.fn_name = name_rope(z3.String("fn_name"))
        self.ast = Opaque("funcdef", {"name": self.fn_name}, z3.Const("funcdef", Obj), (mn.FuncDef,))
        self.tracker = VObj([fp.PredicateTracker], attrs={})
        self.vt = VObj([an.VariableTracker], attrs={"registry": VList([])})
        self.driver = VObj([fp.Driver], attrs={"var_tracker": self.vt, "inv_tracker": self.tracker})
        self.types = VDict([], base=lambda it, d, k: (True, lambda: mypy_type(it, node_ty(it, k))))
        nf = z3.Int("nformals")
        ctx.add(nf >= 0)
        fi = it.idx_for(nf)
        ft = z3.Function("formal", z3.IntSort(), S)(fi)
        ctx.add_univ(nf, fi, wf_name(ft))
        self.fn_type = Opaque("fn_type", {"arg_names": VList([Many(nf, fi, name_rope(ft), distinct=True)]), "arg_types": VList([Many(nf, fi, mypy_type(it, TYV(ft)))])},
                              None, (mt.CallableType,))
        self.visitor = VObj([fp.VCVisitor], attrs={
            "driver": self.driver, "fn_name": self.fn_name, "fn_type": self.fn_type, "ast": self.ast, "args": self.args, "ret_val": Opaque("ret_val"),
            "state": self.state, "invariants": VDict([]), "var_tracker": self.vt, "pred_tracker": self.tracker, "inv_grammar": Opaque("inv_grammar"),
            "ps_grammar": Opaque("ps_grammar"), "types": self.types, "uninterp_fns": VList([self.uninterp()])})
        self.context = dict(self.visitor.attrs)
        ctx.scratch["world"] = self
        ctx.scratch["events"] = ()

    def arg_seg(self):
        it = self.it
        n = z3.Int("nargs")
        it.ctx.add(n >= 0)
        idx = it.idx_for(n)
        x = z3.Function("actual", z3.IntSort(), Obj)(idx)
        e = new_obj(it, x, facts=False)
        for c in EXPR:
            it.con.code(c)
        # the class of an argument does not matter to the statements
        return Many(n, idx, VObj([ir.Int], attrs={"src": e}))

    def uninterp(self):
        it = self.it
        n = z3.Int("nuninterp")
        it.ctx.add(n >= 0)
        idx = it.idx_for(n)
        return Many(n, idx, name_rope(z3.Function("uninterp", z3.IntSort(), S)(idx)))

    def ps_value(self, v):
        """the postcondition holds of the arguments and the value v"""
        return z3.Function("psat", Val, BOOL)(v)


def registered(it, d, k):
    return z3.Function("registered", S, BOOL)(it.str_term(rope(k))), lambda: Opaque("type of a variable")


def node_ty(it, k):
    return NTY(k.id)


def mypy_type(it, ty):
    return Opaque("mypy type", {"ty": ty}, None, (mt.Instance,))


def event(it, *e):
    it.ctx.jset(it.ctx.scratch, "events", it.ctx.scratch["events"] + (e,), lazy=True)


def events(it, *prefix):
    return [e for e in it.ctx.scratch["events"] if all(x is y or not isinstance(y, Opaque) and x == y for x, y in zip(e, prefix))]


def expr_node(it, nm, isa=(mn.Expression,), ty=None, **attrs):
    """an arbitrary Python expression"""
    x = z3.Const(nm, Obj)
    if ty is not None:
        it.ctx.assume(NTY(x) == ty)
    return expr_at(x, isa, attrs)


def expr_at(x, isa=(mn.Expression,), attrs=None):
    return Opaque("expr", attrs, x, isa)


def visitor_of(it, a):
    v = it.split(a[0].v)
    if not isinstance(v, VObj) or v.cls is not fp.VCVisitor:
        it.unsupported("another visitor of a part of a function")
    check_context(it, v)
    return v


def expr_accept(it, x, a):
    # contract of the expression visitors: an object of the expression's type
    # denoting its value, nothing else changes
    v = visitor_of(it, a)
    st = it.getattr(v, "state")
    nm = it.ctx.scratch.get("name_of", {}).get(x.sexpr())
    if nm is not None:
        # the object of a variable itself (the unit visit_name_expr)
        f, o = it.dict_find(it.split(it.getattr(st, "vars")), name_rope(nm))
        return it.split(I.force(o))
    sigma = sigma_of(it, it.getattr(st, "vars"))
    event(it, "expr", x, sigma)
    e = ESRC(x, sigma)
    it.ctx.assume(z3.Or([NTY(x) == y for y in EXPTY]))
    it.ctx.assume(z3.And(D(e) == EV(x, sigma), tyof(e) == NTY(x), typing_fact(e)))
    return object_of_type(it, NTY(x), e)


def node_attr(it, o, name):
    if name == "accept" and o.tag == "expr":
        return SpecFn(lambda it, a, k: expr_accept(it, o.id, a))
    if name == "accept" and o.tag == "stmt":
        def accept(it, a, k):
            v = it.split(a[0].v)
            if isinstance(v, VObj) and v.cls is fp.RWVarsVisitor:
                return rw_contract(it, o.id, v)
            visit_contract(it, o.id, it.getattr(visitor_of(it, a), "state"))
        return SpecFn(accept)
    return NotImplemented


def check_context(it, v):
    w = it.ctx.scratch["world"]
    for nm in ("driver", "ast", "args", "pred_tracker", "types", "uninterp_fns", "fn_name", "fn_type"):
        x = v.attrs.get(nm)
        if x is not w.context[nm] and not (isinstance(x, Rope) and vkey(x) == vkey(w.context[nm])):
            it.ctx.fail(f"the parts of a function are visited with the {nm} of the function", repr(x))


def stmt_node(it, name, isa=(mn.Statement,), **attrs):
    return stmt_at(z3.Const(name, Obj), isa, attrs)


def stmt_at(x, isa=(mn.Statement,), attrs=None):
    return Opaque("stmt", attrs, x, isa)


WRN, WRNAME = z3.Function("nwrites", Obj, z3.IntSort()), z3.Function("writename", Obj, z3.IntSort(), S)
WRPOS = z3.Function("writepos", Obj, S, z3.IntSort())
WRITES = z3.Function("writes", Obj, S, BOOL)         # the variables a statement assigns or modifies
RDN, RDNAME = z3.Function("nreads", Obj, z3.IntSort()), z3.Function("readname", Obj, z3.IntSort(), S)


def rw_contract(it, x, v):
    """contract of RWVarsVisitor: the variables a statement writes and reads, with
    their types; no variable has two types"""
    ctx = it.ctx
    if it.split(it.getattr(v, "types")) is not ctx.scratch["world"].types:
        ctx.fail("the variables of a loop are looked for with the types of the function")
    for attr, nf, name in (("writes", WRN, WRNAME), ("reads", RDN, RDNAME)):
        n = nf(x)
        ctx.assume(n >= 0)
        idx = it.idx_for(n)
        t = name(x, idx)
        ctx.add_univ(n, idx, z3.And(wf_name(t), z3.Or([TYV(t) == y for y in VARTY])))
        m = Many(n, idx, vtuple([name_rope(t), mypy_type(it, TYV(t))]), distinct=True)
        if attr == "writes":
            ctx.add_univ(n, idx, z3.Implies(z3.And(idx >= 0, idx < n), z3.And(WRITES(x, t), WRPOS(x, t) == idx)))

            def pos(it, k):
                t = it.str_term(rope(k))
                p = WRPOS(x, t)
                it.ctx.assume(z3.Implies(WRITES(x, t), z3.And(p >= 0, p < WRN(x), WRNAME(x, p) == t)))
                return WRITES(x, t), p
            m.pos = pos
        ctx.jset(v.attrs, attr, VSet([m]))


def visit_contract(it, x, st):
    """contract of the statement visitors, for the statement x"""
    ctx, j = it.ctx, it.ctx.jset
    if it.truth(it.getattr(st, "has_returned")):
        ctx.fail("a statement is visited only where execution can get")
    pl, al, vs = (it.split(it.getattr(st, a)) for a in ("precond", "asserts", "vars"))
    sigma, decl = sigma_of(it, vs), decl_of(it, vs)
    pre = junct(it, pl.items)
    event(it, "stmt", x, sigma, pre)
    Q = z3.Function("new_asserts", Obj, Sig, Obj)(x, sigma)
    seg = cond_list(it, Q)
    ctx.assume(CONJ(Q) == z3.Implies(pre, OBL(x, sigma)))
    j(al, "items", list(al.items) + [seg])
    # objects in the state may be changed in place
    for k_, o in list(vs.entries) + (list(vs.base.cell.objs) if hasattr(vs.base, "cell") else []):
        o = it.split(o)
        if is_irobj(o) and any(issubclass(c, (ir.List, ir.Set)) for c in o.dom):
            j(o.attrs, "src", new_obj(it, ctx.fresh(Obj, "changed")))
    if ctx.branch(RET(x)):
        ctx.assume(z3.Not(NORM(x, sigma)))
        j(st.attrs, "has_returned", True)
        R = z3.Function("some_precond", Obj, Sig, Obj)(x, sigma)
        j(pl, "items", [cond_list(it, R)])
        s2, d2 = ctx.fresh(Sig, "sigma_ret"), ctx.fresh(Dec, "decl_ret")
    else:
        R = z3.Function("new_precond", Obj, Sig, Obj)(x, sigma)
        seg = cond_list(it, R)
        ctx.assume(z3.And(pre, CONJ(R)) == z3.And(pre, NORM(x, sigma)))
        j(pl, "items", list(pl.items) + [seg])
        s2 = z3.Function("vars_after", Obj, Sig, Sig)(x, sigma)
        d2 = DECL(x, decl)
        ctx.assume(z3.Implies(z3.And(pre, NORM(x, sigma)), s2 == POST(x, sigma)))
    cell = Cell(s2, d2, "after")
    if hasattr(vs.base, "cell"):
        # in place: seen by everyone who shares the dictionary
        j(vs.base.cell, "sigma", s2)
        j(vs.base.cell, "decl", d2)
        j(vs.base.cell, "objs", [])
        j(vs, "entries", [])
    else:
        j(vs, "entries", [])
        j(vs, "base", cell_base(cell))


def contracts():
    c = base_contracts()
    c.maybe_empty = True
    c.opaque_attr = node_attr
    c.by_qual["metalift.vc_util.and_objects"] = h_junct(True)
    c.by_qual["metalift.vc_util.or_objects"] = h_junct(False)

    def objeq(it, a, k):
        x, y = it.split(a[0].v), it.split(a[1].v)
        sx, sy = it.getattr(x, "src"), it.getattr(y, "src")
        t = EQO(sx.id, sy.id)
        it.ctx.assume(z3.Implies(t, D(sx.id) == D(sy.id)))
        return Sym(t)
    c.by_qual["metalift.ir.Object.__eq__"] = objeq

    def implies(it, a, k):
        # contract of implies (P07)
        for s in a:
            if not it.isinstance_(s.v, ir.Bool):
                it.raise_(Exception, "implies of something not a Bool")
        x, y = [truth_of(it, s.v) for s in a]
        return bool_of(it, it.ctx.fresh(Obj, "implies"), z3.Implies(x, y))
    c.by_qual["metalift.ir.implies"] = implies

    def ite(it, a, k):
        # contract of ite (P07)
        c, x, y = [it.split(it.getattr(it.split(s.v), "src")) for s in a]
        tx, ty = (tyof(o.id) if isinstance(o, VObj) and o.lazy else it.type_term(it.getattr(o, "type")) for o in (x, y))
        if not it.ctx.branch(tx == ty):
            it.raise_(Exception, "branches of different types")
        r = it.ctx.fresh(Obj, "ite")
        it.ctx.assume(z3.And(tyof(r) == tx, D(r) == z3.If(truth_of(it, c), dval(it, den_child(it, x), []), dval(it, den_child(it, y), []))))
        return object_of_type(it, tx, r)
    c.by_qual["metalift.ir.ite"] = ite

    def create(it, a, k):
        # contract of create_object (P07)
        t = it.type_term(it.split(a[0].v))
        if t is None or len(a) != 2:
            it.unsupported("an object of this type")
        v = it.split(a[1].v)
        if isinstance(v, (str, Rope)):
            src = it.call(ir.Var, [One(v), One(a[0].v)])
            x = z3.Function("varobj", S, Obj)(it.str_term(rope(v)))
        else:
            src, x = v, it.ctx.fresh(Obj, "object")
        o = object_of_type(it, t, x)
        return VObj(o.dom, o.id, {"src": src, "containedT": ir.Int, "type": SType(t)})
    c.by_qual["metalift.ir.create_object"] = create

    def variable(it, a, k):
        # contract of VariableTracker.variable: the variable is declared
        vt = it.split(a[0].v)
        if vt is not it.ctx.scratch["world"].vt:
            it.ctx.fail("variables are declared with the driver of the function")
        l = it.getattr(vt, "registry")
        it.ctx.jset(l, "items", list(l.items) + [One(a[1].v)])
        return it.call(ir.Var, a[1:])
    c.by_qual["metalift.analysis.VariableTracker.variable"] = variable

    def pcall(it, a, k):
        # contract of Predicate.call (proved by the unit of that name)
        p, st = it.split(a[0].v), it.split(a[1].v)
        s = sigma_of(it, it.getattr(st, "vars"))
        event(it, "inv", p.id, s)
        return bool_of(it, INVSRC(p.id, s), INVAT(p.id, s))
    c.by_qual["metalift.frontend.python.Predicate.call"] = pcall

    def invariant(it, a, k):
        vals = {n: it.split(v) for n, v in k.items()}
        for n, s in zip(("fn_name", "o", "args", "writes", "reads", "in_scope", "grammar"), a[1:]):
            vals[n] = it.split(s.v)
        o = vals["o"]
        w = it.ctx.scratch["world"]
        it.ctx.jset(it.ctx.scratch, "invariant_args", vals, lazy=True)
        return VObj([fp.Predicate], z3.Function("invof", Obj, Obj)(o.id), {"name": name_rope(z3.Const("inv_name", S))})
    c.by_qual["metalift.frontend.python.PredicateTracker.invariant"] = invariant

    def fresh_name(it, a, k):
        # contract of Driver.fresh_name: not the name of a variable there already
        t = it.ctx.fresh(S, "fresh_name")
        it.ctx.add(wf_name(t))
        it.ctx.assume(FRESHN(t))
        event(it, "fresh", t.decl().name())
        return name_rope(t)
    c.by_qual["metalift.frontend.python.Driver.fresh_name"] = fresh_name

    def to_type(it, a, k):
        t = it.split(a[0].v)
        x = t.attrs["ty"]
        it.ctx.assume(z3.Or([x == y for y in VARTY]))
        return SType(x)
    c.by_qual["metalift.frontend.python.to_object_type"] = to_type

    def in_scope(it, a, k):
        n = z3.Int("nscope")
        it.ctx.add(n >= 0)
        idx = it.idx_for(n)
        nm = z3.Function("scopename", z3.IntSort(), S)(idx)
        it.ctx.add_univ(n, idx, z3.And(wf_name(nm), z3.Or([TYV(nm) == y for y in VARTY])))
        return VList([Many(n, idx, vtuple([name_rope(nm), SType(TYV(nm))]), distinct=True)])
    c.by_qual["metalift.frontend.python.VCVisitor.in_scope_vars"] = in_scope
    return c


# ---- checking a visit ----------------------------------------------------------------
def decl_family(it):
    d = [v[0] for k, v in it.ctx.scratch.items() if isinstance(k, tuple) and k[0] == "decl"]
    return d[-1] if d else it.ctx.scratch["world"].decl


def check_visit(it, w, what, obl, norm, post, decl, ret):
    ctx = it.ctx
    st = it.getattr(w.visitor, "state")
    ctx.prove(z3.BoolVal(st is w.state), f"{what}: the visitor keeps its state")
    pl, al, vs = (it.split(it.getattr(w.state, a)) for a in ("precond", "asserts", "vars"))
    pre = CONJ(w.P)
    a = list(al.items)
    if not a or list_id(a[0]) is None or not list_id(a[0]).eq(w.A):
        return ctx.fail(f"{what}: the assertions made so far are kept", repr(a[:1]))
    ctx.prove(junct(it, a[1:]) == z3.Implies(pre, obl), f"{what}: what is asserted is what has to hold")
    r = it.truth_term(it.getattr(w.state, "has_returned"))
    ctx.prove(ret == r, f"{what}: returns on every path or not")
    if r is True:
        ctx.prove(z3.Implies(pre, z3.Not(norm)), f"{what}: nothing is executed after it")
        return
    p = list(pl.items)
    if not p or list_id(p[0]) is None or not list_id(p[0]).eq(w.P):
        return ctx.fail(f"{what}: what was known is kept", repr(p[:1]))
    after = junct(it, p)
    ctx.prove(after == z3.And(pre, norm), f"{what}: what is known afterwards is that the statement was executed to its end")
    q = z3.String("some_variable")
    wd = decl(q)
    if not ctx.branch(wd):
        return
    f, v = it.dict_find(vs, name_rope(q))
    if not ctx.branch(f):
        return ctx.prove(z3.Not(after), f"{what}: variables that have a value are known")
    v = it.split(I.force(v))
    ctx.prove(z3.Implies(after, value_of(it, v) == post(q)), f"{what}: the variables have the values they have afterwards")


def attempt(it, what, thunk, refused=None):
    try:
        thunk()
        return True
    except SymRaise as e:
        if refused is None:
            it.ctx.fail(f"{what}: is analyzed", repr(e.value))
        else:
            it.ctx.prove(refused(), f"{what}: is refused only where it is not supported", repr(e.value))
        return False


def run(it, w, f, *args):
    fn = fp.VCVisitor.__dict__[f]
    return it.run_func(it.vfunc(fn), [One(w.visitor)] + [One(a) for a in args], {})


UNITS = {}


def unit(name):
    def deco(body):
        def run_(ctx):
            it = I.Interp(ctx, contracts())
            ctx.explore(lambda: body(it))
        UNITS[name] = run_
        return body
    return deco


# ---- statements -------------------------------------------------------------------------
@unit("visit_assignment_stmt")
def _(it):
    w = World(it)
    x = z3.String("target")
    lv = VList([One(Opaque("name", {"name": name_rope(x)}, z3.Const("lvalue", Obj), (mn.NameExpr,)))])
    multi = it.ctx.choose(2) == 1
    if multi:
        n = z3.Int("nlvalues")
        it.ctx.add(n >= 2)
        lv = VList([Many(n, it.idx_for(n), Opaque("name", {"name": name_rope(x)}, z3.Const("lvalue", Obj), (mn.NameExpr,)))])
    rv = expr_node(it, "rvalue")
    o = stmt_node(it, "stmt", lvalues=lv, rvalue=rv)
    what = "assignment"
    if not attempt(it, what, lambda: run(it, w, "visit_assignment_stmt", o), (lambda: z3.BoolVal(multi))):
        return
    if multi:
        return it.ctx.fail("assignment to several targets is refused")
    check_visit(it, w, what, z3.BoolVal(True), z3.BoolVal(True), lambda q: z3.If(q == x, EV(rv.id, w.sigma), z3.Select(w.sigma, q)),
                lambda q: z3.Or(q == x, z3.Select(w.decl, q)), z3.BoolVal(False))


@unit("visit_expression_stmt")
def _(it):
    w = World(it)
    e = expr_node(it, "e")
    o = stmt_node(it, "stmt", expr=e)
    if attempt(it, "expression statement", lambda: run(it, w, "visit_expression_stmt", o)):
        check_visit(it, w, "expression statement", z3.BoolVal(True), z3.BoolVal(True), lambda q: z3.Select(w.sigma, q), lambda q: z3.Select(w.decl, q), z3.BoolVal(False))
        it.ctx.prove(z3.BoolVal(len(events(it, "expr")) == 1), "expression statement: the expression is visited")


@unit("visit_return_stmt")
def _(it):
    w = World(it)
    e = expr_node(it, "value")
    ps = z3.String("ps_name")
    it.ctx.add(wf_name(ps))
    pred = VObj([fp.Predicate], z3.Const("ps", Obj), {"name": name_rope(ps)})
    it.ctx.jset(w.tracker.attrs, "predicates", VDict([(w.ast, pred)]))
    o = stmt_node(it, "stmt", expr=e)
    what = "return"
    if not attempt(it, what, lambda: run(it, w, "visit_return_stmt", o)):
        return
    junct(it, it.split(it.getattr(w.state, "asserts")).items[1:])
    calls = [v[1] for k, v in it.ctx.scratch.items() if isinstance(k, tuple) and k[0] == "call"]
    if len(calls) != 1:
        return it.ctx.fail(f"{what}: asserts the postcondition", repr(calls))
    want = DApp(ps, [Many(w.args.items[0].n, w.args.items[0].idx, DLeaf(D(w.args.items[0].val.attrs["src"].id))), One(DLeaf(EV(e.id, w.sigma)))])
    den_eq(it, den_child(it, calls[0]), want, f"{what}: the postcondition of the initial arguments and the value returned")
    hold = truth_of(it, calls[0])
    check_visit(it, w, what, hold, z3.BoolVal(False), None, None, z3.BoolVal(True))


@unit("visit_if_stmt")
def _(it):
    ctx = it.ctx
    w = World(it)
    c = expr_node(it, "cond")
    ctx.assume(z3.Or(NTY(c.id) == Ty.TBool, NTY(c.id) == Ty.TInt))
    then, els = stmt_node(it, "then", (mn.Block,)), stmt_node(it, "else", (mn.Block,))
    has_else = ctx.choose(2) == 1
    o = stmt_node(it, "stmt", expr=VList([One(c)]), body=VList([One(then)]), else_body=els if has_else else None)
    what = "if"
    cv = bv(EV(c.id, w.sigma))
    T, E = then.id, els.id
    s = w.sigma
    same = z3.BoolVal(True)
    obl = z3.If(cv, OBL(T, s), OBL(E, s) if has_else else True)
    norm = z3.If(cv, NORM(T, s), NORM(E, s) if has_else else True)
    r2 = RET(E) if has_else else z3.BoolVal(False)
    d1 = z3.If(RET(T), z3.K(S, z3.BoolVal(True)), DECL(T, w.decl))
    d2 = z3.If(r2, z3.K(S, z3.BoolVal(True)), DECL(E, w.decl) if has_else else w.decl)

    def refused():
        q = z3.String("one_sided")
        return z3.Or(NTY(c.id) != Ty.TBool, z3.Exists([q], z3.Select(d1, q) != z3.Select(d2, q)))
    # variables that had a value keep one
    def kept(q):
        return z3.And(*[z3.Implies(z3.Select(w.decl, q), z3.Select(d, q)) for d in (d1, d2)])
    q = z3.String("some_variable")
    ctx.assume(kept(q))
    if not attempt(it, what, lambda: run(it, w, "visit_if_stmt", o), refused):
        return
    ctx.prove(NTY(c.id) == Ty.TBool, "if: the condition is a boolean")
    for e in events(it, "stmt"):
        ctx.prove(z3.BoolVal(e[1].eq(T) or has_else and e[1].eq(E)), "if: its branches are visited")
    post = lambda q: z3.Select(z3.If(cv, POST(T, s), POST(E, s) if has_else else s), q)
    check_visit(it, w, what, obl, norm, post, lambda q: z3.And(z3.Select(d1, q), z3.Select(d2, q)), z3.And(RET(T), r2))


# ---- blocks ---------------------------------------------------------------------------
class BlockFold:
    """a block, one statement at a time: what has to hold (OB) when the first k
    statements are executed, when they are executed to their end (REACH), the
    variables then (SIG), and whether one of them returns on every path (RETP)"""

    def __init__(self, it, w, n, node):
        self.it, self.w, self.n, self.node = it, w, n, node
        IS = z3.IntSort()
        self.OB, self.REACH, self.RETP = (z3.Function(f, IS, BOOL) for f in ("ob", "reach", "retp"))
        self.SIG, self.DK = z3.Function("sig", IS, Sig), z3.Function("deck", IS, Dec)
        self.Q, self.R = z3.Function("blockasserts", IS, Obj), z3.Function("blockprecond", IS, Obj)
        z = z3.IntVal(0)
        it.ctx.assume(z3.And(self.OB(z), self.REACH(z), z3.Not(self.RETP(z)), self.SIG(z) == w.sigma, self.DK(z) == w.decl))

    def step(self, k):
        x, s = self.node(k), self.SIG(k)
        k1 = z3.simplify(k + 1)
        return z3.And(self.OB(k1) == z3.And(self.OB(k), z3.Implies(self.REACH(k), OBL(x, s))), self.REACH(k1) == z3.And(self.REACH(k), NORM(x, s)),
                      self.RETP(k1) == z3.Or(self.RETP(k), RET(x)), self.SIG(k1) == POST(x, s), self.DK(k1) == DECL(x, self.DK(k)), z3.Implies(RET(x), z3.Not(NORM(x, s))))

    def lemmas(self):
        """what follows a statement that returns is not executed"""
        j, k, pr = z3.Int("j"), z3.Int("k"), self.it.ctx.prove
        one = lambda k: z3.Implies(self.RETP(k), z3.Not(self.REACH(k)))
        pr(one(z3.IntVal(0)), "block: after a return nothing is executed (at the start)")
        pr(z3.Implies(z3.And(self.step(k), one(k)), one(k + 1)), "block: after a return nothing is executed (one more statement)")
        two = lambda j: z3.And(self.RETP(j), self.OB(j) == self.OB(k))
        pr(z3.Implies(z3.And(self.RETP(k)), two(k)), "block: what follows a return does not matter (no statement)")
        pr(z3.Implies(z3.And(self.step(j), one(j), two(j)), two(j + 1)), "block: what follows a return does not matter (one more statement)")

    def use(self, k):
        """the lemmas at k and at the end"""
        one = lambda k: z3.Implies(self.RETP(k), z3.Not(self.REACH(k)))
        self.it.ctx.assume(z3.And(one(k), one(self.n), z3.Implies(self.RETP(k), z3.And(self.RETP(self.n), self.OB(self.n) == self.OB(k)))))

    def applies(self, it, seg, env):
        return seg.n.eq(self.n)

    def parts(self):
        it, st = self.it, self.w.state
        return tuple(it.split(it.getattr(st, a)) for a in ("precond", "asserts", "vars"))

    def havoc(self, it, loc, k):
        o, a = loc
        w, j = self.w, it.ctx.jset
        pl, al, vs = self.parts()
        pre = CONJ(w.P)
        if o is al:
            j(al, "items", [cond_list(it, w.A), cond_list(it, self.Q(k))])
        elif o is pl:
            if it.ctx.branch(self.RETP(k)):
                j(pl, "items", [cond_list(it, z3.Function("stale", z3.IntSort(), Obj)(k))])
            else:
                j(pl, "items", [cond_list(it, w.P), cond_list(it, self.R(k))])
        elif o is w.state.attrs and a == "has_returned":
            j(o, a, it.ctx.branch(self.RETP(k)))
        elif o is vs or isinstance(o, Cell):
            s2 = z3.Function("blocksigma", z3.IntSort(), Sig)(k)
            c = vs.base.cell if hasattr(vs.base, "cell") else it.unsupported("variables of an unknown state")
            j(vs, "entries", [])
            j(c, "sigma", s2)
            j(c, "decl", z3.If(self.RETP(k), z3.Function("blockdecl", z3.IntSort(), Dec)(k), self.DK(k)))
            j(c, "objs", [])
        elif a == "src":
            j(o, a, new_obj(it, it.ctx.fresh(Obj, "changed")))
        else:
            it.unsupported(f"loop over the statements of a block changes {a}")

    def assume(self, it, locs, k, m):
        ctx, w = it.ctx, self.w
        pre = CONJ(w.P)
        ctx.assume(CONJ(self.Q(k)) == z3.Implies(pre, self.OB(k)))
        s2 = z3.Function("blocksigma", z3.IntSort(), Sig)(k)
        ctx.assume(z3.Implies(z3.Not(self.RETP(k)), z3.And(z3.And(pre, CONJ(self.R(k))) == z3.And(pre, self.REACH(k)),
                                                           z3.Implies(z3.And(pre, self.REACH(k)), s2 == self.SIG(k)))))
        self.use(k)

    def begin(self, it, val, k, m):
        it.ctx.assume(self.step(k))
        self.use(k)

    def check(self, it, locs, k, m):
        self.use(k)
        check_visit(it, self.w, f"block after {'no statement' if z3.is_int_value(k) else 'one more statement'}",
                    self.OB(k), self.REACH(k), lambda q: z3.Select(self.SIG(k), q), lambda q: z3.Select(self.DK(k), q), self.RETP(k))


@unit("visit_block")
def _(it):
    w = World(it)
    n = z3.Int("nstmts")
    it.ctx.add(n >= 0)
    idx = it.idx_for(n)
    node = z3.Function("stmtof", z3.IntSort(), Obj)
    f = BlockFold(it, w, n, node)
    f.lemmas()
    it.con.folds["metalift.frontend.python.VCVisitor.visit_block"] = f
    o = stmt_node(it, "block", (mn.Block,), body=VList([Many(n, idx, stmt_at(node(idx)))]))
    it.ctx.assume(z3.Implies(n > 0, z3.BoolVal(True)))
    if attempt(it, "block", lambda: run(it, w, "visit_block", o)):
        f.use(n)
        check_visit(it, w, "block", f.OB(n), f.REACH(n), lambda q: z3.Select(f.SIG(n), q), lambda q: z3.Select(f.DK(n), q), f.RETP(n))


# ---- loops -------------------------------------------------------------------------------
def family_fact(it, q):
    """what the values of families of variables are for the variable q"""
    for key, (s, base) in [(k, v) for k, v in it.ctx.scratch.items() if isinstance(k, tuple) and k[0] == "sigma"]:
        f, v = base(it, None, name_rope(q))
        if it.ctx.branch(f):
            v = it.split(I.force(I.Thunk(v) if callable(v) and not isinstance(v, Value) else v))
            it.ctx.assume(z3.Select(s, q) == value_of(it, v))


FRESHN = z3.Function("is_new_name", S, BOOL)


def declared_var(it, w, t):
    """t is among the names of variables declared"""
    ok = []
    for s in w.vt.attrs["registry"].items:
        x = it.str_term(rope(it.split(s.v if isinstance(s, One) else s.val)))
        if isinstance(s, One):
            ok.append(x == t)
        elif z3.is_app(t) and t.num_args() == 1 and x.num_args() == 1 and x.decl().eq(t.decl()) and x.arg(0).eq(s.idx):
            p = t.arg(0)
            c = z3.And(p >= 0, p < s.n)
            ok.append(c if s.cond is None else z3.And(c, z3.substitute(s.cond, (s.idx, p))))
    it.ctx.prove(zor(ok), "while: the variable standing for a variable the loop writes is declared")


def while_unit(has_else):
    def body(it):
        ctx = it.ctx
        w = World(it)
        c = expr_node(it, "cond")
        ctx.assume(NTY(c.id) == Ty.TBool)
        B, E = stmt_node(it, "body", (mn.Block,)), stmt_node(it, "else", (mn.Block,))
        o = stmt_node(it, "stmt", (mn.WhileStmt,), expr=c, body=B, else_body=E if has_else else None)
        what = "while"
        ctx.assume(WRN(o.id) >= 0)
        if not attempt(it, what, lambda: run(it, w, "visit_while_stmt", o)):
            return
        INV = z3.Function("invof", Obj, Obj)(o.id)
        vals = ctx.scratch.get("invariant_args")
        if vals is None:
            return ctx.fail("while: the loop has an invariant")
        ctx.prove(z3.BoolVal(vals["o"] is o and vals["args"] is w.args and vals["grammar"] is w.visitor.attrs["inv_grammar"]),
                  "while: the invariant of this loop, of the arguments of the function, in the grammar for invariants")
        sig1 = [e[2] for e in events(it, "expr") if e[1].eq(c.id)]
        if len(sig1) != 1:
            return ctx.fail("while: the condition is visited once", repr(events(it)))
        s0, s1 = w.sigma, sig1[0]
        q = z3.String("some_variable")
        cv, i1 = bv(EV(c.id, s1)), INVAT(INV, s1)
        obl = z3.And(INVAT(INV, s0), z3.Implies(z3.And(cv, i1), OBL(B.id, s1)),
                     z3.Implies(z3.And(z3.Not(RET(B.id)), cv, i1, NORM(B.id, s1)), INVAT(INV, POST(B.id, s1))))
        out = z3.And(z3.Not(cv), i1)
        if has_else:
            obl = z3.And(obl, z3.Implies(out, OBL(E.id, s1)))
            norm, post = z3.And(out, NORM(E.id, s1)), (lambda q: z3.Select(POST(E.id, s1), q))
            decl = lambda q: z3.Select(DECL(E.id, decl_family(it)), q)
        else:
            norm, post = out, (lambda q: z3.Select(s1, q))
            decl = lambda q: z3.Or(z3.Select(w.decl, q), WRITES(o.id, q))
            family_fact(it, q)
            f, v = it.dict_find(it.split(it.getattr(w.state, "vars")), name_rope(q))
            if ctx.branch(z3.Or(WRITES(o.id, q), z3.Select(w.decl, q))):
                ctx.prove(f if z3.is_expr(f) else z3.BoolVal(f), "while: the variables have values afterwards")
                p = WRPOS(o.id, q)
                val = value_of(it, it.split(I.force(v)))
                if ctx.branch(WRITES(o.id, q)):
                    src = it.split(it.getattr(it.split(I.force(v)), "src"))
                    if not isinstance(src, VObj) or src.cls is not ir.Var or src.lazy:
                        return ctx.fail("while: a variable the loop writes is any value, that of a variable", repr(src))
                    t = it.str_term(rope(it.split(it.seq(it.getattr(src, "args"))[0].v)))
                    ctx.prove(FRESHN(t), "while: the variable standing for a variable the loop writes is a new one")
                    declared_var(it, w, t)
                else:
                    ctx.prove(val == z3.Select(s0, q), "while: other variables keep their value")
        check_visit(it, w, what, obl, norm, post, decl, RET(E.id) if has_else else z3.BoolVal(False))
    return body


for _e in (False, True):
    unit(f"visit_while_stmt[{'else' if _e else 'no else'}]")(while_unit(_e))


# ---- expressions ---------------------------------------------------------------------------
def sub(it, name, *tys):
    e = expr_node(it, name)
    if tys:
        it.ctx.assume(z3.Or([NTY(e.id) == t for t in tys]))
    return e


def unchanged(it, w, what):
    """a visited expression leaves the state as it is"""
    ctx = it.ctx
    st = it.getattr(w.visitor, "state")
    ctx.prove(z3.BoolVal(st is w.state), f"{what}: the visitor keeps its state")
    pl, al, vs = (it.split(it.getattr(st, a)) for a in ("precond", "asserts", "vars"))
    for l, P, nm in ((pl, w.P, "known"), (al, w.A, "asserted")):
        ctx.prove(z3.BoolVal(len(l.items) == 1 and list_id(l.items[0]) is not None and list_id(l.items[0]).eq(P)), f"{what}: what is {nm} is kept")
    ctx.prove(z3.BoolVal(it.getattr(st, "has_returned") is False), f"{what}: does not return")
    if hasattr(vs.base, "cell") and vs.base.cell is w.cell:
        q = z3.String("some_variable")
        ctx.prove(z3.And(sigma_of(it, vs) == w.sigma, decl_of(it, vs) == w.decl), f"{what}: the variables keep their values")
    else:
        ctx.fail(f"{what}: the variables keep their values", repr(vs))


def expr_result(it, w, r, t, want, what, pure=True):
    r = it.split(r)
    ctx = it.ctx
    if not is_irobj(r):
        return ctx.fail(f"{what}: gives an object", repr(r))
    classes = {ir.Int: Ty.TInt, ir.Bool: Ty.TBool, ir.List: Ty.TList(Ty.TInt), ir.Set: Ty.TSet(Ty.TInt)}
    if r.cls in classes:
        ctx.prove(t == classes[r.cls], f"{what}: class of the object")
    src = it.split(it.getattr(r, "src"))
    st = tyof(src.id) if src.lazy else it.type_term(it.getattr(src, "type"))
    ctx.prove(st == t if st is not None else z3.BoolVal(False), f"{what}: type of its expression")
    d = den_child(it, src)
    if isinstance(want, (DApp, DLeaf)):
        den_eq(it, d, want, f"{what}: denotes the value")
    else:
        ctx.prove(dval(it, d, []) == want, f"{what}: denotes the value")
    if pure:
        unchanged(it, w, what)


def evl(w, e):
    return DLeaf(EV(e.id, w.sigma))


@unit("visit_int_expr")
def _(it):
    w = World(it)
    v = z3.Int("literal")
    o = expr_node(it, "e", value=Sym(v))
    r = []
    if attempt(it, "integer literal", lambda: r.append(run(it, w, "visit_int_expr", o))):
        expr_result(it, w, r[0], Ty.TInt, DLeaf(I_(v)), "integer literal")


@unit("visit_name_expr")
def _(it):
    w = World(it)
    x = z3.String("x")
    it.ctx.add(wf_name(x))
    o = expr_node(it, "e", (mn.NameExpr,), name=name_rope(x))
    r = []
    if attempt(it, "variable", lambda: r.append(run(it, w, "visit_name_expr", o)), lambda: z3.Not(z3.Select(w.decl, x))):
        it.ctx.prove(z3.Select(w.decl, x), "variable: it has a value")
        it.ctx.assume(z3.Select(w.decl, x))
        expr_result(it, w, r[0], TYV(x), DLeaf(z3.Select(w.sigma, x)), "variable")


COMPARE = {">": ">", "<": "<", "==": "=", ">=": ">=", "<=": "<=", "!=": None}
OTHER_CMP = ["in", "not in", "is", "is not", "!="]


@unit("process_comparison")
def _(it):
    w = World(it)
    ops = [o for o in COMPARE if o != "!="] + OTHER_CMP
    op = ops[it.ctx.choose(len(ops))]
    l, r = sub(it, "l"), sub(it, "r")
    res = []
    args = [run_accept(it, w, x) for x in (l, r)]
    ok = z3.And(NTY(l.id) == Ty.TInt, NTY(r.id) == Ty.TInt)
    if attempt(it, f"comparison {op}", lambda: res.append(run(it, w, "process_comparison", op, *args)),
               lambda: z3.BoolVal(True) if op in OTHER_CMP else z3.Not(ok)):
        it.ctx.prove(ok, f"comparison {op}: of integers")
        if op == "!=":
            return expr_result(it, w, res[0], Ty.TBool, DApp("not", [One(DApp("=", [One(evl(w, l)), One(evl(w, r))]))]), f"comparison {op}")
        if op in OTHER_CMP:
            return it.ctx.fail(f"comparison {op} is refused")
        expr_result(it, w, res[0], Ty.TBool, DApp(COMPARE[op], [One(evl(w, l)), One(evl(w, r))]), f"comparison {op}")


def run_accept(it, w, e):
    return expr_accept(it, e.id, [One(w.visitor)])


ARITH = {"+": "+", "-": "-", "*": "*", "//": "div"}


@unit("visit_op_expr")
def _(it):
    w = World(it)
    ops = list(ARITH) + ["and", "or", "/", "%", "**", "@", "<<", ">>", "&", "|", "^"]
    op = ops[it.ctx.choose(len(ops))]
    l, r = sub(it, "l"), sub(it, "r")
    o = expr_node(it, "e", (mn.OpExpr,), left=l, right=r, op=op)
    ty = Ty.TBool if op in ("and", "or") else Ty.TInt
    ok = z3.And(NTY(l.id) == ty, NTY(r.id) == ty)
    res = []
    what = f"operator {op}"
    known = op in ARITH or op in ("and", "or")
    if not known or op == "//":
        it.ctx.assume(ok)       # as in every program without type errors
    if attempt(it, what, lambda: res.append(run(it, w, "visit_op_expr", o)), lambda: z3.Not(ok) if known else z3.BoolVal(True)):
        if op in ("and", "or"):
            it.ctx.prove(ok, f"{what}: of booleans")
            a, b = bv(EV(l.id, w.sigma)), bv(EV(r.id, w.sigma))
            return expr_result(it, w, res[0], ty, B_(z3.And(a, b) if op == "and" else z3.Or(a, b)), what)
        if not known:
            return it.ctx.fail(f"{what} is refused")
        it.ctx.prove(ok, f"{what}: of integers")
        expr_result(it, w, res[0], ty, DApp(ARITH[op], [One(evl(w, l)), One(evl(w, r))]), what)


@unit("visit_unary_expr")
def _(it):
    w = World(it)
    ops = ["-", "+", "~", "not"]
    op = ops[it.ctx.choose(len(ops))]
    e = sub(it, "operand")
    o = expr_node(it, "e", (mn.UnaryExpr,), expr=e, op=op)
    res, what = [], f"unary {op}"
    ok = NTY(e.id) == Ty.TInt
    if attempt(it, what, lambda: res.append(run(it, w, "visit_unary_expr", o)), lambda: z3.Not(ok) if op == "-" else z3.BoolVal(True)):
        if op != "-":
            return it.ctx.fail(f"{what} is refused")
        it.ctx.prove(ok, f"{what}: of an integer")
        expr_result(it, w, res[0], Ty.TInt, DApp("-", [One(DLeaf(I_(z3.IntVal(0)))), One(evl(w, e))]), what)


@unit("visit_list_expr")
def _(it):
    w = World(it)
    n = z3.Int("nitems")
    it.ctx.add(n >= 0)
    idx = it.idx_for(n)
    o = expr_node(it, "e", (mn.ListExpr,), items=VList([Many(n, idx, expr_at(z3.Function("itemof", z3.IntSort(), Obj)(idx)))]))
    r = []
    if attempt(it, "list display", lambda: r.append(run(it, w, "visit_list_expr", o)), lambda: n > 0):
        it.ctx.prove(n == 0, "list display: of no elements")
        expr_result(it, w, r[0], Ty.TList(Ty.TInt), DApp("list_empty", []), "list display")


@unit("visit_index_expr")
def _(it):
    w = World(it)
    b, i = sub(it, "base"), sub(it, "index")
    o = expr_node(it, "e", (mn.IndexExpr,), base=b, index=i)
    r = []
    ok = z3.And(NTY(b.id) == Ty.TList(Ty.TInt), NTY(i.id) == Ty.TInt)
    if attempt(it, "index", lambda: r.append(run(it, w, "visit_index_expr", o)), lambda: z3.Not(ok)):
        it.ctx.prove(ok, "index: of a list, by an integer")
        expr_result(it, w, r[0], Ty.TInt, DApp("list_get", [One(evl(w, b)), One(evl(w, i))]), "index")


def call_node(it, callee, *args):
    return expr_node(it, "e", isa=(mn.CallExpr,), callee=callee, args=VList(list(args)))


def name_node(it, nm):
    return Opaque("expr", {"name": nm if isinstance(nm, str) else name_rope(nm)}, z3.Const("name_" + str(nm), Obj), (mn.NameExpr, mn.Expression))


def method_node(it, obj, nm):
    return Opaque("expr", {"name": nm, "expr": obj}, z3.Const("member", Obj), (mn.MemberExpr, mn.Expression))


@unit("visit_call_expr[len]")
def _(it):
    w = World(it)
    a = sub(it, "list")
    o = call_node(it, name_node(it, "len"), One(a))
    r = []
    ok = NTY(a.id) == Ty.TList(Ty.TInt)
    if attempt(it, "len", lambda: r.append(run(it, w, "visit_call_expr", o)), lambda: z3.Not(ok)):
        it.ctx.prove(ok, "len: of a list")
        expr_result(it, w, r[0], Ty.TInt, DApp("list_length", [One(evl(w, a))]), "len")


def modify_unit(meth):
    def body(it):
        ctx = it.ctx
        w = World(it)
        x = z3.String("x")
        ctx.add(wf_name(x))
        a = sub(it, "elem")
        ctx.assume(NTY(a.id) == Ty.TInt)
        recv = name_node(it, x)
        # what visit_name_expr does (the unit of that name)
        it.ctx.assume(z3.Select(w.decl, x))
        it.ctx.assume(NTY(recv.id) == TYV(x))
        it.ctx.jset(ctx.scratch, "name_of", {recv.id.sexpr(): x}, lazy=True)
        named = ctx.choose(2) == 0
        if not named:
            recv = sub(it, "receiver")
        o = call_node(it, method_node(it, recv, meth), One(a))
        ty = Ty.TList(Ty.TInt) if meth == "append" else Ty.TSet(Ty.TInt)
        r = []
        ok = z3.And(z3.BoolVal(named), TYV(x) == ty)
        if not attempt(it, meth, lambda: r.append(run(it, w, "visit_call_expr", o)), lambda: z3.Not(ok)):
            return
        ctx.prove(ok, f"{meth}: on a variable")
        old, e = DLeaf(z3.Select(w.sigma, x)), evl(w, a)
        single = DApp("set-singleton", [One(e)])
        want = {"append": DApp("list_append", [One(old), One(e)]), "add": DApp("set-union", [One(old), One(single)]), "remove": DApp("set-minus", [One(old), One(single)])}[meth]
        expr_result(it, w, r[0], ty, want, meth, pure=False)
        new = den_z3(want)
        check_visit(it, w, meth, z3.BoolVal(True), z3.BoolVal(True), lambda q: z3.If(q == x, new, z3.Select(w.sigma, q)), lambda q: z3.Or(q == x, z3.Select(w.decl, q)), z3.BoolVal(False))
    return body


for _m in ("append", "add", "remove"):
    unit(f"visit_call_expr[{_m}]")(modify_unit(_m))


@unit("visit_call_expr[uninterpreted]")
def _(it):
    ctx = it.ctx
    w = World(it)
    f = z3.String("callee")
    ctx.add(wf_name(f))
    n = z3.Int("ncallargs")
    ctx.add(n >= 0)
    idx = it.idx_for(n)
    a = z3.Function("callarg", z3.IntSort(), Obj)(idx)
    ctx.assume(f != z3.StringVal("len"))
    o = call_node(it, name_node(it, f), Many(n, idx, expr_at(a)))
    r = []
    k = z3.Int("position")
    un = z3.Function("uninterp", z3.IntSort(), S)
    listed = z3.And(k >= 0, k < z3.Int("nuninterp"), un(k) == f)

    def unlisted():
        ctx.instantiate(z3.Int("nuninterp"), k)
        return z3.Not(listed)
    if attempt(it, "uninterpreted function", lambda: r.append(run(it, w, "visit_call_expr", o)), unlisted):
        expr_result(it, w, r[0], NTY(o.id), DApp(f, [Many(n, idx, DLeaf(EV(a, w.sigma)))]), "uninterpreted function")


@unit("visit_tuple_expr")
def _(it):
    w = World(it)
    n = z3.Int("nitems")
    it.ctx.add(n >= 1)
    idx = it.idx_for(n)
    x = z3.Function("itemof", z3.IntSort(), Obj)(idx)
    it.ctx.add_univ(n, idx, z3.Or(NTY(x) == Ty.TInt, NTY(x) == Ty.TBool))
    o = expr_node(it, "e", (mn.TupleExpr,), items=VList([Many(n, idx, expr_at(x))]))
    def make_tuple(it, a, k):
        # contract of make_tuple (P07)
        es = it.map_seq(a, lambda v: it.getattr(v, "src"))
        return VObj([ir.Tuple], attrs={"src": VObj([ir.TupleExpr], attrs={"args": VList(es)})})
    it.con.by_qual["metalift.ir.make_tuple"] = make_tuple
    r = []
    if attempt(it, "tuple", lambda: r.append(run(it, w, "visit_tuple_expr", o))):
        v = it.split(r[0])
        it.ctx.prove(z3.BoolVal(isinstance(v, VObj) and v.cls is ir.Tuple), "tuple: gives a tuple object")
        den_eq(it, den_child(it, it.getattr(v, "src")), DApp("make-tuple", [Many(n, idx, DLeaf(EV(x, w.sigma)))]), "tuple: of its components")
        unchanged(it, w, "tuple")


CMP = z3.Function("cmp", S, Val, Val, BOOL)


class CompareFold:
    """a chain of comparisons: the first k + 1 of them hold (CH)"""

    def __init__(self, it, w, op, x, n):
        self.it, self.w, self.op, self.x, self.n = it, w, op, x, n
        self.CH = z3.Function("chain", z3.IntSort(), BOOL)
        it.ctx.assume(self.CH(z3.IntVal(0)) == self.holds(z3.IntVal(0)))

    def holds(self, i):
        return CMP(self.op(i), EV(self.x(i), self.w.sigma), EV(self.x(z3.simplify(i + 1)), self.w.sigma))

    def applies(self, it, seg, env):
        return it.ctx.must(seg.n == self.n - 1)

    def havoc(self, it, loc, k):
        o, a = loc
        it.ctx.jset(o, a, bool_of(it, z3.Function("chainof", z3.IntSort(), Obj)(k), self.CH(k)))

    def check(self, it, locs, k, m):
        if len(locs) != 1:
            it.unsupported("loop over the parts of a comparison changes more than its result")
        o, a = locs[0]
        it.ctx.prove(truth_of(it, o[a] if isinstance(o, dict) else getattr(o, a)) == self.CH(k), "comparison: the first comparisons hold")

    def assume(self, it, locs, k, m):
        pass

    def begin(self, it, val, k, m):
        it.ctx.assume(self.CH(z3.simplify(k + 1)) == z3.And(self.CH(k), self.holds(z3.simplify(k + 1))))


@unit("visit_comparison_expr")
def _(it):
    ctx = it.ctx
    w = World(it)
    n = z3.Int("noperators")
    ctx.add(n >= 1)
    idx = it.idx_for(n)
    op = z3.Function("operator", z3.IntSort(), S)
    n1 = z3.simplify(n + 1)
    jdx = it.idx_for(n1)
    x = z3.Function("operand", z3.IntSort(), Obj)
    o = expr_node(it, "e", (mn.ComparisonExpr,), operators=VList([Many(n, idx, name_rope(op(idx)))]), operands=VList([Many(n1, jdx, expr_at(x(jdx)))]))

    def compare(it, a, k):
        # contract of process_comparison (the unit of that name)
        s = it.str_term(rope(it.split(a[1].v)))
        l, r = [dval(it, den_child(it, it.getattr(it.split(y.v), "src")), []) for y in a[2:]]
        return bool_of(it, it.ctx.fresh(Obj, "compared"), CMP(s, l, r))
    it.con.by_qual["metalift.frontend.python.VCVisitor.process_comparison"] = compare
    f = CompareFold(it, w, op, x, n)
    it.con.folds["metalift.frontend.python.VCVisitor.visit_comparison_expr"] = f
    r = []
    if attempt(it, "comparison", lambda: r.append(run(it, w, "visit_comparison_expr", o))):
        expr_result(it, w, r[0], Ty.TBool, B_(f.CH(z3.simplify(n - 1))), "comparison: all of its parts hold")


# ---- functions ----------------------------------------------------------------------------
@unit("visit_func_def")
def _(it):
    ctx = it.ctx
    w = World(it)
    # the arguments: arbitrary objects
    n = z3.Int("nargs")
    idx = it.idx_for(n)
    x = z3.Function("actual", z3.IntSort(), Obj)
    ctx.add_univ(n, idx, class_fact(it, tyof(x(idx)), x(idx)))
    args = VList([Many(n, idx, object_of_type(it, tyof(x(idx)), x(idx)))])
    ctx.jset(w.visitor.attrs, "args", args)
    w.context["args"] = args
    ctx.jset(w.state.attrs, "vars", VDict([]))
    nf, formal = z3.Int("nformals"), z3.Function("formal", z3.IntSort(), S)
    fpos = z3.Function("formalpos", S, z3.IntSort())
    fi = it.idx_for(nf)
    isf = z3.Function("is_formal", S, BOOL)
    ctx.add_univ(nf, fi, z3.Implies(z3.And(fi >= 0, fi < nf), z3.And(isf(formal(fi)), fpos(formal(fi)) == fi)))

    def pos(it, k):
        t = it.str_term(rope(k))
        p = fpos(t)
        it.ctx.assume(z3.Implies(isf(t), z3.And(p >= 0, p < nf, formal(p) == t)))
        return isf(t), p
    w.fn_type.attrs["arg_names"].items[0].pos = pos
    rt = z3.Const("return_type", Ty)
    w.fn_type.attrs["ret_type"] = mypy_type(it, rt)
    same_name = ctx.choose(2) == 0
    body = stmt_node(it, "body", (mn.Block,))
    o = w.ast
    other = z3.String("other_name")
    if not same_name:
        ctx.add(other != z3.String("fn_name"))
        o = Opaque("funcdef", {"name": name_rope(other)}, z3.Const("otherdef", Obj), (mn.FuncDef,))
    o.attrs.update({"type": w.fn_type, "body": body})
    calls = []

    def postcondition(it, a, k):
        vals = dict(zip(("o", "outs", "ins", "grammar"), [it.split(s.v) for s in a[1:]]))
        vals.update({n: it.split(v) for n, v in k.items()})
        ctx.jset(ctx.scratch, "ps_args", vals, lazy=True)
        return VObj([fp.Predicate], attrs={})
    it.con.by_qual["metalift.frontend.python.PredicateTracker.postcondition"] = postcondition
    what = "function"
    q = z3.String("some_parameter")
    k = z3.Int("some_argument")

    def refused():
        # another number of arguments, or one of another type
        ctx.instantiate(n, k)
        bad = [e for e in ctx.scratch.get("mistyped", ())]
        return z3.Or(n != nf, mistyped(it, n, nf, x, formal))
    if not attempt(it, what, lambda: run(it, w, "visit_func_def", o), refused):
        return
    if not same_name:
        ctx.prove(z3.BoolVal(not events(it, "stmt")), "function: only the function analyzed is")
        return
    ctx.prove(n == nf, "function: as many arguments as parameters")
    ctx.assume(n == nf)
    vs = [e for e in events(it, "stmt")]
    if len(vs) != 1 or not vs[0][1].eq(body.id):
        return ctx.fail("function: its body is visited once", repr(vs))
    ps = ctx.scratch.get("ps_args")
    if ps is None:
        return ctx.fail("function: it has a postcondition")
    ctx.prove(z3.BoolVal(ps["o"] is o and ps["ins"] is args and ps["grammar"] is w.visitor.attrs["ps_grammar"]), "function: the postcondition of the function, its arguments, in the grammar for postconditions")
    s1 = vs[0][2]
    ctx.assume(isf(q))
    _, p = pos(it, name_rope(q))
    ctx.instantiate(n, p)
    ctx.instantiate(nf, p)
    before = [v for k, v in ctx.scratch.items() if isinstance(k, tuple) and k[0] == "sigma"]
    if len(before) != 1:
        return it.unsupported("variables of an unknown state")
    f, v = before[0][1](it, None, name_rope(q))
    ctx.prove(f if z3.is_expr(f) else z3.BoolVal(f), "function: the parameters have values")
    v = it.split(I.force(I.Thunk(v) if callable(v) and not isinstance(v, Value) else v))
    ctx.prove(z3.And(value_of(it, v) == D(x(p)), TYV(q) == tyof(x(p))), "function: a parameter is the argument at its place, of its type")
    obl, norm = OBL(body.id, s1), NORM(body.id, s1)
    check_visit(it, w, what, obl, norm, lambda q: z3.Select(POST(body.id, s1), q), lambda q: z3.Select(DECL(body.id, decl_family(it)), q), RET(body.id))


def mistyped(it, n, nf, x, formal):
    """some argument has not the type of its parameter"""
    i = z3.Int("i_mistyped")
    return z3.Exists([i], z3.And(i >= 0, i < n, i < nf, tyof(x(i)) != TYV(formal(i))))


@unit("in_scope_vars")
def _(it):
    ctx = it.ctx
    con = it.con
    con.by_qual.pop("metalift.frontend.python.VCVisitor.in_scope_vars", None)
    w = World(it)
    n = z3.Int("nnodes")
    ctx.add(n >= 0)
    idx = it.idx_for(n)
    nm = z3.Function("nodename", z3.IntSort(), S)
    isname = z3.Function("isname", z3.IntSort(), BOOL)
    names = Opaque("expr", {"name": name_rope(nm(idx))}, z3.Function("nodeid", z3.IntSort(), Obj)(idx), (mn.NameExpr, mn.Expression))
    others = Opaque("expr", {}, z3.Function("nodeid2", z3.IntSort(), Obj)(idx), (mn.IntExpr, mn.Expression))
    types = VDict([(Many(n, idx, names), Many(n, idx, Opaque("t"))), (Many(n, idx, others), Many(n, idx, Opaque("t")))])
    r = []
    if attempt(it, "variables in scope", lambda: r.append(it.run_func(it.vfunc(fp.VCVisitor.__dict__["in_scope_vars"]), [One(w.visitor), One(w.state.attrs["vars"]), One(types)], {}))):
        segs = it.seq(r[0])
        if len(segs) != 1 or not isinstance(segs[0], Many):
            return ctx.fail("variables in scope: those that have a value", repr(segs))
        s = segs[0]
        nd = NDECL(w.decl)
        key = DECLKEY(w.decl, s.idx)
        ctx.prove(s.n == nd, "variables in scope: those that have a value")
        i = z3.Int("some_index")
        ctx.assume(z3.And(i >= 0, i < nd))
        ctx.instantiate(s.n, i)
        if s.cond is not None and not ctx.branch(z3.substitute(s.cond, (s.idx, i))):
            # left out: not the name of an expression of the program
            j = z3.Int("some_node")
            ctx.instantiate(n, j)
            return ctx.prove(z3.Implies(z3.And(j >= 0, j < n), nm(j) != DECLKEY(w.decl, i)), "variables in scope: none is left out")
        v = it.split(vsubst(s.val, [(s.idx, i)]))
        a, b = [y.v for y in v.items]
        ctx.prove(it.str_term(rope(it.split(a))) == DECLKEY(w.decl, i), "variables in scope: by their names")
        ctx.prove(it.type_term(it.split(b)) == TYV(DECLKEY(w.decl, i)), "variables in scope: with the type of their values")


# ---- conjunctions and disjunctions of conditions --------------------------------------
class ObjectSetFold:
    """a set of conditions: all (some) of those kept hold iff all (some) of the first k do"""

    def __init__(self, it, P, n):
        self.it, self.n, self.P = it, n, P
        self.L = z3.Function("kept", z3.IntSort(), Obj)
        self.ALL, self.ANY = (z3.Function(f, z3.IntSort(), BOOL) for f in ("all_of_first", "any_of_first"))
        z = z3.IntVal(0)
        it.ctx.assume(z3.And(self.ALL(z), z3.Not(self.ANY(z))))
        self.objs = None

    def applies(self, it, seg, env):
        return seg.n.eq(self.n)

    def havoc(self, it, loc, k):
        o, a = loc
        if a not in ("items", "objs"):
            it.unsupported(f"a set of conditions: {a} changes")
        l = o if a == "items" else VList([])
        it.ctx.jset(l, "items", [cond_list(it, self.L(k))])
        if a == "objs":
            it.ctx.jset(o, a, l)

    def facts(self, k):
        return z3.And(CONJ(self.L(k)) == self.ALL(k), DISJ(self.L(k)) == self.ANY(k), z3.Implies(k > 0, argn(self.L(k)) > 0))

    def assume(self, it, locs, k, m):
        it.ctx.assume(self.facts(k))

    def begin(self, it, val, k, m):
        t, k1 = truth_of(it, val), z3.simplify(k + 1)
        it.ctx.assume(z3.And(self.ALL(k1) == z3.And(self.ALL(k), t), self.ANY(k1) == z3.Or(self.ANY(k), t)))

    def check(self, it, locs, k, m):
        ctx = it.ctx
        if len(locs) != 1:
            it.unsupported("a set of conditions changes more than its elements")
        o, a = locs[0]
        l = o if a == "items" else it.split(o[a])
        ctx.prove(junct(it, l.items) == self.ALL(k), "conditions kept: all hold iff all of the given ones do")
        ctx.prove(junct(it, l.items, False) == self.ANY(k), "conditions kept: one holds iff one of the given ones does")
        if not z3.is_int_value(k):
            t = it.len_cmp_nonempty(VList(list(l.items)))
            ctx.prove(t if z3.is_expr(t) else z3.BoolVal(bool(t)), "conditions kept: some, if some are given")


class ExprsFold:
    """a conjunction (disjunction): the first k + 1 expressions hold"""

    def __init__(self, it, x, n, conj):
        self.it, self.x, self.n, self.conj = it, x, n, conj
        self.T = z3.Function("of_first", z3.IntSort(), BOOL)
        it.ctx.assume(self.T(z3.IntVal(0)) == bv(D(x(z3.IntVal(0)))))

    def applies(self, it, seg, env):
        return it.ctx.must(seg.n == self.n - 1)

    def havoc(self, it, loc, k):
        o, a = loc
        id_ = z3.Function("junction", z3.IntSort(), Obj)(k)
        it.ctx.jset(o, a, bool_of(it, id_, self.T(k)).attrs["src"])

    def assume(self, it, locs, k, m):
        pass

    def begin(self, it, val, k, m):
        k1 = z3.simplify(k + 1)
        v = bv(D(self.x(k1)))
        it.ctx.assume(self.T(k1) == (z3.And if self.conj else z3.Or)(self.T(k), v))

    def check(self, it, locs, k, m):
        if len(locs) != 1:
            it.unsupported("loop over conditions changes more than its result")
        o, a = locs[0]
        v = it.split(o[a] if isinstance(o, dict) else getattr(o, a))
        it.ctx.prove(it.eq_type_term(v, Ty.TBool) if hasattr(it, "eq_type_term") else it.type_term(it.getattr(v, "type")) == Ty.TBool, "junction: a condition")
        it.ctx.prove(truth_of(it, v) == self.T(k), "junction: of the first conditions")


def exprs_unit(conj):
    nm = "and_exprs" if conj else "or_exprs"

    @unit(nm)
    def _(it):
        ctx = it.ctx
        ctx.scratch["events"] = ()
        n = z3.Int("nexprs")
        ctx.add(n >= 0)
        idx = it.idx_for(n)
        x = z3.Function("condition", z3.IntSort(), Obj)
        ctx.add_univ(n, idx, z3.And(tyof(x(idx)) == Ty.TBool, Val.is_B(D(x(idx)))))
        e = new_obj(it, x(idx), facts=False)
        for c in EXPR:
            it.con.code(c)
        ctx.instantiate(n, z3.IntVal(0))
        f = ExprsFold(it, x, n, conj)
        it.con.folds["metalift.vc_util." + nm] = f
        r = []
        if attempt(it, "junction", lambda: r.append(it.run_func(it.vfunc(getattr(vu, nm)), [Many(n, idx, e)], {})), lambda: n == 0):
            ctx.prove(n > 0, "junction: of no conditions is refused")
            v = it.split(r[0])
            ctx.prove(truth_of(it, v) == f.T(z3.simplify(n - 1)), "junction: holds iff " + ("all" if conj else "one") + " of the conditions holds")


exprs_unit(True)
exprs_unit(False)


def objects_unit(conj):
    nm = "and_objects" if conj else "or_objects"

    @unit(nm)
    def _(it):
        ctx = it.ctx
        ctx.scratch["events"] = ()
        it.con.by_qual.pop("metalift.vc_util." + nm, None)
        P = z3.Const("conditions", Obj)
        s = cond_list(it, P)
        n = s.n
        f = ObjectSetFold(it, P, n)
        it.con.folds["metalift.frontend.utils.ObjectSet.__init__"] = f

        def exprs(it, a, k):
            # contract of and_exprs / or_exprs (the units of those names)
            t = it.len_cmp_nonempty(VList(list(a)))
            if not it.ctx.branch(t):
                it.raise_(Exception, "Must provide at least one expression!")
            return bool_of(it, it.ctx.fresh(Obj, "junction"), junct(it, list(a), conj)).attrs["src"]
        it.con.by_qual["metalift.vc_util." + ("and_exprs" if conj else "or_exprs")] = exprs
        r = []
        if attempt(it, nm, lambda: r.append(it.run_func(it.vfunc(getattr(vu, nm)), [s], {})), lambda: n == 0):
            ctx.prove(n > 0, f"{nm}: of nothing is refused")
            v = it.split(r[0])
            ctx.prove(z3.BoolVal(isinstance(v, VObj) and v.cls is ir.Bool), f"{nm}: a condition")
            ctx.prove(truth_of(it, v) == (f.ALL if conj else f.ANY)(n), f"{nm}: holds iff " + ("all" if conj else "one") + " of the conditions holds")


objects_unit(True)
objects_unit(False)


# ---- names ----------------------------------------------------------------------------
class FreshInv:
    """no more is known of the candidate than that it is a text made of the name"""

    def check(self, it, env, when):
        pass

    def havoc(self, it, env, nm):
        ctx = it.ctx
        v = env.vars.get(nm)
        if isinstance(v, int) or isinstance(v, Sym):
            ctx.jset(env.vars, nm, Sym(ctx.fresh(z3.IntSort(), nm)))
        else:
            ctx.jset(env.vars, nm, name_rope(ctx.fresh(S, nm)))

    def assume(self, it, env):
        pass


@unit("fresh_name")
def _(it):
    ctx = it.ctx
    q = "metalift.frontend.python.Driver.fresh_name"
    it.con.by_qual.pop(q, None)
    it.con.whiles[q] = FreshInv()
    decl = z3.Const("known", Dec)
    cell = Cell(z3.Const("sigma", Sig), decl, "entry")
    base = cell_base(cell)
    vt = VObj([an.VariableTracker], attrs={"var_to_type": VDict([], base=base), "groups": VDict([]), "existing": VDict([])})
    d = VObj([fp.Driver], attrs={"var_tracker": vt})
    r = []
    if attempt(it, "fresh name", lambda: r.append(it.run_func(it.vfunc(fp.Driver.fresh_name), [One(d), One(name_rope(z3.String("name")))], {}))):
        t = it.str_term(rope(it.split(r[0])))
        dpos(it, decl, t)
        ctx.instantiate(NDECL(decl), DECLPOS(decl, t))
        ctx.prove(z3.Not(z3.Select(decl, t)), "fresh name: no variable has it")


# ---- predicates -------------------------------------------------------------------------
def var_objects(it, n, nm):
    """n objects made of variables with the given names"""
    idx = it.idx_for(n)
    t = z3.Function(nm, z3.IntSort(), S)
    it.ctx.add_univ(n, idx, z3.And(wf_name(t(idx)), z3.Or([TYV(t(idx)) == y for y in VARTY])))
    v = VObj([ir.Var], attrs={"args": VList([One(name_rope(t(idx)))]), "type": SType(TYV(t(idx)))})
    return t, Many(n, idx, VObj([ir.Object], attrs={"src": v}))


def is_call_of(it, v, name, n, want, what, extra=()):
    """v is a Bool made of the call of name with the n values want(i), and the extra ones"""
    ctx = it.ctx
    ctx.prove(z3.BoolVal(bool(it.isinstance_(v, ir.Bool))), f"{what}: a condition")
    c = it.split(it.getattr(v, "src"))
    if not (isinstance(c, VObj) and not c.lazy and c.cls is ir.Call):
        return ctx.fail(f"{what}: a call", repr(c))
    ctx.prove(z3.BoolVal(it.split(it.getattr(c, "type")) is ir.Bool), f"{what}: a call that gives a condition")
    segs = it.seq(it.getattr(c, "args"))
    first, rest = it.split(segs[0].v) if isinstance(segs[0], One) else None, list(segs[1:])
    if first is None:
        return ctx.fail(f"{what}: a call", repr(segs))
    ctx.prove(it.str_term(rope(first)) == name, f"{what}: calls the predicate")
    tail = []
    while rest and isinstance(rest[-1], One) and len(tail) < len(extra):
        tail.insert(0, it.split(rest.pop().v))
    if len(tail) != len(extra):
        return ctx.fail(f"{what}: the arguments", repr(segs))
    for a, b in zip(tail, extra):
        ctx.prove(z3.BoolVal(a is b), f"{what}: the arguments after those given")
    if len(rest) > 1 or any(not isinstance(s, Many) or s.cond is not None for s in rest):
        return ctx.fail(f"{what}: the arguments", repr(segs))
    ctx.prove((rest[0].n if rest else z3.IntVal(0)) == n, f"{what}: as many arguments as variables")
    if rest:
        i = z3.Int("some_argument")
        ctx.assume(z3.And(i >= 0, i < n))
        ctx.instantiate(n, i)
        ctx.instantiate(rest[0].n, i)
        x = it.split(vsubst(rest[0].val, [(rest[0].idx, i)]))
        want(i, x)


@unit("Predicate.call")
def _(it):
    ctx = it.ctx
    it.con.by_qual.pop("metalift.frontend.python.Predicate.call", None)
    w = World(it)
    n = z3.Int("npredargs")
    ctx.add(n >= 0)
    t, args = var_objects(it, n, "predarg")
    p = VObj([fp.Predicate], attrs={"args": VList([args]), "name": name_rope(z3.String("predname"))})
    r = []
    i = z3.Int("some_argument")

    def missing():
        j = z3.Int("j_missing")
        return z3.Exists([j], z3.And(j >= 0, j < n, z3.Not(z3.Select(w.decl, t(j)))))
    if attempt(it, "predicate", lambda: r.append(it.run_func(it.vfunc(fp.Predicate.call), [One(p), One(w.state)], {})), missing):
        def want(i, x):
            ctx.prove(dval(it, den_child(it, x), []) == z3.Select(w.sigma, t(i)), "predicate: of the values the variables have")
        is_call_of(it, it.split(r[0]), z3.String("predname"), n, want, "predicate")


@unit("MetaliftFunc.__call__")
def _(it):
    ctx = it.ctx
    w = World(it)
    n = z3.Int("nactuals")
    ctx.add(n >= 0)
    idx = it.idx_for(n)
    x = z3.Function("given", z3.IntSort(), Obj)
    ctx.add_univ(n, idx, class_fact(it, tyof(x(idx)), x(idx)))
    args = Many(n, idx, object_of_type(it, tyof(x(idx)), x(idx)))
    PC, AS = z3.Const("postconditions", Obj), z3.Const("asserted", Obj)
    pcs, asserts = VList([cond_list(it, PC)]), VList([cond_list(it, AS)])
    driver = VObj([fp.Driver], attrs={"var_tracker": w.vt, "inv_tracker": w.tracker, "postconditions": pcs, "asserts": asserts})
    rt = z3.Const("return_type", Ty)
    o = w.ast
    o.attrs["type"] = w.fn_type
    w.fn_type.attrs["ret_type"] = mypy_type(it, rt)
    NEWA = z3.Const("new_assertions", Obj)
    seen = []
    fn = VObj([fp.MetaliftFunc], attrs={
        "driver": driver, "ast": o, "types": w.types, "name": w.fn_name, "target_lang_fn": Opaque("target"), "inv_grammar": Opaque("inv_grammar"),
        "ps_grammar": Opaque("ps_grammar"), "synthesized": None, "uninterp_fns": w.visitor.attrs["uninterp_fns"]})
    what = "call of an analyzed function"

    def accept(it, a, k):
        # contract of visit_func_def (the unit of that name)
        v = it.split(a[0].v)
        st = it.split(it.getattr(v, "state"))
        g = lambda o, nm: it.split(it.getattr(o, nm))
        f = lambda nm: fn.attrs[nm]
        ctx.prove(z3.BoolVal(all([
            g(v, "driver") is driver, g(v, "ast") is o, g(v, "fn_name") is w.fn_name, g(v, "var_tracker") is w.vt, g(v, "pred_tracker") is w.tracker,
            g(v, "inv_grammar") is f("inv_grammar"), g(v, "ps_grammar") is f("ps_grammar"), g(v, "types") is f("types"), g(v, "uninterp_fns") is f("uninterp_fns")])),
            f"{what}: analyzed as it was given")
        segs = it.seq(g(v, "args"))
        ctx.prove(z3.BoolVal(len(segs) == 1 and segs[0].n.eq(n) and is_irobj(segs[0].val) and segs[0].val.id.eq(args.val.id)), f"{what}: with the arguments given")
        vs, pl, al = g(st, "vars"), g(st, "precond"), g(st, "asserts")
        ctx.prove(z3.BoolVal(not vs.entries and vs.base is None and g(st, "has_returned") is False and not al.items), f"{what}: starts with no variables")
        ctx.prove(z3.BoolVal(len(pl.items) == 1 and (list_id(pl.items[0]) is not None) and list_id(pl.items[0]).eq(PC)), f"{what}: what is known are the postconditions of earlier calls")
        ctx.prove(z3.BoolVal(pl is not pcs and al is not asserts), f"{what}: a state of its own")
        seen.append(v)
        ctx.jset(al, "items", [cond_list(it, NEWA)])
        ctx.jset(pl, "items", [cond_list(it, z3.Const("known_at_end", Obj))])
        return None
    o.attrs["accept"] = SpecFn(accept)
    r = []
    if not attempt(it, what, lambda: r.append(it.run_func(it.vfunc(fp.MetaliftFunc.__call__), [One(fn), args], {}))):
        return
    if len(seen) != 1:
        return ctx.fail(f"{what}: is analyzed")
    a = it.split(it.getattr(driver, "asserts")).items
    ctx.prove(z3.BoolVal(len(a) == 2 and all(list_id(s) is not None for s in a) and list_id(a[0]).eq(AS) and list_id(a[1]).eq(NEWA)), f"{what}: its assertions are added to those of the driver")
    v = it.split(r[0])
    src = it.split(it.getattr(v, "src"))
    if not isinstance(src, VObj) or src.lazy or src.cls is not ir.Var:
        return ctx.fail(f"{what}: gives a variable", repr(src))
    nm = it.str_term(rope(it.split(it.seq(it.getattr(src, "args"))[0].v)))
    ctx.prove(FRESHN(nm), f"{what}: the result is a variable there was not before")
    reg = [it.str_term(rope(it.split(s.v))) for s in it.getattr(w.vt, "registry").items]
    ctx.prove(z3.Or([nm == y for y in reg] or [z3.BoolVal(False)]), f"{what}: the result is declared")
    ctx.prove(it.type_term(it.getattr(src, "type")) == rt, f"{what}: the result has the type the function returns")
    p = it.split(it.getattr(driver, "postconditions")).items
    if len(p) != 2 or list_id(p[0]) is None or not list_id(p[0]).eq(PC) or not isinstance(p[1], One):
        return ctx.fail(f"{what}: its postcondition is assumed from then on", repr(p))
    is_call_of(it, it.split(p[1].v), z3.Concat(z3.String("fn_name"), z3.StringVal("_ps")), n,
               lambda i, y: ctx.prove(z3.BoolVal(isinstance(y, VObj) and y.id is not None and y.id.eq(x(i))), f"{what}: the postcondition of the arguments"), what, [src])


def tracked(known):
    """PredicateTracker with or without a predicate of the node"""
    def make(it, o):
        pr = VObj([fp.Predicate], attrs={"name": name_rope(z3.String("known"))})
        d = VDict([(o, pr)] if known else [])
        return VObj([fp.PredicateTracker], attrs={"predicates": d, "num": Sym(z3.Int("num")), "types": VDict([])}), d, pr
    return make


@unit("PredicateTracker.postcondition")
def _(it):
    ctx = it.ctx
    ctx.scratch["events"] = ()
    o = Opaque("funcdef", {"name": name_rope(z3.String("fn_name"))}, z3.Const("funcdef", Obj), (mn.FuncDef,))
    known = ctx.choose(2) == 1
    t, d, old = tracked(known)(it, o)
    n = z3.Int("nins")
    ctx.add(n >= 0)
    _, ins = var_objects(it, n, "insname")
    _, outs = var_objects(it, z3.Int("nouts"), "outsname")
    ctx.add(z3.Int("nouts") >= 0)
    li, lo, g = VList([ins]), VList([outs]), Opaque("grammar")
    r = []
    what = "postcondition predicate"
    if not attempt(it, what, lambda: r.append(it.run_func(it.vfunc(fp.PredicateTracker.postcondition), [One(x) for x in (t, o, lo, li, g)], {}))):
        return
    p = it.split(r[0])
    if known:
        return ctx.prove(z3.BoolVal(p is old), f"{what}: one per function")
    f, v = it.dict_find(d, o)
    ctx.prove(z3.BoolVal(f is True and it.split(I.force(v)) is p), f"{what}: is remembered")
    ctx.prove(it.str_term(rope(it.split(it.getattr(p, "name")))) == z3.Concat(z3.String("fn_name"), z3.StringVal("_ps")), f"{what}: its name")
    segs = it.seq(it.getattr(p, "args"))
    ctx.prove(z3.BoolVal([vkey(s.n) if isinstance(s, Many) else None for s in segs] == [vkey(n), vkey(z3.Int("nouts"))] if False else
                         len(segs) == 2 and all(isinstance(s, Many) and s.cond is None for s in segs) and segs[0].n.eq(n) and segs[1].n.eq(z3.Int("nouts"))
                         and segs[0].val is ins.val and segs[1].val is outs.val), f"{what}: of the arguments, then the result")
    same = lambda a, s: (lambda l: len(l) == 1 and l[0].val is s.val and l[0].n.eq(s.n))(it.seq(it.getattr(p, a)))
    ctx.prove(z3.BoolVal(same("writes", outs) and same("reads", ins) and it.split(it.getattr(p, "grammar")) is g), f"{what}: what the grammar is given")


@unit("Predicate.gen_Synth")
def _(it):
    ctx = it.ctx
    ctx.scratch["events"] = ()
    n = z3.Int("npredargs")
    ctx.add(n >= 0)
    t, args = var_objects(it, n, "predarg")
    W, R, N = (VList([]) for _ in range(3))
    body = bool_of(it, z3.Const("grammar_body", Obj), z3.Const("grammar_truth", BOOL))
    seen = []

    def grammar(it, a, k):
        seen.append([it.split(x.v) for x in a])
        return body
    p = VObj([fp.Predicate], attrs={"args": VList([args]), "name": name_rope(z3.String("predname")), "writes": W, "reads": R, "in_scope": N, "grammar": SpecFn(grammar)})
    r = []
    what = "function to synthesize"
    if not attempt(it, what, lambda: r.append(it.run_func(it.vfunc(fp.Predicate.gen_Synth), [One(p)], {}))):
        return
    ctx.prove(z3.BoolVal(len(seen) == 1 and all(x is y for x, y in zip(seen[0], (W, R, N)))), f"{what}: the grammar is given the variables written, read and in scope")
    s = it.split(r[0])
    if not isinstance(s, VObj) or s.cls is not ir.Synth:
        return ctx.fail(f"{what}: a Synth", repr(s))
    segs = it.seq(it.getattr(s, "args"))
    ok = len(segs) == 3 and isinstance(segs[0], One) and isinstance(segs[1], One) and isinstance(segs[2], Many) and segs[2].cond is None and segs[2].n.eq(n)
    if not ok:
        return ctx.fail(f"{what}: name, body and arguments", repr(segs))
    ctx.prove(it.str_term(rope(it.split(segs[0].v))) == z3.String("predname"), f"{what}: its name")
    b = it.split(segs[1].v)
    ctx.prove(z3.BoolVal(isinstance(b, VObj) and b.id is not None and b.id.eq(body.attrs["src"].id)), f"{what}: its body is what the grammar gives")
    i = z3.Int("some_argument")
    ctx.assume(z3.And(i >= 0, i < n))
    x = it.split(vsubst(segs[2].val, [(segs[2].idx, i)]))
    ctx.prove(it.str_term(rope(it.split(it.seq(it.getattr(x, "args"))[0].v))) == t(i), f"{what}: its arguments are those of the predicate")


@unit("PredicateTracker.invariant")
def _(it):
    ctx = it.ctx
    ctx.scratch["events"] = ()
    it.con.by_qual.pop("metalift.frontend.python.PredicateTracker.invariant", None)
    o = Opaque("loop", {}, z3.Const("loop", Obj), (mn.WhileStmt,))
    known = ctx.choose(2) == 1
    t, d, old = tracked(known)(it, o)
    ctx.add(z3.Int("num") >= 0)
    n = z3.Int("nargs")
    ctx.add(n >= 0)
    _, args = var_objects(it, n, "argname")
    la, lw, lr, ls, g = VList([args]), VList([]), VList([]), VList([]), Opaque("grammar")
    x = z3.Int("nouter")
    ctx.add(x >= 0)
    _, outer = var_objects(it, x, "outername")

    def minus(it, a, k):
        # the variables in scope that are no arguments (some of them)
        return VObj([fu.ObjectSet], attrs={"objs": VList([outer])})
    it.con.by_qual["metalift.frontend.utils.ObjectSet.__sub__"] = minus
    it.con.by_qual["metalift.frontend.utils.ObjectSet.__init__"] = lambda it, a, k: None
    it.con.by_qual["metalift.frontend.utils.ObjectSet.__iter__"] = lambda it, a, k: VIter(list(it.seq(it.getattr(it.split(a[0].v), "objs"))))
    r = []
    what = "invariant predicate"
    f = it.vfunc(fp.PredicateTracker.invariant)
    if not attempt(it, what, lambda: r.append(it.run_func(f, [One(y) for y in (t, name_rope(z3.String("fn_name")), o, la, lw, lr, ls, g)], {}))):
        return
    p = it.split(r[0])
    if known:
        return ctx.prove(z3.BoolVal(p is old), f"{what}: one per loop")
    ff, v = it.dict_find(d, o)
    ctx.prove(z3.BoolVal(ff is True and it.split(I.force(v)) is p), f"{what}: is remembered")
    nm = lambda k: z3.Concat(z3.String("fn_name"), z3.StringVal("_inv"), z3.IntToStr(k))
    ctx.prove(it.str_term(rope(it.split(it.getattr(p, "name")))) == nm(z3.Int("num")), f"{what}: its name")
    ctx.prove(it.split(it.getattr(t, "num")).t > z3.Int("num"), f"{what}: the next loop gets another name")
    segs = it.seq(it.getattr(p, "args"))
    ctx.prove(z3.BoolVal(len(segs) == 2 and all(isinstance(s, Many) and s.cond is None for s in segs) and segs[0].n.eq(n) and segs[0].val is args.val and segs[1].n.eq(x)),
              f"{what}: of the arguments, then the other variables in scope")
    ctx.prove(z3.BoolVal(len(it.seq(la)) == 1), f"{what}: the arguments of the function are left alone")
    same = lambda a, l: it.split(it.getattr(p, a)) is l
    ctx.prove(z3.BoolVal(same("writes", lw) and same("reads", lr) and same("in_scope", ls) and same("grammar", g)), f"{what}: what the grammar is given")
