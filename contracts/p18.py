"""P18: the verification condition of analyzed LLVM functions."""
import z3
from pyvc.core import *
from pyvc import interp as I
from .irspec import *
from .p05 import dval
from . import p11 as B
from .p11 import (cond_list, list_id, truth_of, junct, bool_of, Cell, cell_base, object_of_type, is_irobj, sigma_of, decl_of, value_of, dpos, is_call_of, var_objects,
                  FRESHN, FreshInv, attempt, name_rope, event, events, Sig, Dec, BOOL, S, CONJ, TYV, EXPTY)
import metalift.ir as ir
import metalift.vc as mvc
import metalift.frontend.llvm as fl
import metalift.frontend.utils as fu
import metalift.analysis as an
from llvmlite.binding import ValueRef

PID = "P18"
ASSUMPTIONS = [
    "llvmlite's parse of the module: operands, opcodes, names and the printed form of constants and instructions",
    "every register and slot has one name and one type, and no register is called like a slot; values have the type of their name",
    "VariableTracker.variable, create_object, call, and/or_objects, implies and ite by contract (P07, P11)",
    "deepcopy gives a copy that shares nothing; an Expr is equal only to one that denotes the same",
    "machine integers are mathematical: trunc, sext and bitcast keep the value; sdiv, srem and ult are used on numbers >= 0",
    "the targets of a conditional branch have no other predecessor (the analysis pass that adds empty blocks)",
]
BOUNDED = ["merge_states: two and three predecessors", "visit_llvm_block, get_havocs: up to two variables changed by a loop and up to two loops at a block",
           "read_operand: constants (a table of printed forms)", "preprocess, LoopInfo, MetaliftFunc.__call__: small functions with arbitrary names and values",
           "tuples, getField/setField, parse_loops, demangling, MetaliftFunc.__init__, setupBlocks: comparison of the conditions of random programs with real executions"]
Q = "metalift.frontend.llvm."
LIST, SET = Ty.TList(Ty.TInt), Ty.TSet(Ty.TInt)


def slots(nm, tys=None):
    """an arbitrary dictionary of values"""
    cell = Cell(z3.Const("sigma_" + nm, Sig), z3.Const("declared_" + nm, Dec), nm, tys or EXPTY)
    return VDict([], base=cell_base(cell)), cell


def state(it, nm, flags=(False, False)):
    P, A = z3.Const("precond_" + nm, Obj), z3.Const("asserts_" + nm, Obj)
    regs, rc = slots("regs_" + nm)
    mem, mc = slots("mem_" + nm)
    st = VObj([fl.State], attrs={"precond": VList([cond_list(it, P)]), "asserts": VList([cond_list(it, A)]), "primitive_vars": regs, "pointer_vars": mem,
                                 "has_returned": flags[0], "processed": flags[1]})
    st.was = {"P": P, "A": A, "regs": (rc.sigma, rc.decl), "mem": (mc.sigma, mc.decl)}
    return st


TYPED = {k: z3.Function("typed_" + k, S, BOOL) for k in ("primitive", "pointer")}


def type_table(kind):
    def base(it, d, k):
        return TYPED[kind](it.str_term(rope(k))), lambda: SType(TYV(it.str_term(rope(k))))

    def keys(it, d):
        n = z3.Int("ntyped_" + kind)
        it.ctx.add(n >= 0)
        idx = it.idx_for(n)
        return VIter([Many(n, idx, name_rope(z3.Function("typedname_" + kind, z3.IntSort(), S)(idx)), distinct=True)])
    base.keys = keys
    return VDict([], base=base)


class World:
    def __init__(self, it, blocks=("block",), loops=()):
        self.it, ctx = it, it.ctx
        self.names = {b: z3.String("name_of_" + b) for b in blocks}
        for t in self.names.values():
            ctx.add(wf_name(t))
        if len(blocks) > 1:
            ctx.add(z3.Distinct(*self.names.values()))
        self.states = {b: state(it, b) for b in blocks}
        self.state = self.states[blocks[0]]
        self.block = name_rope(self.names[blocks[0]])
        self.fn_name = name_rope(z3.String("fn_name"))
        self.tracker = VObj([fl.PredicateTracker], attrs={"predicates": VDict([]), "types": VDict([])})
        self.vt = VObj([an.VariableTracker], attrs={"registry": VList([])})
        self.PC = z3.Const("postconditions", Obj)
        self.AS = z3.Const("asserted", Obj)
        self.driver = VObj([fl.Driver], attrs={"var_tracker": self.vt, "pred_tracker": self.tracker, "postconditions": VList([cond_list(it, self.PC)]), "asserts": VList([cond_list(it, self.AS)])})
        n = z3.Int("nargs")
        ctx.add(n >= 0)
        idx = it.idx_for(n)
        x = z3.Function("actual", z3.IntSort(), Obj)
        for c in EXPR:
            it.con.code(c)
        self.args = VList([Many(n, idx, VObj([ir.Int], attrs={"src": new_obj(it, x(idx), facts=False)}))])
        self.nargs, self.arg = n, x
        nu = z3.Int("nuninterp")
        ctx.add(nu >= 0)
        ui = it.idx_for(nu)
        self.uninterp = VList([Many(nu, ui, name_rope(z3.Function("uninterp", z3.IntSort(), S)(ui)))])
        self.visitor = VObj([fl.VCVisitor], attrs={
            "driver": self.driver, "fn_name": self.fn_name, "fn_ret_type": Opaque("return type"), "fn_args": self.args, "fn_sret_arg": None,
            "fn_blocks_states": VDict([(name_rope(self.names[b]), self.states[b]) for b in blocks]), "var_tracker": self.vt, "pred_tracker": self.tracker,
            "inv_grammars": VDict([]), "ps_grammar": Opaque("ps_grammar"), "loops": VList([One(l) for l in loops]), "uninterp_fns": self.uninterp,
            "primitive_var_types": type_table("primitive"), "pointer_var_types": type_table("pointer")})
        ctx.scratch["world"] = self
        ctx.scratch["events"] = ()

    def regs(self, b="block"):
        return self.states[b].was["regs"]

    def mem(self, b="block"):
        return self.states[b].was["mem"]


# ---- LLVM values ------------------------------------------------------------------
def typeref(ptr):
    return Opaque("typeref", {"is_pointer": ptr})


def named(it, nm, ptr=False):
    """an argument or the result of an instruction"""
    t = z3.String(nm)
    it.ctx.add(wf_name(t))
    o = Opaque("value", {"name": name_rope(t), "type": typeref(ptr)}, z3.Const("value_" + nm, Obj), (ValueRef,))
    o.t = t
    return o


def constant(it, nm):
    return Opaque("value", {"name": "", "type": typeref(False)}, z3.Const("constant_" + nm, Obj), (ValueRef,))


def operand(it, nm):
    """a register or a constant"""
    return named(it, nm) if it.ctx.choose(2) == 0 else constant(it, nm)


CVAL, CTY = z3.Function("constval", Obj, Val), z3.Function("constty", Obj, Ty)


def op_value(w, o, b="block"):
    """value of an operand that is no pointer"""
    if hasattr(o, "t"):
        return z3.Select(w.regs(b)[0], o.t)
    return CVAL(o.id)


def op_type(o):
    return TYV(o.t) if hasattr(o, "t") else CTY(o.id)


def mem_value(w, o, b="block"):
    return z3.Select(w.mem(b)[0], o.t)


def known(w, o, b="block"):
    """the operand has a value"""
    if not hasattr(o, "t"):
        return z3.BoolVal(True)
    ptr = o.attrs["type"].attrs["is_pointer"]
    return z3.Select((w.mem(b) if ptr else w.regs(b))[1], o.t)


def instr(it, nm, ops, ptr=False, text=None, **attrs):
    o = named(it, nm, ptr)
    o.attrs["operands"] = VList([One(x) for x in ops])
    if text is not None:
        o.attrs["__str__"] = text
    o.attrs.update(attrs)
    return o


def contracts():
    c = B.contracts()
    for k in [k for k in c.by_qual if ".frontend.python." in k]:
        del c.by_qual[k]
    c.opaque_attr = None

    def ite(it, a, k):
        # contract of ite (P07)
        cnd, x, y = [it.split(it.getattr(it.split(s.v), "src")) for s in a]
        tx = tyof(x.id) if isinstance(x, VObj) and x.lazy else it.type_term(it.getattr(x, "type"))
        r = it.ctx.fresh(Obj, "ite")
        dc, dx, dy = (dval(it, den_child(it, z), []) for z in (cnd, x, y))
        it.ctx.assume(z3.And(tyof(r) == tx, D(r) == z3.If(bv(dc), dx, dy)))
        return object_of_type(it, tx, r)
    c.by_qual["metalift.ir.ite"] = ite

    def read_operand(it, a, k):
        # contract of State.read_operand for constants (the unit of that name)
        o = it.split(a[1].v if len(a) > 1 else k["op"])
        if not isinstance(o, Opaque):
            it.unsupported("not an operand")
        if o.attrs["name"] != "":
            return it.run_func(it.called, a, k)
        x = z3.Function("constsrc", Obj, Obj)(o.id)
        it.ctx.assume(z3.And(D(x) == CVAL(o.id), tyof(x) == CTY(o.id), z3.Or(CTY(o.id) == Ty.TInt, CTY(o.id) == Ty.TBool), typing_fact(x)))
        return object_of_type(it, CTY(o.id), x)
    c.by_qual[Q + "State.read_operand"] = read_operand

    def fresh_name(it, a, k):
        t = it.ctx.fresh(S, "fresh_name")
        it.ctx.add(wf_name(t))
        it.ctx.assume(FRESHN(t))
        event(it, "fresh", t.decl().name())
        return name_rope(t)
    c.by_qual[Q + "Driver.fresh_name"] = fresh_name

    def expr_eq(it, a, k):
        # an expression equal to another one denotes the same (P01)
        x, y = it.split(a[0].v), it.split(a[1].v)
        if x is y:
            return True
        if not (isinstance(x, VObj) and isinstance(y, VObj) and x.id is not None and y.id is not None):
            it.unsupported("equality of expressions")
        if x.id.eq(y.id):
            return True
        t = B.EQO(x.id, y.id)
        it.ctx.assume(z3.Implies(t, z3.And(D(x.id) == D(y.id), tyof(x.id) == tyof(y.id))))
        return Sym(t)
    c.by_qual["metalift.ir.Expr.__eq__"] = expr_eq
    return c


UNITS = {}


def unit(name):
    def deco(body):
        def run_(ctx):
            it = I.Interp(ctx, contracts())
            ctx.explore(lambda: body(it))
        UNITS[name] = run_
        return body
    return deco


def run(it, w, f, *args, **kw):
    fn = fl.VCVisitor.__dict__[f]
    return it.run_func(it.vfunc(fn), [One(w.visitor)] + [One(a) for a in args], kw)


# ---- checks -------------------------------------------------------------------------
def same_list(it, l, P, extra=0):
    a = list(it.split(l).items)
    return len(a) >= 1 and list_id(a[0]) is not None and list_id(a[0]).eq(P)


def find_value(it, d, t):
    f, v = it.dict_find(d, name_rope(t))
    return f, v


def check_vars(it, w, b, what, regs=(), mem=(), types=True):
    """the registers and slots of a block: those given have these values (term, value,
    type), the others the ones they had"""
    ctx = it.ctx
    st = w.states[b]
    which = ctx.choose(2)
    attr, (sigma, decl), upd, nm = [("primitive_vars", st.was["regs"], regs, "register"), ("pointer_vars", st.was["mem"], mem, "slot")][which]
    d = it.split(it.getattr(st, attr))
    if not isinstance(d, VDict):
        return ctx.fail(f"{what}: {nm}s are kept in a dictionary", repr(d))
    q = z3.String("some_variable")
    val, dec, ty = z3.Select(sigma, q), z3.Select(decl, q), TYV(q)
    for t, v, y in upd:
        val, dec = z3.If(q == t, v, val), z3.Or(q == t, dec)
    f, v = it.dict_find(d, name_rope(q))
    f = f if z3.is_expr(f) else z3.BoolVal(bool(f))
    ctx.prove(z3.Implies(dec, f), f"{what}: every {nm} that has a value keeps one")
    ctx.prove(z3.Implies(f, dec), f"{what}: no other {nm} gets a value")
    if not ctx.branch(dec):
        return
    o = it.split(I.force(v))
    if not is_irobj(o):
        return ctx.fail(f"{what}: {nm}s have objects as values", repr(o))
    ctx.prove(value_of(it, o) == val, f"{what}: the value of every {nm}")
    for t, v, y in upd:
        if y is not None and ctx.branch(q == t):
            src = it.split(it.getattr(o, "src"))
            st_ = tyof(src.id) if src.lazy else it.type_term(it.getattr(src, "type"))
            if st_ is None:
                return ctx.fail(f"{what}: the type of what is computed", repr(src))
            ctx.prove(st_ == y, f"{what}: the type of what is computed")


def check_known(it, w, b, what, precond=None, asserts=None, returned=False):
    """what is known and what is asserted in a block"""
    ctx = it.ctx
    st = w.states[b]
    for attr, P, want, nm in (("precond", st.was["P"], precond, "known"), ("asserts", st.was["A"], asserts, "asserted")):
        l = it.split(it.getattr(st, attr))
        if not same_list(it, l, P):
            ctx.fail(f"{what}: what was {nm} is kept", repr(l.items[:1]))
            continue
        rest = list(l.items)[1:]
        if want is None:
            ctx.prove(junct(it, rest), f"{what}: nothing more is {nm}")
        else:
            ctx.prove(junct(it, rest) == want, f"{what}: what is {nm}")
    ctx.prove(it.truth_term(it.getattr(st, "has_returned")) == returned, f"{what}: returns or not")


def check_state(it, w, what, regs=(), mem=(), precond=None, asserts=None, returned=False, b="block"):
    if it.ctx.choose(2) == 0:
        check_known(it, w, b, what, precond, asserts, returned)
    else:
        check_vars(it, w, b, what, regs, mem)


def missing(w, *ops):
    return lambda: z3.Or([z3.Not(known(w, o)) for o in ops])


# ---- instructions ---------------------------------------------------------------------
@unit("visit_load_instruction")
def _(it):
    w = World(it)
    ptr = it.ctx.choose(2) == 1
    p = named(it, "address", True)
    o = instr(it, "result", [p], ptr)
    what = "load"
    if attempt(it, what, lambda: run(it, w, "visit_load_instruction", w.block, o), missing(w, p)):
        new = [(o.t, mem_value(w, p), TYV(p.t))]
        check_state(it, w, what, mem=new if ptr else (), regs=() if ptr else new)


@unit("visit_store_instruction")
def _(it):
    w = World(it)
    ptr = it.ctx.choose(2) == 1
    v = named(it, "stored", True) if ptr else operand(it, "stored")
    p = named(it, "address", True)
    o = instr(it, "result", [v, p])
    what = "store"
    if attempt(it, what, lambda: run(it, w, "visit_store_instruction", w.block, o), missing(w, v)):
        check_state(it, w, what, mem=[(p.t, mem_value(w, v) if ptr else op_value(w, v), op_type(v))])


ARITH = {"add": "+", "sub": "-", "mul": "*", "div": "div", "rem": "mod"}


def arith_unit(nm):
    def body(it):
        w = World(it)
        l, r = operand(it, "left"), operand(it, "right")
        o = instr(it, "result", [l, r])
        ok = z3.And(op_type(l) == Ty.TInt, op_type(r) == Ty.TInt)
        if attempt(it, nm, lambda: run(it, w, f"visit_{nm}_instruction", w.block, o), lambda: z3.Or(z3.Not(ok), missing(w, l, r)())):
            it.ctx.prove(ok, f"{nm}: of integers")
            check_state(it, w, nm, regs=[(o.t, den_z3(DApp(ARITH[nm], [One(DLeaf(op_value(w, l))), One(DLeaf(op_value(w, r)))])), Ty.TInt)])
    return body


for _n in ARITH:
    unit(f"visit_{_n}_instruction")(arith_unit(_n))


def cast_unit(nm):
    def body(it):
        w = World(it)
        ptr = nm == "bitcast" and it.ctx.choose(2) == 1
        v = named(it, "operand", True) if ptr else operand(it, "operand")
        o = instr(it, "result", [v], ptr)
        if attempt(it, nm, lambda: run(it, w, f"visit_{nm}_instruction", w.block, o), missing(w, v)):
            new = [(o.t, mem_value(w, v) if ptr else op_value(w, v), op_type(v))]
            check_state(it, w, nm, regs=() if ptr else new, mem=new if ptr else ())
    return body


for _n in ("bitcast", "sext", "trunc"):
    unit(f"visit_{_n}_instruction")(cast_unit(_n))

ICMP = {"eq": "=", "ne": None, "sgt": ">", "sle": "<=", "slt": "<", "ult": "<", "sge": ">=", "ugt": None, "uge": None, "ule": None}


@unit("visit_icmp_instruction")
def _(it):
    w = World(it)
    conds = list(ICMP)
    c = conds[it.ctx.choose(len(conds))]
    l, r = operand(it, "left"), operand(it, "right")
    text = f"  %r = icmp {c} i32 %l, %r"
    o = instr(it, "result", [l, r], text=text)
    ok = z3.And(op_type(l) == Ty.TInt, op_type(r) == Ty.TInt)
    it.ctx.assume(ok)
    what = f"icmp {c}"
    a, b = op_value(w, l), op_value(w, r)
    want = {"eq": a == b, "ne": a != b}
    x, y = Val.ival(a), Val.ival(b)
    want.update({"sgt": x > y, "sle": x <= y, "slt": x < y, "ult": x < y, "sge": x >= y, "ugt": x > y, "uge": x >= y, "ule": x <= y})
    if attempt(it, what, lambda: run(it, w, "visit_icmp_instruction", w.block, o), lambda: z3.BoolVal(True) if c in ("ugt", "uge", "ule") else missing(w, l, r)()):
        check_state(it, w, what, regs=[(o.t, B_(want[c]), Ty.TBool)])


@unit("visit_br_instruction")
def _(it):
    ctx = it.ctx
    w = World(it, ("block", "then", "else"))
    cond = ctx.choose(2) == 0
    c = operand(it, "cond")
    target = lambda b: Opaque("value", {"name": name_rope(w.names[b]), "type": typeref(False)}, z3.Const("block_" + b, Obj), (ValueRef,))
    o = instr(it, "result", [c, target("else"), target("then")] if cond else [target("then")])
    what = "branch" if cond else "jump"
    if attempt(it, what, lambda: run(it, w, "visit_br_instruction", w.block, o), lambda: z3.Or(op_type(c) != Ty.TBool, missing(w, c)())):
        v = bv(op_value(w, c))
        b = ["block", "then", "else"][ctx.choose(3)]
        check_state(it, w, f"{what}, in the {b} block", precond={"block": None, "then": v, "else": z3.Not(v)}[b] if cond else None, b=b)


@unit("visit_alloca_instruction")
def _(it):
    w = World(it)
    types = {"i32": Ty.TInt, "i1": Ty.TBool, "i8": Ty.TBool, "%struct.list*": LIST, "%struct.set*": SET}
    t = list(types)[it.ctx.choose(len(types))]
    o = instr(it, "result", [constant(it, "one")], True, text=f"  %x = alloca {t}" + [", align 4", ""][it.ctx.choose(2)])
    what = f"alloca {t}"
    if attempt(it, what, lambda: run(it, w, "visit_alloca_instruction", w.block, o)):
        d = it.split(it.getattr(w.state, "pointer_vars"))
        f, v = it.dict_find(d, name_rope(o.t))
        if f is not True and not it.ctx.branch(f):
            return it.ctx.fail(f"{what}: the slot has a value")
        # any value will do: there is none before the first store
        check_state(it, w, what, mem=[(o.t, value_of(it, it.split(I.force(v))), types[t])])


@unit("visit_instruction")
def _(it):
    ctx = it.ctx
    w = World(it)
    known_ = {"alloca": "alloca", "load": "load", "store": "store", "add": "add", "sub": "sub", "mul": "mul", "sdiv": "div", "srem": "rem", "bitcast": "bitcast",
              "sext": "sext", "icmp": "icmp", "br": "br", "ret": "ret", "call": "call", "trunc": "trunc"}
    ops = list(known_) + ["udiv", "zext", "phi", "getelementptr", "select", "switch", "and", "or", "xor", "shl", "fadd", "unreachable", "invoke"]
    op = ops[ctx.choose(len(ops))]
    o = instr(it, "result", [], opcode=op)
    seen = []
    for k in set(known_.values()):
        it.con.by_qual[f"{Q}VCVisitor.visit_{k}_instruction"] = (lambda k: lambda it, a, kw: seen.append((k, [it.split(s.v) for s in a] + [it.split(v) for v in kw.values()])))(k)
    what = f"instruction {op}"
    if attempt(it, what, lambda: run(it, w, "visit_instruction", w.block, o), lambda: z3.BoolVal(op not in known_)):
        ok = len(seen) == 1 and seen[0][0] == known_.get(op) and seen[0][1][0] is w.visitor and vkey(seen[0][1][1]) == vkey(w.block) and seen[0][1][2] is o
        ctx.prove(z3.BoolVal(ok), f"{what}: is visited as what it is, in its block", repr(seen))


@unit("visit_instructions")
def _(it):
    ctx = it.ctx
    w = World(it)
    n = ctx.choose(4)
    os_ = [instr(it, f"result{i}", []) for i in range(n)]
    seen = []
    it.con.by_qual[Q + "VCVisitor.visit_instruction"] = lambda it, a, kw: seen.append([it.split(s.v) for s in a])
    what = "instructions of a block"
    if attempt(it, what, lambda: run(it, w, "visit_instructions", w.block, VList([One(o) for o in os_]))):
        ctx.prove(z3.BoolVal(len(seen) == n and all(x[0] is w.visitor and vkey(x[1]) == vkey(w.block) and x[2] is o for x, o in zip(seen, os_))), f"{what}: each once, in order")


CONSTS = {"i32 7": (Ty.TInt, I_(7)), "i32 -12": (Ty.TInt, I_(-12)), "i32 0": (Ty.TInt, I_(0)), "i64 5": (Ty.TInt, I_(5)), "i1 true": (Ty.TBool, B_(z3.BoolVal(True))), "i1 false": (Ty.TBool, B_(z3.BoolVal(False)))}


@unit("read_operand[constants, bounded]")
def _(it):
    ctx = it.ctx
    it.con.by_qual.pop(Q + "State.read_operand", None)
    w = World(it)
    texts = list(CONSTS)
    t = texts[ctx.choose(len(texts))]
    o = constant(it, "c")
    o.attrs["__str__"] = t
    r = []
    what = f"constant {t}"
    if attempt(it, what, lambda: r.append(it.run_func(it.vfunc(fl.State.read_operand), [One(w.state), One(o)], {}))):
        v = it.split(r[0])
        if not is_irobj(v):
            return ctx.fail(f"{what}: gives an object", repr(v))
        ctx.prove(value_of(it, v) == CONSTS[t][1], f"{what}: its value")
        ctx.prove(z3.BoolVal(it.isinstance_(v, {Ty.TInt: ir.Int, Ty.TBool: ir.Bool}[CONSTS[t][0]]) is True), f"{what}: its class")


# ---- returns ---------------------------------------------------------------------------
@unit("visit_ret_instruction")
def _(it):
    ctx = it.ctx
    w = World(it)
    kind = ["value", "pointer", "sret", "void"][ctx.choose(4)]
    ops = {"value": lambda: [operand(it, "returned")], "pointer": lambda: [named(it, "returned", True)]}.get(kind, list)()
    o = instr(it, "result", ops)
    if kind == "sret":
        t = z3.String("returned")
        ctx.add(wf_name(t))
        s = VObj([ir.List], attrs={"src": VObj([ir.Var], attrs={"args": VList([One(name_rope(t))]), "type": SType(LIST)}), "containedT": ir.Int})
        ctx.jset(w.visitor.attrs, "fn_sret_arg", s)
        kn, val = z3.Select(w.mem()[1], t), z3.Select(w.mem()[0], t)
    elif ops:
        kn, val = known(w, ops[0]), (mem_value if kind == "pointer" else op_value)(w, ops[0])
    ps = z3.String("ps_name")
    ctx.add(wf_name(ps))
    pred = VObj([fl.Predicate], z3.Const("ps", Obj), {"name": name_rope(ps)})
    seen = []

    def postcondition(it, a, k):
        seen.append(([it.split(s.v) for s in a], k))
        it.dict_set(it.split(it.getattr(it.split(a[0].v), "predicates")), it.split(a[1].v), pred)
        return pred
    it.con.by_qual[Q + "PredicateTracker.postcondition"] = postcondition
    what = f"return ({kind})"
    if not attempt(it, what, lambda: run(it, w, "visit_ret_instruction", w.block, o), lambda: z3.BoolVal(True) if kind == "void" else z3.Not(kn)):
        return
    if kind == "void":
        return ctx.fail(f"{what}: is refused")
    ok = len(seen) == 1 and seen[0][0][0] is w.tracker and vkey(seen[0][0][1]) == vkey(w.fn_name) and seen[0][0][3] is w.args and seen[0][0][5] is w.visitor.attrs["ps_grammar"]
    ctx.prove(z3.BoolVal(ok), f"{what}: the postcondition of this function and its arguments, in the grammar for it", repr(seen))
    outs = it.seq(seen[0][0][2]) if ok else []
    if len(outs) != 1 or not isinstance(outs[0], One):
        return ctx.fail(f"{what}: the postcondition is about one result", repr(outs))
    src = it.split(it.getattr(it.split(outs[0].v), "src"))
    if not isinstance(src, VObj) or src.lazy or src.cls is not ir.Var:
        return ctx.fail(f"{what}: the result in the postcondition is a variable", repr(src))
    ctx.prove(it.str_term(rope(it.split(it.seq(it.getattr(src, "args"))[0].v))) == z3.Concat(z3.String("fn_name"), z3.StringVal("_rv")), f"{what}: named after the function")
    junct(it, it.split(it.getattr(w.state, "asserts")).items[1:])
    calls = [v[1] for k, v in ctx.scratch.items() if isinstance(k, tuple) and k[0] == "call"]
    if len(calls) != 1:
        return ctx.fail(f"{what}: asserts the postcondition", repr(calls))
    m = w.args.items[0]
    want = DApp(ps, [Many(m.n, m.idx, DLeaf(D(m.val.attrs["src"].id))), One(DLeaf(val))])
    den_eq(it, den_child(it, calls[0]), want, f"{what}: the postcondition of the initial arguments and the value returned")
    pc = it.split(it.getattr(w.driver, "postconditions")).items
    ctx.prove(z3.BoolVal(len(pc) == 1 and list_id(pc[0]) is not None and list_id(pc[0]).eq(w.PC)), f"{what}: what is assumed in other functions is left alone")
    check_state(it, w, what, asserts=z3.Implies(CONJ(w.state.was["P"]), truth_of(it, calls[0])), returned=True)


# ---- calls ------------------------------------------------------------------------------
VEC = "std::__1::vector<int, std::__1::allocator<int> >"
A_ = lambda f, *xs: DApp(f, [One(DLeaf(x)) for x in xs])


def call_unit(fn, dem, sig, ret, want, effect=None):
    """a call of a function with a model: what it gives and what it changes"""
    def body(it):
        ctx = it.ctx
        w = World(it)
        it.con.by_qual[Q + "get_fn_name_from_call_instruction"] = lambda it, a, k: fn
        it.con.by_qual[Q + "get_raw_fn_name_from_call_instruction"] = lambda it, a, k: "mangled"
        it.con.by_qual[Q + "get_full_demangled_name"] = lambda it, a, k: dem
        ops = [named(it, f"operand{i}", True) if t in (LIST, SET) else operand(it, f"operand{i}") for i, t in enumerate(sig)]
        for x, t in zip(ops, sig):
            ctx.assume(op_type(x) == t)
        for i, x in enumerate(ops):
            for y in ops[:i]:
                if hasattr(x, "t") and hasattr(y, "t") and x.attrs["type"].attrs["is_pointer"] != y.attrs["type"].attrs["is_pointer"]:
                    ctx.add(x.t != y.t)
        # no register is called like a slot
        for x in ops:
            if hasattr(x, "t"):
                ctx.assume(z3.Not(z3.Select((w.regs() if x.attrs["type"].attrs["is_pointer"] else w.mem())[1], x.t)))
        ptr = ret in (LIST, SET)
        o = instr(it, "result", ops + [Opaque("function", {"name": "mangled"})], ptr)
        if ret is None or ctx.choose(3) == 0:
            o.attrs["name"] = ""
        for x in ops:
            if hasattr(x, "t"):
                ctx.add(o.t != x.t)
        what = f"call of {fn}"
        if not attempt(it, what, lambda: run(it, w, "visit_call_instruction", w.block, o), missing(w, *ops)):
            return
        vals = [mem_value(w, x) if t in (LIST, SET) else op_value(w, x) for x, t in zip(ops, sig)]
        r = [(o.t, den_z3(want(*vals)), ret)] if ret is not None and o.attrs["name"] != "" else []
        m = [(ops[0].t, den_z3(effect(*vals)), LIST)] if effect is not None else []
        check_state(it, w, what, regs=[] if ptr else r, mem=m + (r if ptr else []))
    unit(f"visit_call_instruction[{fn}]")(body)


_i, _l, _s = Ty.TInt, LIST, SET
single = lambda e: DApp("set-singleton", [One(DLeaf(e))])
call_unit("newList", "newList()", [], _l, lambda: DApp("list_empty", []))
call_unit("listLength", "listLength(list*)", [_l], _i, lambda l: A_("list_length", l))
call_unit("listGet", "listGet(list*, int)", [_l, _i], _i, lambda l, i: A_("list_get", l, i))
call_unit("listAppend", "listAppend(list*, int)", [_l, _i], _l, lambda l, x: A_("list_append", l, x))
call_unit("set_create", "set_create", [], _s, lambda: DApp("set-create", []))
call_unit("set_add", "set_add", [_s, _i], _s, lambda s, x: A_("set-insert", x, s))
call_unit("set_remove", "set_remove", [_s, _i], _s, lambda s, x: DApp("set-minus", [One(DLeaf(s)), One(single(x))]))
call_unit("set_contains", "set_contains", [_s, _i], _i, lambda s, x: DLeaf(z3.If(bv(den_z3(A_("set-member", x, s))), I_(1), I_(0))))
call_unit("integer_sqrt", "integer_sqrt(int)", [_i], _i, lambda x: A_("integer_sqrt", x))
call_unit("integer_exp", "integer_exp(int)", [_i], _i, lambda x: A_("integer_exp", x))
call_unit("size", VEC + "::size() const", [_l], _i, lambda l: A_("list_length", l))
call_unit("operator[]", VEC + "::operator[](unsigned long)", [_l, _i], _i, lambda l, i: A_("list_get", l, i))
call_unit("push_back", VEC + "::push_back(int const&)", [_l, _i], None, None, lambda l, x: A_("list_append", l, x))


@unit("visit_call_instruction[vector]")
def _(it):
    ctx = it.ctx
    w = World(it)
    for f, v in (("get_fn_name_from_call_instruction", "vector"), ("get_raw_fn_name_from_call_instruction", "mangled"), ("get_full_demangled_name", VEC + "::vector()")):
        it.con.by_qual[Q + f] = (lambda v: lambda it, a, k: v)(v)
    p = named(it, "operand0", True)
    ctx.assume(z3.Not(z3.Select(w.regs()[1], p.t)))
    o = instr(it, "result", [p, Opaque("function", {"name": "mangled"})])
    o.attrs["name"] = ""
    what = "constructor of a vector"
    if attempt(it, what, lambda: run(it, w, "visit_call_instruction", w.block, o), missing(w, p)):
        check_state(it, w, what, mem=[(p.t, den_z3(DApp("list_empty", [])), LIST)])


@unit("visit_call_instruction[uninterpreted, unknown]")
def _(it):
    ctx = it.ctx
    w = World(it)
    combo = ctx.choose(5)
    fn = "some_fn" if combo < 4 else "integer-sqrt-noerr"
    it.con.by_qual[Q + "get_fn_name_from_call_instruction"] = lambda it, a, k: fn
    rt, ty = [("i32", Ty.TInt), ("i1", Ty.TBool), ("%struct.list*", LIST)][combo % 3]
    ops = [operand(it, "operand0")] if combo == 1 else [named(it, "operand0"), named(it, "operand1", True), constant(it, "operand2")]
    o = instr(it, "result", ops + [Opaque("function", {"name": "mangled"})])
    o.attrs["type"] = Opaque("typeref", {"is_pointer": ty.eq(LIST), "__str__": rt})
    what = "call of an uninterpreted function"
    j = z3.Int("position")
    nu, un = z3.Int("nuninterp"), z3.Function("uninterp", z3.IntSort(), S)
    listed = z3.BoolVal(True)
    if fn == "some_fn":
        if combo < 3:
            ctx.add(z3.And(j >= 0, j < nu, un(j) == z3.StringVal(fn)))
        else:
            ctx.add_univ(nu, w.uninterp.items[0].idx, un(w.uninterp.items[0].idx) != z3.StringVal(fn))
            listed = z3.BoolVal(False)
            what = "call of an unknown function"
    if not attempt(it, what, lambda: run(it, w, "visit_call_instruction", w.block, o), missing(w, *ops)):
        return
    ctx.instantiate(nu, j)
    if z3.is_false(listed):
        return check_state(it, w, what)
    vals = [mem_value(w, x) if x.attrs["type"].attrs["is_pointer"] else op_value(w, x) for x in ops]
    r = [(o.t, den_z3(A_(fn, *vals)), ty)]
    check_state(it, w, what, regs=[] if ty.eq(LIST) else r, mem=r if ty.eq(LIST) else [])


# ---- predicates -------------------------------------------------------------------------
@unit("Predicate.call")
def _(it):
    ctx = it.ctx
    w = World(it)
    n = z3.Int("npredargs")
    ctx.add(n >= 0)
    t, args = var_objects(it, n, "predarg")
    seen = []
    lists = [VList([]) for _ in range(3)]

    def grammar(it, a, k):
        seen.append(([it.split(x.v) for x in a], k))
        return None
    g = SpecFn(grammar) if ctx.choose(2) else None
    p = VObj([fl.Predicate], attrs={"args": VList([args]), "name": name_rope(z3.String("predname")), "grammar": g, "writes": lists[0], "reads": lists[1], "in_scope": lists[2]})
    r = []
    (rs, rd), (ms, md) = w.regs(), w.mem()

    def absent():
        j = z3.Int("j_missing")
        return z3.Exists([j], z3.And(j >= 0, j < n, z3.Not(z3.Or(z3.Select(rd, t(j)), z3.Select(md, t(j))))))
    if attempt(it, "predicate", lambda: r.append(it.run_func(it.vfunc(fl.Predicate.call), [One(p), One(w.state)], {})), absent):
        def want(i, x):
            # no register is called like a slot
            ctx.assume(z3.Not(z3.And(z3.Select(rd, t(i)), z3.Select(md, t(i)))))
            ctx.prove(dval(it, den_child(it, x), []) == z3.If(z3.Select(rd, t(i)), z3.Select(rs, t(i)), z3.Select(ms, t(i))), "predicate: of the values the variables have")
        is_call_of(it, it.split(r[0]), z3.String("predname"), n, want, "predicate")


@unit("Predicate.gen_synth")
def _(it):
    ctx = it.ctx
    ctx.scratch["events"] = ()
    n = z3.Int("npredargs")
    ctx.add(n >= 0)
    t, args = var_objects(it, n, "predarg")
    W, R, N = (VList([]) for _ in range(3))
    relaxed = Sym(z3.Bool("relaxed"))
    body = bool_of(it, z3.Const("grammar_body", Obj), z3.Const("grammar_truth", BOOL))
    seen = []

    def grammar(it, a, k):
        seen.append([it.split(x.v) for x in a] + [it.split(x) for x in k.values()])
        return body
    has = ctx.choose(2) == 1
    p = VObj([fl.Predicate], attrs={"args": VList([args]), "name": name_rope(z3.String("predname")), "writes": W, "reads": R, "in_scope": N, "grammar": SpecFn(grammar) if has else None})
    r = []
    what = "function to synthesize"
    if not attempt(it, what, lambda: r.append(it.run_func(it.vfunc(fl.Predicate.gen_synth), [One(p), One(relaxed)], {})), lambda: z3.BoolVal(not has)):
        return
    if not has:
        return ctx.fail(f"{what}: not without a grammar")
    ctx.prove(z3.BoolVal(len(seen) == 1 and len(seen[0]) == 4 and all(x is y for x, y in zip(seen[0], (W, R, N))) and seen[0][3].t.eq(relaxed.t)), f"{what}: the grammar is given the variables written, read and in scope")
    s = it.split(r[0])
    if not isinstance(s, VObj) or s.cls is not ir.Synth:
        return ctx.fail(f"{what}: a Synth", repr(s))
    segs = it.seq(it.getattr(s, "args"))
    ok = len(segs) == 3 and isinstance(segs[0], One) and isinstance(segs[1], One) and isinstance(segs[2], Many) and segs[2].cond is None and segs[2].n.eq(n)
    if not ok:
        return ctx.fail(f"{what}: name, body and arguments", repr(segs))
    ctx.prove(it.str_term(rope(it.split(segs[0].v))) == z3.String("predname"), f"{what}: its name")
    b = it.split(segs[1].v)
    ctx.prove(z3.BoolVal(isinstance(b, VObj) and b.id is not None and b.id.eq(body.attrs["src"].id)), f"{what}: its body is what the grammar gives")
    i = z3.Int("some_argument")
    ctx.assume(z3.And(i >= 0, i < n))
    x = it.split(vsubst(segs[2].val, [(segs[2].idx, i)]))
    ctx.prove(it.str_term(rope(it.split(it.seq(it.getattr(x, "args"))[0].v))) == t(i), f"{what}: its arguments are those of the predicate")


def object_sets(it, outer):
    """ObjectSet by contract: differences are some of the objects"""
    new = lambda l: VObj([fu.ObjectSet], attrs={"objs": VList(l)})
    it.con.by_qual["metalift.frontend.utils.ObjectSet.__sub__"] = lambda it, a, k: new([outer])
    it.con.by_qual["metalift.frontend.utils.ObjectSet.__init__"] = lambda it, a, k: None
    it.con.by_qual["metalift.frontend.utils.ObjectSet.__iter__"] = lambda it, a, k: VIter(list(it.seq(it.getattr(it.split(a[0].v), "objs"))))


@unit("PredicateTracker.invariant")
def _(it):
    ctx = it.ctx
    ctx.scratch["events"] = ()
    known_ = ctx.choose(2) == 1
    nm = z3.String("inv_name")
    old = VObj([fl.Predicate], attrs={"name": name_rope(nm)})
    d = VDict([(name_rope(nm), old)] if known_ else [])
    t = VObj([fl.PredicateTracker], attrs={"predicates": d, "types": VDict([])})
    n, x = z3.Int("nargs"), z3.Int("nouter")
    ctx.add(z3.And(n >= 0, x >= 0))
    _, args = var_objects(it, n, "argname")
    on, outer = var_objects(it, x, "outername")
    la, lw, lr, ls, g = VList([args]), VList([]), VList([]), VList([]), Opaque("grammar")
    object_sets(it, outer)
    r = []
    what = "invariant predicate"
    if not attempt(it, what, lambda: r.append(it.run_func(it.vfunc(fl.PredicateTracker.invariant), [One(y) for y in (t, name_rope(nm), la, lw, lr, ls, g)], {}))):
        return
    p = it.split(r[0])
    if known_:
        return ctx.prove(z3.BoolVal(p is old), f"{what}: one per loop")
    ff, v = it.dict_find(d, name_rope(nm))
    ctx.prove(z3.BoolVal(ff is True and it.split(I.force(v)) is p), f"{what}: is remembered")
    ctx.prove(it.str_term(rope(it.split(it.getattr(p, "name")))) == nm, f"{what}: its name")
    segs = it.seq(it.getattr(p, "args"))
    ok = len(segs) == 2 and all(isinstance(s, Many) and s.cond is None for s in segs) and segs[0].n.eq(n) and segs[0].val is args.val and segs[1].n.eq(x)
    ctx.prove(z3.BoolVal(ok), f"{what}: of the arguments, then the other variables in scope", repr(segs))
    ctx.prove(z3.BoolVal(len(it.seq(la)) == 1), f"{what}: the arguments given are left alone")
    same = lambda a, l: it.split(it.getattr(p, a)) is l
    ctx.prove(z3.BoolVal(same("writes", lw) and same("reads", lr) and same("in_scope", ls) and same("grammar", g)), f"{what}: what the grammar is given")


@unit("PredicateTracker.postcondition")
def _(it):
    ctx = it.ctx
    known_ = ctx.choose(2) == 1
    fn = z3.String("fn_name")
    old = VObj([fl.Predicate], attrs={"name": name_rope(z3.String("known_name"))})
    d = VDict([(name_rope(fn), old)] if known_ else [])
    t = VObj([fl.PredicateTracker], attrs={"predicates": d, "types": VDict([])})
    n = z3.Int("nargs")
    ctx.add(n >= 0)
    _, args = var_objects(it, n, "argname")
    out = VObj([ir.Int], attrs={"src": new_obj(it, z3.Const("result", Obj))})
    ins, outs, scope, g = VList([args]), VList([One(out)]), VList([]), Opaque("grammar")
    r = []
    what = "postcondition predicate"
    if not attempt(it, what, lambda: r.append(it.run_func(it.vfunc(fl.PredicateTracker.postcondition), [One(y) for y in (t, name_rope(fn), outs, ins, scope, g)], {}))):
        return
    p = it.split(r[0])
    if known_:
        return ctx.prove(z3.BoolVal(p is old), f"{what}: one per function")
    ff, v = it.dict_find(d, name_rope(fn))
    ctx.prove(z3.BoolVal(ff is True and it.split(I.force(v)) is p), f"{what}: is remembered")
    ctx.prove(it.str_term(rope(it.split(it.getattr(p, "name")))) == z3.Concat(fn, z3.StringVal("_ps")), f"{what}: its name")
    segs = it.seq(it.getattr(p, "args"))
    ok = len(segs) == 2 and isinstance(segs[0], Many) and segs[0].cond is None and segs[0].n.eq(n) and segs[0].val is args.val and isinstance(segs[1], One) and it.split(segs[1].v) is out
    ctx.prove(z3.BoolVal(ok), f"{what}: of the arguments of the function, then its result", repr(segs))
    same = lambda a, l: it.split(it.getattr(p, a)) is l
    ctx.prove(z3.BoolVal(same("writes", outs) and same("reads", ins) and same("in_scope", scope) and same("grammar", g)), f"{what}: what the grammar is given")
    ctx.prove(z3.BoolVal(len(it.seq(ins)) == 1 and len(it.seq(outs)) == 1), f"{what}: the lists given are left alone")


@unit("fresh_name")
def _(it):
    ctx = it.ctx
    q = Q + "Driver.fresh_name"
    it.con.by_qual.pop(q, None)
    it.con.whiles[q] = FreshInv()
    decl = z3.Const("known", Dec)
    vt = VObj([an.VariableTracker], attrs={"var_to_type": VDict([], base=cell_base(Cell(z3.Const("sigma", Sig), decl, "entry"))), "groups": VDict([]), "existing": VDict([])})
    d = VObj([fl.Driver], attrs={"var_tracker": vt})
    r = []
    if attempt(it, "fresh name", lambda: r.append(it.run_func(it.vfunc(fl.Driver.fresh_name), [One(d), One(name_rope(z3.String("name")))], {}))):
        t = it.str_term(rope(it.split(r[0])))
        dpos(it, decl, t)
        ctx.instantiate(B.NDECL(decl), B.DECLPOS(decl, t))
        ctx.prove(z3.Not(z3.Select(decl, t)), "fresh name: no variable has it")


# ---- blocks ------------------------------------------------------------------------------
def block_ref(it, w, b, preds=(), instrs=None):
    return Opaque("block", {"name": name_rope(w.names[b]), "preds": VList([One(p) for p in preds]), "instructions": instrs if instrs is not None else VList([])}, z3.Const("blockref_" + b, Obj))


def as_before(it, w, b, what):
    """the state of block b has not changed"""
    check_state(it, w, what, b=b)


@unit("merge_states[one predecessor]")
def _(it):
    ctx = it.ctx
    w = World(it, ("block", "pred"))
    # nothing is known of the variables yet
    for a in ("primitive_vars", "pointer_vars"):
        ctx.jset(w.state.attrs, a, VDict([]))
    b = block_ref(it, w, "block", [block_ref(it, w, "pred")])
    what = "block with one predecessor"
    if not attempt(it, what, lambda: run(it, w, "merge_states", b)):
        return
    p = w.states["pred"]
    k = ctx.choose(3)
    if k == 0:
        return as_before(it, w, "pred", f"{what}: the predecessor")
    if k == 1:
        shared = [a for a in ("precond", "primitive_vars", "pointer_vars", "asserts") if it.split(it.getattr(w.state, a)) is it.split(it.getattr(p, a))]
        ctx.prove(z3.BoolVal(not shared), f"{what}: shares nothing with it", repr(shared))
        return check_known(it, w, "block", what, precond=CONJ(p.was["P"]))
    w.state.was = dict(w.state.was, regs=p.was["regs"], mem=p.was["mem"])
    check_vars(it, w, "block", what)


@unit("merge_states[no predecessor]")
def _(it):
    w = World(it)
    what = "block without predecessors"
    if attempt(it, what, lambda: run(it, w, "merge_states", block_ref(it, w, "block", []))):
        check_state(it, w, what)


def merge_unit(n):
    def body(it):
        ctx = it.ctx
        preds = [f"pred{i}" for i in range(n)]
        w = World(it, ("block",) + tuple(preds))
        x, y = z3.String("x"), z3.String("y")
        for t in (x, y):
            ctx.add(wf_name(t))
            ctx.add(z3.Or([TYV(t) == z for z in EXPTY]))
        ctx.jset(w.state.attrs, "primitive_vars", VDict([]))
        ctx.jset(w.state.attrs, "pointer_vars", VDict([]))
        lacks = ctx.choose(n + 1) - 1
        vals, conds = {x: {}, y: {}}, []
        for i, p in enumerate(preds):
            st = w.states[p]
            # every block is reached, under some condition
            P = st.was["P"]
            ctx.add(argn(P) >= 1)
            conds.append(CONJ(P))
            for t, a in ((x, "primitive_vars"), (y, "pointer_vars")):
                d = VDict([])
                if t is x or i != lacks:
                    e = z3.Const(f"value_{i}_{a}", Obj)
                    ctx.add(tyof(e) == TYV(t))
                    ctx.add(typing_fact(e))
                    it.dict_set(d, name_rope(t), object_of_type(it, TYV(t), e))
                    vals[t][i] = D(e)
                ctx.jset(st.attrs, a, d)
        # no two of them are executed
        for i in range(n):
            for j in range(i):
                ctx.add(z3.Not(z3.And(conds[i], conds[j])))
        b = block_ref(it, w, "block", [block_ref(it, w, p) for p in preds])
        what = f"block with {n} predecessors"
        if not attempt(it, what, lambda: run(it, w, "merge_states", b)):
            return
        if ctx.choose(2) == 0:
            l = it.split(it.getattr(w.state, "precond")).items
            ctx.prove(junct(it, l) == z3.Or(conds), f"{what}: it is reached when one of them is")
            for p in preds:
                for attr, P in (("precond", w.states[p].was["P"]), ("asserts", w.states[p].was["A"])):
                    ll = it.split(it.getattr(w.states[p], attr)).items
                    ctx.prove(z3.BoolVal(len(ll) == 1 and list_id(ll[0]) is not None and list_id(ll[0]).eq(P)), f"{what}: the predecessors keep their {attr}")
            a = it.split(it.getattr(w.state, "asserts")).items
            ctx.prove(z3.BoolVal(len(a) == 1 and list_id(a[0]) is not None and list_id(a[0]).eq(w.state.was["A"])), f"{what}: what is asserted is kept")
            return
        t, a = [(x, "primitive_vars"), (y, "pointer_vars")][ctx.choose(2)]
        f, v = it.dict_find(it.split(it.getattr(w.state, a)), name_rope(t))
        if f is not True and not ctx.branch(f):
            return ctx.fail(f"{what}: a variable that has a value in one of them has a value")
        got = value_of(it, it.split(I.force(v)))
        for i, val in vals[t].items():
            ctx.prove(z3.Implies(conds[i], got == val), f"{what}: a variable has the value it had in the predecessor executed")
    unit(f"merge_states[{n} predecessors, bounded]")(body)


for _n in (2, 3):
    merge_unit(_n)


INV2 = z3.Function("inv2", Obj, Sig, Sig, BOOL)


def both(it, st):
    return tuple(sigma_of(it, it.split(it.getattr(st, a))) for a in ("primitive_vars", "pointer_vars"))


def var_object(it, nm, ty=None):
    """an object made of a variable"""
    t = z3.String(nm)
    it.ctx.add(wf_name(t))
    it.ctx.add(z3.Or([TYV(t) == z for z in EXPTY]))
    v = VObj([ir.Var], attrs={"args": VList([One(name_rope(t))]), "type": SType(TYV(t))})
    o = object_of_type(it, TYV(t), z3.Const("object_" + nm, Obj))
    o.attrs["src"] = v
    o.t = t
    return o


def loop(nm, **kw):
    return VObj([fl.LoopInfo], attrs=dict(header=Opaque("header of " + nm), body=VList([]), exits=VList([]), latches=VList([]), havocs=VSet([]), **kw))


def block_unit(shape):
    nh, npred, nlatch, entry = shape

    def body(it):
        ctx, j = it.ctx, it.ctx.jset
        loops = [loop(f"loop{i}") for i in range(3)]
        w = World(it, loops=loops)
        st = w.state
        order = []
        grammar = ctx.choose(3) if (nh or npred or nlatch) else 0      # none, with and without own arguments
        hr, h1, h2 = (var_object(it, n) for n in ("hav_reg", "hav_mem1", "hav_mem2"))
        ctx.add(z3.Distinct(hr.t, h1.t, h2.t))
        news = []
        mine = {"header": [loops[1]] if nh else [], "pred": ([loops[2], loops[0]])[:npred], "latch": [loops[1], loops[0]][:nlatch]}
        for f, k in (("find_header_loops", "header"), ("find_header_pred_loops", "pred"), ("find_latch_loops", "latch")):
            def find(it, a, kw, k=k):
                if vkey(it.split(a[1].v)) != vkey(w.block):
                    ctx.fail("loops of this block are looked for")
                return VList([One(l) for l in mine[k]])
            it.con.by_qual[Q + "VCVisitor." + f] = find

        def entered(nm):
            def h(it, a, kw):
                order.append((nm, it.split(a[1].v)))
            return h
        for f in ("preprocess", "merge_states"):
            it.con.by_qual[Q + "VCVisitor." + f] = entered(f)

        def havocs(it, a, kw):
            order.append(("havocs", it.split(a[2].v)))
            return vtuple([VList([One(hr)]), VList([One(h1), One(h2)])])
        it.con.by_qual[Q + "VCVisitor.get_havocs"] = havocs

        def new_value(it, a, kw):
            # contract of new_value (the unit of that name)
            h = it.split(a[1].v)
            e = ctx.fresh(Obj, "any_value")
            ctx.assume(z3.And(tyof(e) == TYV(h.t), typing_fact(e)))
            news.append((h, e))
            return object_of_type(it, TYV(h.t), e)
        it.con.by_qual[Q + "VCVisitor.new_value"] = new_value
        func = Opaque("inv grammar function")
        over = VList([One(var_object(it, "own_argument"))])
        scope = VList([Many(z3.Int("nscope"), it.idx_for(z3.Int("nscope")), name_rope(z3.Function("scopename", z3.IntSort(), S)(it.idx_for(z3.Int("nscope")))))])
        ctx.add(z3.Int("nscope") >= 0)
        ig = None if grammar == 0 else Opaque("inv grammar", {"func": func, "in_scope_var_names": scope, "override_args": over if grammar == 2 else VList([])})

        def get_ig(it, a, kw):
            order.append(("grammar", it.split(a[1].v)))
            return ig
        it.con.by_qual[Q + "VCVisitor.get_inv_grammar"] = get_ig
        un = z3.Int("nunion")
        ctx.add(un >= 0)
        _, union = var_objects(it, un, "unionname")
        object_sets(it, union)
        it.con.by_qual["metalift.frontend.utils.ObjectSet.__init__"] = lambda it, a, k: j(it.split(a[0].v).attrs, "of", it.split(a[1].v))

        def plus(it, a, kw):
            x, y = (it.split(it.getattr(it.split(s.v), "of")) for s in a)
            order.append(("union", x, y))
            return VObj([fu.ObjectSet], attrs={"objs": VList([union])})
        it.con.by_qual["metalift.frontend.utils.ObjectSet.__add__"] = plus

        def invariant(it, a, kw):
            v = dict(zip(("inv_name", "args", "writes", "reads", "in_scope", "grammar"), [it.split(s.v) for s in a[1:]]))
            v.update({k: it.split(x) for k, x in kw.items()})
            v["unions"] = [e for e in order if e[0] == "union"]
            order.append(("invariant", v))
            return VObj([fl.Predicate], z3.Function("predicate_named", S, Obj)(it.str_term(rope(v["inv_name"]))), {"name": v["inv_name"]})
        it.con.by_qual[Q + "PredicateTracker.invariant"] = invariant

        def pcall(it, a, kw):
            # contract of Predicate.call (the unit of that name)
            p, s = it.split(a[0].v), it.split(a[1].v)
            if s is not st:
                ctx.fail("an invariant is about the variables of this block", repr(s))
            rs, ms = both(it, st)
            order.append(("holds", p.id, rs, ms))
            return bool_of(it, ctx.fresh(Obj, "holds"), INV2(p.id, rs, ms))
        it.con.by_qual[Q + "Predicate.call"] = pcall
        NQ = z3.Const("asserts_made", Obj)

        def visit(it, a, kw):
            # the instructions change the variables and assert something
            ctx.prove(z3.BoolVal(vkey(it.split(a[1].v)) == vkey(w.block) and it.split(a[2].v) is b.attrs["instructions"]), "block: its instructions are visited in it")
            pl, al = (it.split(it.getattr(st, x)) for x in ("precond", "asserts"))
            order.append(("visit", junct(it, pl.items), both(it, st), junct(it, list(al.items)[1:])))
            j(al, "items", list(al.items) + [cond_list(it, NQ)])
            for attr in ("primitive_vars", "pointer_vars"):
                d, c = slots("after_" + attr)
                j(st.attrs, attr, d)
        it.con.by_qual[Q + "VCVisitor.visit_instructions"] = visit
        b = block_ref(it, w, "block", [] if entry else [block_ref(it, World.__new__(World), "p")] if False else [Opaque("pred")])
        if entry:
            b.attrs["preds"] = VList([])
        what = "block"
        if not attempt(it, what, lambda: run(it, w, "visit_llvm_block", b)):
            return
        want = "preprocess" if entry else "merge_states"
        ctx.prove(z3.BoolVal(bool(order) and order[0] == (want, b) and sum(e[0] in ("preprocess", "merge_states") for e in order) == 1), f"{what}: starts with what is known where it is entered", repr(order[:2]))
        vis = [e for e in order if e[0] == "visit"]
        if len(vis) != 1:
            return ctx.fail(f"{what}: its instructions are visited once", repr(order))
        pre_at, (r1, m1), newa = vis[0][1:]
        P = CONJ(st.was["P"])
        nm = lambda l: z3.Concat(z3.String("fn_name"), z3.StringVal(f"_inv{loops.index(l)}"))
        pid = lambda l: z3.Function("predicate_named", S, Obj)(nm(l))
        ctx.prove(newa, f"{what}: nothing is asserted before its instructions")
        known_ = P
        q = z3.String("some_variable")
        (r0, _), (m0, _) = w.regs(), w.mem()
        if nh:
            ctx.prove(z3.BoolVal(len(news) == 3 and {id(h) for h, e in news} == {id(h) for h in (hr, h1, h2)}), f"{what}: every variable the loop changes gets a new value", repr(news))
            nv = {id(h): D(e) for h, e in news}
            if len(nv) == 3:
                r0 = z3.Store(r0, hr.t, nv[id(hr)])
                m0 = z3.Store(z3.Store(m0, h1.t, nv[id(h1)]), h2.t, nv[id(h2)])
            known_ = z3.And(P, INV2(pid(loops[1]), r1, m1))
        ctx.prove(z3.And(z3.Select(r1, q) == z3.Select(r0, q), z3.Select(m1, q) == z3.Select(m0, q)), f"{what}: its instructions start with the values the variables have")
        ctx.prove(pre_at == known_, f"{what}: its instructions start with what is known")
        r2, m2 = both(it, st)
        pl, al = (it.split(it.getattr(st, x)) for x in ("precond", "asserts"))
        ctx.prove(junct(it, pl.items) == known_, f"{what}: what is known in it")
        ctx.prove(z3.And(*[z3.Select(s, q) == z3.Select(z3.Const("sigma_after_" + a, Sig), q) for s, a in ((r2, "primitive_vars"), (m2, "pointer_vars"))]), f"{what}: the variables have the values its instructions give them")
        a = list(al.items)
        if not same_list(it, al, st.was["A"]) or len(a) < 2:
            return ctx.fail(f"{what}: the assertions made so far are kept", repr(a))
        held = [INV2(pid(l), r2, m2) for k in ("pred", "latch") for l in mine[k]]
        ctx.prove(junct(it, a[1:]) == z3.And([CONJ(NQ)] + [z3.Implies(known_, h) for h in held]), f"{what}: the invariants of the loops it enters or repeats are asserted")
        ctx.prove(it.truth_term(it.getattr(st, "processed")) == True, f"{what}: is marked as visited")  # noqa
        for e in order:
            if e[0] == "invariant":
                v = e[1]
                wr = [it.split(s.v) for s in it.seq(v["writes"]) if isinstance(s, One)]
                ctx.prove(z3.BoolVal({id(x) for x in wr} == {id(hr), id(h1), id(h2)} and len(it.seq(v["writes"])) == 3), f"{what}: the invariant is told what the loop changes")
                ctx.prove(z3.BoolVal(v["reads"] is w.args and v["grammar"] is (func if ig is not None else None)), f"{what}: the invariant is told what it may read, and its grammar")
                if grammar == 2:
                    ctx.prove(z3.BoolVal(v["args"] is over), f"{what}: an invariant with arguments of its own")
                else:
                    sg = it.seq(v["args"])
                    ctx.prove(z3.BoolVal(len(sg) == 1 and isinstance(sg[0], Many) and sg[0].cond is None and sg[0].n.eq(un)), f"{what}: the invariant is about what the loop changes and the arguments")
        for e in order:
            if e[0] == "union":
                objs = [[it.split(s.v) if isinstance(s, One) else s for s in it.seq(x)] for x in e[1:]]
                has_h = any({id(x) for x in l if isinstance(x, VObj)} == {id(hr), id(h1), id(h2)} for l in objs)
                has_a = any(len(l) == 1 and l[0] is w.args.items[0] for l in objs)
                ctx.prove(z3.BoolVal(has_h and has_a), f"{what}: the invariant is about what the loop changes and the arguments", repr(objs))
    return body


for _sh, _nm in (((0, 0, 0, True), "entry"), ((0, 0, 0, False), "inner"), ((1, 0, 0, False), "header"), ((0, 1, 0, True), "entry before a loop"), ((0, 2, 0, False), "before two loops"),
                 ((0, 0, 1, False), "latch"), ((0, 1, 1, False), "latch before a loop"), ((1, 0, 1, False), "header and latch"), ((1, 1, 2, False), "all")):
    unit(f"visit_llvm_block[{_nm}]")(block_unit(_sh))


# ---- helpers of the block visitor -------------------------------------------------------------
def finder_unit(fn, what):
    def body(it):
        ctx = it.ctx
        k = ctx.choose(4)
        loops, facts = [], []
        b = z3.String("name_of_block")
        for i in range(k):
            n = z3.Int(f"n{i}")
            ctx.add(n >= 0)
            f = z3.Function(f"blockname{i}", z3.IntSort(), S)
            idx = it.idx_for(n)
            h = Opaque("header", {"name": name_rope(z3.String(f"header{i}")), "preds": VList([Many(n, idx, Opaque("pred", {"name": name_rope(f(idx))}))])})
            l = loop(f"loop{i}")
            l.attrs["header"] = h
            l.attrs["latches"] = VList([Many(n, idx, Opaque("latch", {"name": name_rope(f(idx))}))])
            loops.append(l)
            facts.append((n, f, z3.String(f"header{i}")))
        w = World(it, loops=loops)
        ctx.add(w.names["block"] == b)
        r = []
        if not attempt(it, what, lambda: r.append(run(it, w, fn, w.block))):
            return
        got = [it.split(s.v) if isinstance(s, One) else s for s in it.seq(it.split(r[0]))]
        for i, (l, (n, f, h)) in enumerate(zip(loops, facts)):
            found = sum(x is l for x in got)
            if fn == "find_header_loops":
                ctx.prove((h == b) == z3.BoolVal(found == 1), f"{what}: exactly those")
            elif found:
                j = z3.Int("j")
                ctx.prove(z3.And(z3.BoolVal(found == 1), z3.Exists([j], z3.And(j >= 0, j < n, f(j) == b))), f"{what}: only those")
            else:
                j = z3.Int(f"some_block{i}")
                ctx.instantiate(n, j)
                ctx.prove(z3.Not(z3.And(j >= 0, j < n, f(j) == b)), f"{what}: all of those")
        ctx.prove(z3.BoolVal(all(any(x is l for l in loops) for x in got)), f"{what}: loops of this function")
    unit(f"{fn}")(body)


finder_unit("find_header_loops", "loops a block is the header of")
finder_unit("find_header_pred_loops", "loops a block leads to")
finder_unit("find_latch_loops", "loops a block repeats")


@unit("get_inv_grammar")
def _(it):
    ctx = it.ctx
    w = World(it)
    g = Opaque("grammar")
    nm = z3.String("inv_name")
    kind = ctx.choose(3)
    made = VDict([], None, (lambda: Opaque("default grammar"))) if kind == 2 else VDict([])
    if kind == 1:
        made = VDict([(name_rope(nm), g)])
    ctx.jset(w.visitor.attrs, "inv_grammars", made)
    r = []
    what = "grammar of an invariant"
    if attempt(it, what, lambda: r.append(run(it, w, "get_inv_grammar", name_rope(nm)))):
        v = it.split(r[0])
        ok = [v is None, v is g, isinstance(v, Opaque) and v.tag == "default grammar"][kind]
        ctx.prove(z3.BoolVal(ok), f"{what}: the one given for it, or none", repr(v))


@unit("new_value")
def _(it):
    ctx = it.ctx
    w = World(it)
    h = var_object(it, "havoc")
    r = []
    what = "new value"
    if attempt(it, what, lambda: r.append(run(it, w, "new_value", h))):
        v = it.split(r[0])
        src = it.split(it.getattr(v, "src")) if is_irobj(v) else None
        if not isinstance(src, VObj) or src.lazy or src.cls is not ir.Var:
            return ctx.fail(f"{what}: a variable", repr(src))
        t = it.str_term(rope(it.split(it.seq(it.getattr(src, "args"))[0].v)))
        ctx.prove(FRESHN(t), f"{what}: is none there was before")
        ctx.prove(it.type_term(it.getattr(src, "type")) == TYV(h.t), f"{what}: has the type of the variable")
        reg = [it.str_term(rope(it.split(s.v))) for s in it.getattr(w.vt, "registry").items]
        ctx.prove(zor([t == y for y in reg]), f"{what}: is declared")


@unit("get_havocs[bounded]")
def _(it):
    ctx = it.ctx
    w = World(it)
    n = ctx.choose(4)
    refs = []
    for i in range(n):
        ptr = bool(ctx.choose(2))
        o = Opaque("value", {"name": f"v{(i * 2) % 3}", "type": typeref(ptr)}, z3.Const(f"stored{i}", Obj), (ValueRef,))
        refs.append((o, ptr, z3.StringVal(o.attrs["name"])))
        ctx.add(z3.Or([TYV(refs[-1][2]) == y for y in EXPTY]))
        ctx.assume(z3.Or(*[f(refs[-1][2]) for f in TYPED.values()]))
    l = loop("loop")
    l.attrs["havocs"] = VSet([One(o) for o, _, _ in refs])
    r = []
    what = "variables a loop changes"
    if attempt(it, what, lambda: r.append(run(it, w, "get_havocs", w.block, l))):
        two = [it.split(s.v) for s in it.seq(it.split(r[0]))]
        for got, ptr, nm in zip(two, (False, True), ("registers", "slots")):
            want = sorted(o.attrs["name"] for o, p, _ in refs if p == ptr)
            objs = [it.split(s.v) for s in it.seq(got)]
            names = []
            for o in objs:
                src = it.split(it.getattr(o, "src"))
                names.append(it.native(it.split(it.seq(it.getattr(src, "args"))[0].v)))
                ctx.prove(it.type_term(it.getattr(src, "type")) == TYV(z3.StringVal(names[-1])), f"{what}: with their types")
            ctx.prove(z3.BoolVal(names == want), f"{what}: {nm}, sorted by name", repr((names, want)))


@unit("preprocess[bounded]")
def _(it):
    ctx = it.ctx
    w = World(it)
    for a in ("primitive_vars", "pointer_vars"):
        ctx.jset(w.state.attrs, a, VDict([]))
    n = ctx.choose(3)
    tys = {Ty.TInt: (ir.Int, False), Ty.TBool: (ir.Bool, False), LIST: (ir.List[ir.Int], True), SET: (ir.Set[ir.Int], True)}
    args = []
    def obj(nm, ty):
        t = z3.String(nm)
        ctx.add(wf_name(t))
        ctx.add(TYV(t) == ty)
        e = new_obj(it, z3.Const("src_" + nm, Obj), facts=False)
        cls = {Ty.TInt: ir.Int, Ty.TBool: ir.Bool, LIST: ir.List, SET: ir.Set}[ty]
        v = VObj([ir.Var], attrs={"args": VList([One(name_rope(t))]), "type": tys[ty][0]})
        o = VObj([cls], attrs={"src": v, "containedT": ir.Int})
        o.t, o.ptr = t, tys[ty][1]
        return o
    for i in range(n):
        args.append(obj(f"arg{i}", list(tys)[ctx.choose(4) if i == 0 else (1, 2)[ctx.choose(2)]]))
    ctx.jset(w.visitor.attrs, "fn_args", VList([One(a) for a in args]))
    ctx.jset(w.visitor.attrs, "fn_ret_type", list(tys.values())[ctx.choose(2) * 2][0])
    sret = obj("sret", LIST) if ctx.choose(2) else None
    ctx.jset(w.visitor.attrs, "fn_sret_arg", sret)
    all_ = args + ([sret] if sret is not None else [])
    if len(all_) > 1:
        ctx.add(z3.Distinct(*[a.t for a in all_]))
    rv = z3.Concat(z3.String("fn_name"), z3.StringVal("_rv"))
    for a in all_:
        ctx.add(a.t != rv)
    what = "entry of a function"
    if not attempt(it, what, lambda: run(it, w, "preprocess", block_ref(it, w, "block"))):
        return
    if ctx.choose(2) == 0:
        check_known(it, w, "block", what, precond=CONJ(w.PC))
        pc = it.split(it.getattr(w.driver, "postconditions"))
        ctx.prove(z3.BoolVal(pc is not it.split(it.getattr(w.state, "precond")) and len(pc.items) == 1 and list_id(pc.items[0]) is not None and list_id(pc.items[0]).eq(w.PC)), f"{what}: what is assumed in all functions is left alone")
        return
    for a in all_:
        for attr, ptr in (("primitive_vars", False), ("pointer_vars", True)):
            f, v = it.dict_find(it.split(it.getattr(w.state, attr)), name_rope(a.t))
            f = f if z3.is_expr(f) else z3.BoolVal(bool(f))
            ctx.prove(f == z3.BoolVal(a.ptr == ptr), f"{what}: the arguments are registers, or slots if they are pointers")
            if ptr == a.ptr and v is not None:
                o = it.split(I.force(v))
                ctx.prove(z3.BoolVal(o is a or is_irobj(o) and it.split(it.getattr(o, "src")) is a.attrs["src"]), f"{what}: the arguments have the values given")


@unit("LoopInfo[bounded]")
def _(it):
    ctx = it.ctx
    it.con.by_qual[Q + "get_fn_name_from_call_instruction"] = lambda it, a, k: it.split(a[0].v).attrs["callee"]
    names = ["header", "body", "exit", "latch"]
    refs = {}
    ctx.add(z3.Distinct(*[z3.Const("ref_" + x, Obj) for x in ("x", "y", "z", "v", "f", "outside")]))

    def ref(nm):
        if nm not in refs:
            refs[nm] = Opaque("value", {"name": nm, "type": typeref(True)}, z3.Const("ref_" + nm, Obj), (ValueRef,))
        return refs[nm]
    where = ctx.choose(4)
    kinds = [("store", None), ("call", "push_back"), ("call", "other"), ("load", None), ("add", None)]
    op, callee = kinds[ctx.choose(len(kinds))]
    extra = Opaque("instr", {"opcode": op, "callee": callee, "operands": VList([One(ref("x")), One(ref("y")), One(ref("f"))][:3 if op == "call" else 2])}, z3.Const("instr", Obj))
    always = Opaque("instr", {"opcode": "store", "callee": None, "operands": VList([One(ref("v")), One(ref("z"))])}, z3.Const("instr_z", Obj))
    blocks = {n: VObj([mvc.Block], attrs={"name": n, "instructions": VList([]), "preds": VList([]), "succs": VList([])}) for n in names + ["before", "after"]}
    blocks[names[where]].attrs["instructions"] = VList([One(extra)])
    blocks["latch"].attrs["instructions"] = VList(list(blocks["latch"].attrs["instructions"].items) + [One(always)])
    outer = Opaque("instr", {"opcode": "store", "callee": None, "operands": VList([One(ref("v")), One(ref("outside"))])}, z3.Const("instr_o", Obj))
    blocks["after"].attrs["instructions"] = VList([One(outer)])
    edges = [("before", "header"), ("header", "body"), ("body", "exit"), ("exit", "latch"), ("exit", "after"), ("latch", "header")]
    for a, b in edges:
        blocks[a].attrs["succs"].items = list(blocks[a].attrs["succs"].items) + [One(blocks[b])]
        blocks[b].attrs["preds"].items = list(blocks[b].attrs["preds"].items) + [One(blocks[a])]
    one = lambda n: VList([One(blocks[n])])
    r = []
    what = "loop"
    if not attempt(it, what, lambda: r.append(it.call(fl.LoopInfo, [], {"header": blocks["header"], "body": one("body"), "exits": one("exit"), "latches": one("latch")}))):
        return
    l = it.split(r[0])
    hv = it.split(it.getattr(l, "havocs"))
    got = [it.split(s.v) for s in it.seq(hv)]
    want = {"z"} | ({"y"} if op == "store" else set()) | ({"x"} if callee == "push_back" else set())
    ctx.prove(z3.BoolVal({g.attrs["name"] for g in got} == want), f"{what}: changes what is stored to or appended to in it", repr((got, want)))
    names_of = lambda v: [it.split(s.v).attrs["name"] for s in it.seq(v)]
    for b in blocks:
        s = [y for x, y in edges if x == b and (x, y) != ("latch", "header")]
        p = [x for x, y in edges if y == b and (x, y) != ("latch", "header")]
        ctx.prove(z3.BoolVal(names_of(blocks[b].attrs["succs"]) == s and names_of(blocks[b].attrs["preds"]) == p), f"{what}: only the way back to its header is cut")
    ctx.prove(z3.BoolVal(it.split(it.getattr(l, "header")) is blocks["header"] and names_of(it.getattr(l, "latches")) == ["latch"]), f"{what}: its header and latches")


SHAPES = [[("a", [])], [("a", ["b"]), ("b", [])], [("a", ["b", "c"]), ("b", ["d"]), ("c", ["d"]), ("d", [])], [("d", []), ("c", ["d"]), ("b", ["d"]), ("a", ["c", "b"])],
          [("a", ["h"]), ("h", ["x", "e"]), ("x", ["l"]), ("l", []), ("e", [])]]


@unit("MetaliftFunc.__call__[bounded]")
def _(it):
    ctx = it.ctx
    w = World(it)
    shape = SHAPES[ctx.choose(len(SHAPES))]
    blocks = {n: VObj([mvc.Block], attrs={"name": n, "preds": VList([]), "succs": VList([]), "instructions": VList([])}) for n, _ in shape}
    for n, ss in shape:
        for s in ss:
            blocks[s].attrs["preds"].items = list(blocks[s].attrs["preds"].items) + [One(blocks[n])]
    args = []
    perm = [["a", "b"], ["b", "a"], ["x"], []][ctx.choose(4)]
    for nm in perm:
        v = VObj([ir.Var], attrs={"args": VList([One(nm)]), "type": ir.Int})
        args.append(VObj([ir.Int], attrs={"src": v}))
    sret = Opaque("sret", {"type": Opaque("typeref", {"__str__": "%struct.list*", "is_pointer": True}), "name": "agg"}) if ctx.choose(2) else None
    un = VList([])
    fields = {"fn_ret_type": Opaque("ret"), "inv_grammars": VDict([]), "ps_grammar": Opaque("psg"), "loops": VList([])}
    fn = VObj([fl.MetaliftFunc], attrs=dict(fields, driver=w.driver, fn_name=w.fn_name, fn_args=VList([]), fn_sret_arg=sret, fn_blocks=VDict([(n, b) for n, b in blocks.items()]), target_lang_fn=Opaque("t"), synthesized=None))
    seen, vs = [], []
    NEW = {n: z3.Const("made_in_" + n, Obj) for n in blocks}

    def visit(it, a, kw):
        v, b = it.split(a[0].v), it.split(a[1].v)
        nm = b.attrs["name"]
        vs.append(v)
        seen.append(nm)
        st = it.split(it.getitem(it.getattr(v, "fn_blocks_states"), nm))
        ctx.jset(st.attrs, "asserts", VList([cond_list(it, NEW[nm])]))
        ctx.jset(st.attrs, "processed", True)
    it.con.by_qual[Q + "VCVisitor.visit_llvm_block"] = visit
    what = "call of an analyzed function"
    if not attempt(it, what, lambda: it.run_func(it.vfunc(fl.MetaliftFunc.__call__), [One(fn)] + [One(a) for a in args], {"uninterp_fns": un})):
        return
    ctx.prove(z3.BoolVal(sorted(seen) == sorted(blocks)), f"{what}: every block is visited once", repr(seen))
    for n, ss in shape:
        for s in ss:
            ctx.prove(z3.BoolVal(n in seen and s in seen and seen.index(n) < seen.index(s)), f"{what}: a block is visited after those that lead to it", repr(seen))
    v = vs[0]
    ctx.prove(z3.BoolVal(all(x is v for x in vs)), f"{what}: by one visitor")
    g = lambda a: it.split(it.getattr(v, a))
    ok = all(g(a) is x for a, x in fields.items()) and g("driver") is w.driver and vkey(g("fn_name")) == vkey(w.fn_name) and g("var_tracker") is w.vt and g("pred_tracker") is w.tracker and g("uninterp_fns") is un
    ctx.prove(z3.BoolVal(ok), f"{what}: analyzed as it was given")
    fa = [it.split(s.v) for s in it.seq(g("fn_args"))]
    ctx.prove(z3.BoolVal([x.attrs["src"].attrs["args"].items[0].v for x in fa] == sorted(perm) and all(any(x is y for y in args) for x in fa)), f"{what}: the arguments, by name")
    s = g("fn_sret_arg")
    if sret is None:
        ctx.prove(z3.BoolVal(s is None), f"{what}: no result by reference")
    else:
        ctx.prove(z3.BoolVal(is_irobj(s) and it.native(it.call(it.getattr(s, "var_name"), [])) == "agg"), f"{what}: the result by reference")
    a = it.split(it.getattr(w.driver, "asserts")).items
    ok = len(a) == 1 + len(blocks) and all(list_id(x) is not None for x in a) and list_id(a[0]).eq(w.AS)
    ctx.prove(z3.BoolVal(ok), f"{what}: its assertions are added to those of the driver", repr(a))
    if ok:
        ctx.prove(z3.BoolVal({str(list_id(x)) for x in a[1:]} == {str(x) for x in NEW.values()}), f"{what}: the assertions of every block")
    pc = it.split(it.getattr(w.driver, "postconditions")).items
    ctx.prove(z3.BoolVal(len(pc) == 1 and list_id(pc[0]) is not None and list_id(pc[0]).eq(w.PC)), f"{what}: nothing is assumed from then on")
