"""Data-structure invariants (class contracts) of the metalift IR and its
denotational semantics, used by the per-property contracts."""
import inspect
import z3
import typing
from pyvc.core import *
from pyvc import core, interp as I
import metalift.ir as ir
from llvmlite.binding import ValueRef, TypeRef

# ---- which IR node has which shape -----------------------------------------
NARY = ("Add", "Mul", "And", "Or")
BIN = ("Sub", "Div", "Mod", "Eq", "Lt", "Le", "Gt", "Ge", "Implies")
UN = ("Not",)
INT_RESULT = ("Add", "Sub", "Mul", "Div", "Mod")
BOOL_RESULT = ("Eq", "Lt", "Le", "Gt", "Ge", "And", "Or", "Not", "Implies", "Axiom", "Assert", "Constraint")
BOOL_ARGS = ("And", "Or", "Not", "Implies")
# classes whose constructor cannot succeed on any input (they use the type
# representation metalift had before the Object types): Lambda, TupleGet
EXPR_NAMES = ["Var", "Lit", "Add", "Sub", "Mul", "Div", "Mod", "Eq", "Lt", "Le", "Gt", "Ge", "And", "Or", "Not",
              "Implies", "Ite", "Let", "Call", "CallValue", "TupleExpr", "Choose"]
EXPR = tuple(getattr(ir, n) for n in EXPR_NAMES)
ALL_EXPR = tuple(c for _, c in vars(ir).items() if isinstance(c, type) and issubclass(c, ir.Expr) and c is not ir.Expr)

# ---- values of expressions ---------------------------------------------------
Oth = z3.DeclareSort("Oth")
Val = z3.Datatype("Val")
Val.declare("I", ("ival", z3.IntSort()))
Val.declare("B", ("bval", z3.BoolSort()))
Val.declare("O", ("oval", Oth))
Val = Val.create()
D = z3.Function("D", Obj, Val)              # value of an arbitrary expression
envf = z3.Function("env", z3.StringSort(), Val)  # value of a variable
SMTSTR = z3.Function("smt_of", Obj, z3.StringSort())
ROSSTR = z3.Function("ros_of", Obj, z3.StringSort())
PYSTR = z3.Function("py_of", Obj, z3.StringSort())
REPRSTR = z3.Function("repr_of", Obj, z3.StringSort())
TYSTR = z3.Function("tystr", Ty, z3.StringSort())
TYSMT = z3.Function("tysmt", Ty, z3.StringSort())
TYPY = z3.Function("typy", Ty, z3.StringSort())


def typing_fact(x):
    return z3.And(z3.Implies(tyof(x) == Ty.TInt, Val.is_I(D(x))), z3.Implies(tyof(x) == Ty.TBool, Val.is_B(D(x))))


def new_obj(it, id_, dom=EXPR, facts=True):
    """the arbitrary expression with identity id_"""
    key = id_.sexpr()
    o = it.ctx.objs.get(key)
    if o is None:
        o = VObj(dom, id_, {}, lazy=True, sort="expr")
        it.ctx.jset(it.ctx.objs, key, o, lazy=True)
        if facts:
            it.ctx.add(typing_fact(id_))
            for c in dom:
                it.con.code(c)
    return o


def class_is(it, o, cls):
    it.ctx.add(clsof(o.id) == it.con.code(cls))
    it.ctx.jset(o, "dom", (cls,))


def elem(it, o, i, dom=EXPR):
    return new_obj(it, arg(o.id, i if z3.is_expr(i) else z3.IntVal(i)), dom)


def many_args(it, o, min_n=0, dom=EXPR, start=0):
    n = argn(o.id)
    it.ctx.add(n >= min_n)
    idx = it.idx_for(n)
    e = VObj(dom, arg(o.id, idx + start if start else idx), {}, lazy=True, sort="expr")
    for c in dom:
        it.con.code(c)
    it.ctx.add_univ(n, idx, typing_fact(e.id))
    return Many(n, idx, e)


def name_of(o):
    return Rope([Atom(nameof(o.id), "name", o)])


RESERVED = ["make-tuple", "tupleGet", "set-create", "list_eq"]


def wf_name(t):
    """names of variables and functions: a non-empty identifier that does not
    start like one of the pseudo functions the printers give a meaning to"""
    return z3.And(t != z3.StringVal(""), *[t != z3.StringVal(r) for r in RESERVED],
                  z3.Not(z3.PrefixOf(z3.StringVal("set-"), t)), z3.Not(z3.PrefixOf(z3.StringVal("map-"), t)),
                  z3.Not(z3.PrefixOf(z3.StringVal("("), t)))


def shape(it, o, name, min_nary=1):
    """attributes of an arbitrary expression: the class invariants established
    by the constructors"""
    if o.sort != "expr":
        return NotImplemented
    x = o.id
    if name == "type":
        if o.cls is not None:
            if o.cls.__name__ in INT_RESULT:
                it.ctx.assume(tyof(x) == Ty.TInt)
                return ir.Int
            if o.cls.__name__ in BOOL_RESULT:
                it.ctx.assume(tyof(x) == Ty.TBool)
                return ir.Bool
        return SType(tyof(x))
    if name != "args":
        if name == "isStart":
            return Sym(z3.Function("isstart", Obj, z3.BoolSort())(x))
        if name == "metadata":
            return VDict([])
        return NotImplemented
    if o.cls is None:
        for c in o.dom[:-1]:
            if it.branch_class(o, [c]):
                break
        else:
            it.narrow(o, [o.dom[-1]])
    c = o.cls.__name__
    v = None
    if c in ("Var", "NonTerm"):
        it.ctx.add(wf_name(nameof(x)))
        v = VList([One(name_of(o))])
    elif c == "Lit":
        it.ctx.add(z3.Or(tyof(x) == Ty.TInt, tyof(x) == Ty.TBool))
        if it.ctx.branch(tyof(x) == Ty.TBool):
            it.ctx.assume(D(x) == Val.B(boolof(x)))
            v = VList([One(Sym(boolof(x)))])
        else:
            it.ctx.assume(D(x) == Val.I(intof(x)))
            v = VList([One(Sym(intof(x)))])
    elif c in NARY or c in ("TupleExpr", "Choose"):
        m = many_args(it, o, max(min_nary, 1) if c != "TupleExpr" else 0)
        if c in BOOL_ARGS:
            it.ctx.add_univ(m.n, m.idx, tyof(m.val.id) == Ty.TBool)
        if c == "Choose":
            it.ctx.add_univ(m.n, m.idx, tyof(m.val.id) == tyof(x))
        if c in ("Add", "Mul"):
            pass
        v = VTuple([m])
    elif c in BIN:
        a, b = elem(it, o, 0), elem(it, o, 1)
        if c in BOOL_ARGS:
            it.ctx.add(z3.And(tyof(a.id) == Ty.TBool, tyof(b.id) == Ty.TBool))
        seq = VTuple if c in ("Sub", "Div", "Mod") else VList
        v = seq([One(a), One(b)])
    elif c in ("Not", "Assert", "Constraint"):
        a = elem(it, o, 0)
        if c == "Not":
            it.ctx.add(tyof(a.id) == Ty.TBool)
        v = VList([One(a)])
    elif c == "Ite":
        es = [elem(it, o, i) for i in range(3)]
        it.ctx.add(z3.And(tyof(es[0].id) == Ty.TBool, tyof(es[1].id) == tyof(x), tyof(es[2].id) == tyof(x)))
        v = VList([One(e) for e in es])
    elif c == "Let":
        es = [elem(it, o, 0, (ir.Var,)), elem(it, o, 1), elem(it, o, 2)]
        v = VList([One(e) for e in es])
    elif c in ("Call", "TargetCall"):
        it.ctx.add(nameof(x) != z3.StringVal(""))
        it.ctx.add(z3.Not(z3.PrefixOf(z3.StringVal("("), nameof(x))))
        v = VList([One(name_of(o)), many_args(it, o)])
    elif c == "CallValue":
        f = new_obj(it, z3.Function("calleeof", Obj, Obj)(x), (ir.Var,))
        v = VList([One(f), many_args(it, o)])
    elif c in ("FnDecl", "FnDeclRecursive", "Target", "Synth"):
        b = new_obj(it, z3.Function("bodyof", Obj, Obj)(x))
        v = VList([One(name_of(o)), One(b), many_args(it, o, 0, (ir.Var,))])
    elif c == "Axiom":
        b = new_obj(it, z3.Function("bodyof", Obj, Obj)(x))
        v = VList([One(b), many_args(it, o, 0, (ir.Var,))])
    else:
        it.unsupported("shape of " + c)
    it.ctx.jset(o.attrs, "args", v, lazy=True)
    return v


# ---- expressions of a known class under verification -------------------------
def self_of(it, cls, name="self", **kw):
    o = new_obj(it, z3.Const(name, Obj), (cls,))
    it.ctx.add(clsof(o.id) == it.con.code(cls))
    return o


def base_contracts():
    c = I.Contracts()
    c.shape = shape
    for k in ALL_EXPR:
        c.code(k)

    def render(fn, kind):
        def h(it, o, args, kwargs):
            return Rope([Atom(fn(o.id), kind, o)])
        return h
    c.virtual["toSMT"] = render(SMTSTR, "smt")
    c.virtual["to_rosette"] = render(ROSSTR, "ros")
    c.virtual["to_python"] = render(PYSTR, "py")

    def repr_h(it, o, args, kwargs):
        # contract of __repr__: the name for variables, "(..." for everything else
        # but literals (whose Expr.__repr__ also starts with "(")
        if it.branch_class(o, [k for k in o.dom if issubclass(k, ir.Var)]):
            it.ctx.add(wf_name(nameof(o.id)))
            return name_of(o)
        return Rope(["(", Atom(REPRSTR(o.id), "repr", o)])
    c.virtual["__repr__"] = repr_h
    c.by_qual["metalift.ir.get_type_str"] = lambda it, a, k: type_str(it, a[0].v)
    # type methods on symbolic types
    def ty_h(fn, kind, method):
        def h(it, t, a, k):
            # contract of the static type printers: called with get_args of the
            # type itself (may be left out for Int and Bool only)
            ta = it.split(a[0].v) if a else VTuple([])
            if not (isinstance(ta, STypeArgs) and it.ctx.must(ta.t == t.t)):
                it.ctx.prove(z3.Or(Ty.is_TInt(t.t), Ty.is_TBool(t.t)), f"{method} gets the arguments of the type it prints")
            return Rope([Atom(fn(t.t), kind, t)])
        return h
    c.stype_method["toSMTType"] = ty_h(TYSMT, "tysmt", "toSMTType")
    c.stype_method["cls_str"] = ty_h(TYSTR, "tystr", "cls_str")
    c.stype_method["to_python_type_str"] = ty_h(TYPY, "typy", "to_python_type_str")
    return c


def type_str(it, t):
    t = it.split(t)
    x = it.type_term(t)
    if x is None:
        from typing import get_args
        return t.cls_str(get_args(t))
    return Rope([Atom(TYSTR(x), "tystr", t)])


# ---- denotation trees ------------------------------------------------------------
class Den:
    pass


class DLeaf(Den):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return str(self.t)


class DApp(Den):
    """op applied to segments of Den"""

    def __init__(self, op, segs):
        self.op, self.segs = op, segs

    def __repr__(self):
        return f"({self.op} {' '.join(map(repr, self.segs))})"


class DBind(Den):
    def __init__(self, kind, names, den):
        self.kind, self.names, self.den = kind, names, den


def I_(t):
    return Val.I(t)


def B_(t):
    return Val.B(t)


def iv(d):
    return Val.ival(d)


def bv(d):
    return Val.bval(d)


OPSEM = {
    "+": lambda a: I_(z3.Sum([iv(x) for x in a])) if len(a) > 1 else a[0],
    "-": lambda a: I_(iv(a[0]) - z3.Sum([iv(x) for x in a[1:]])) if len(a) > 1 else I_(-iv(a[0])),
    "*": lambda a: I_(z3.Product([iv(x) for x in a])) if len(a) > 1 else a[0],
    "=": lambda a: B_(a[0] == a[1]) if len(a) == 2 else None,
    "<": lambda a: B_(iv(a[0]) < iv(a[1])) if len(a) == 2 else None,
    "<=": lambda a: B_(iv(a[0]) <= iv(a[1])) if len(a) == 2 else None,
    ">": lambda a: B_(iv(a[0]) > iv(a[1])) if len(a) == 2 else None,
    ">=": lambda a: B_(iv(a[0]) >= iv(a[1])) if len(a) == 2 else None,
    "and": lambda a: B_(z3.And([bv(x) for x in a])),
    "or": lambda a: B_(z3.Or([bv(x) for x in a])),
    "not": lambda a: B_(z3.Not(bv(a[0]))) if len(a) == 1 else None,
    "=>": lambda a: B_(z3.Implies(bv(a[0]), bv(a[1]))) if len(a) == 2 else None,
    "ite": lambda a: z3.If(bv(a[0]), a[1], a[2]) if len(a) == 3 else None,
}


def den_z3(d):
    """z3 Val term of a denotation without symbolic-length parts, else None"""
    if isinstance(d, DLeaf):
        return d.t
    if isinstance(d, DApp):
        xs = []
        for s in d.segs:
            if not isinstance(s, One):
                return None
            x = den_z3(s.v)
            if x is None:
                return None
            xs.append(x)
        if isinstance(d.op, str) and d.op in OPSEM:
            return OPSEM[d.op](xs) if xs else None
        if isinstance(d.op, str):
            op = z3.StringVal(d.op)
        else:
            op = d.op
        f = z3.Function(f"apply{len(xs)}", z3.StringSort(), *[Val] * len(xs), Val)
        return f(op, *xs)
    return None


def den_eq(it, a, b, why):
    """prove two denotations equal; records one obligation; returns success"""
    ok, reason = _deq(it, a, b)
    if ok is None:
        return it.ctx.prove(reason, why)
    if ok:
        return it.ctx.prove(z3.BoolVal(True), why)
    return it.ctx.fail(why, reason)


def _deq(it, a, b):
    """True / (False, reason) / (None, z3 goal)"""
    za, zb = den_z3(a), den_z3(b)
    if za is not None and zb is not None:
        return None, za == zb
    if isinstance(a, DApp) and isinstance(b, DApp):
        opa = a.op if not isinstance(a.op, str) else z3.StringVal(a.op)
        opb = b.op if not isinstance(b.op, str) else z3.StringVal(b.op)
        goals = [opa == opb] if not (isinstance(a.op, str) and isinstance(b.op, str)) else ([] if a.op == b.op else [z3.BoolVal(False)])
        sa, sb = list(a.segs), list(b.segs)
        if len(sa) != len(sb):
            sa, sb = ([s for s in l if not (isinstance(s, Many) and it.ctx.must(s.n <= 0))] for l in (sa, sb))
        if len(sa) != len(sb):
            return False, f"different arguments: {a} vs {b}"
        for s, t in zip(sa, sb):
            if isinstance(s, One) and isinstance(t, One):
                ok, g = _deq(it, s.v, t.v)
                if ok is False:
                    return ok, g
                if ok is None:
                    goals.append(g)
            elif isinstance(s, Many) and isinstance(t, Many):
                goals.append(s.n == t.n)
                tv = t.val if s.idx.eq(t.idx) else dsubst(t.val, [(t.idx, s.idx)])
                ca, cb = (z3.BoolVal(True) if x.cond is None else x.cond for x in (s, t))
                cb = z3.substitute(cb, (t.idx, s.idx))
                if not ca.eq(cb):
                    with it.scope(Many(s.n, s.idx, None)):
                        if it.ctx.sat(ca != cb) != z3.unsat:
                            return False, f"other arguments are left out: {ca} vs {cb}"
                with it.scope(Many(s.n, s.idx, None, ca)):
                    ok, g = _deq(it, s.val, tv)
                    if ok is False:
                        return ok, g
                    if ok is None:
                        r = it.ctx.sat(z3.Not(g))
                        if r != z3.unsat:
                            return False, f"arguments differ: {g}"
            else:
                return False, f"different argument structure: {a} vs {b}"
        return None, zand(goals)
    if isinstance(a, DBind) and isinstance(b, DBind) and a.kind == b.kind:
        ok, g = _deq(it, a.den, b.den)
        if ok is False:
            return ok, g
        return None, zand([x == y for x, y in zip(a.names, b.names)] + ([g] if ok is None else []) + [z3.BoolVal(len(a.names) == len(b.names))])
    return False, f"{a} is not {b}"


def dsubst(d, sub):
    if isinstance(d, DLeaf):
        return DLeaf(z3.substitute(d.t, *sub))
    if isinstance(d, DApp):
        op = d.op if isinstance(d.op, str) else z3.substitute(d.op, *sub)
        return DApp(op, [One(dsubst(s.v, sub)) if isinstance(s, One) else Many(z3.substitute(s.n, *sub), s.idx, dsubst(s.val, sub), s.cond) for s in d.segs])
    if isinstance(d, DBind):
        return DBind(d.kind, [z3.substitute(n, *sub) for n in d.names], dsubst(d.den, sub))
    return d


IROP = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "div", "Mod": "mod", "Eq": "=", "Lt": "<", "Le": "<=", "Gt": ">",
        "Ge": ">=", "And": "and", "Or": "or", "Not": "not", "Implies": "=>", "Ite": "ite"}


def str_z3(it, r):
    if isinstance(r, str):
        return z3.StringVal(r)
    return it.str_term(rope(r))


class PlainNames:
    """function naming of the IR itself"""

    def call(self, it, v, name, segs):
        return DApp(name, den_segs(it, segs, self))

    def tuple_(self, it, v, segs):
        return DApp("make-tuple", den_segs(it, segs, self))


PLAIN = PlainNames()


def den_child(it, v, sp=PLAIN):
    """denotation of a value used as an operand of an expression"""
    v = it.split(v)
    if isinstance(v, VObj) and v.lazy:
        return DLeaf(D(v.id))
    return den_expr(it, v, sp)


def den_segs(it, segs, sp=None):
    out = []
    for s in segs:
        if isinstance(s, One):
            out.append(One(den_child(it, s.v, sp)))
        else:
            m = it.map_many(s, lambda v: ("den", den_child(it, v, sp)))
            if m is not None:
                if isinstance(m.val, Cases):
                    raise Unsupported("operand denotation by cases")
                out.append(Many(m.n, m.idx, m.val[1], m.cond))
    return out


def den_expr(it, v, sp=PLAIN):
    """the meaning metalift's IR gives to an expression with known class"""
    sp = sp or PLAIN
    if not isinstance(v, VObj):
        if isinstance(v, Sym):
            return DLeaf(B_(v.t) if v.is_bool else I_(v.t))
        if isinstance(v, bool):
            return DLeaf(B_(z3.BoolVal(v)))
        if isinstance(v, int):
            return DLeaf(I_(z3.IntVal(v)))
        raise Unsupported(f"denotation of {v!r}")
    if v.cls is None:
        return DLeaf(D(v.id))
    if issubclass(v.cls, ir.Object):
        return den_child(it, it.getattr(v, "src"), sp)
    c = v.cls.__name__
    args = it.getattr(v, "args")
    segs = it.seq(args)
    if c in ("Var", "NonTerm"):
        return DLeaf(envf(str_z3(it, it.split(segs[0].v))))
    if c == "Lit":
        return den_expr(it, it.split(segs[0].v), sp)
    if c in IROP:
        return DApp(IROP[c], den_segs(it, segs, sp))
    if c in ("Call", "TargetCall"):
        return sp.call(it, v, str_z3(it, it.split(segs[0].v)), segs[1:])
    if c == "CallValue":
        f = it.split(segs[0].v)
        nm = it.split(it.seq(it.getattr(f, "args"))[0].v)
        return DApp(str_z3(it, nm), den_segs(it, segs[1:], sp))
    if c == "TupleExpr":
        return sp.tuple_(it, v, segs)
    if c == "Choose":
        return DApp("choose", den_segs(it, segs, sp))
    if c == "Let":
        x = it.split(segs[0].v)
        nm = str_z3(it, it.split(it.seq(it.getattr(x, "args"))[0].v))
        return DApp("let", [One(DBind("var", [nm], DLeaf(envf(nm)))), One(den_child(it, segs[1].v, sp)), One(den_child(it, segs[2].v, sp))])
    raise Unsupported("denotation of " + c)
