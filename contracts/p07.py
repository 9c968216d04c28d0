"""P07: operators and methods of the IR objects (Int, Bool, List, Matrix,
Tensor3D, Set, Tuple) and the free functions building objects."""
import z3
from pyvc.core import *
from pyvc import interp as I
from .irspec import *
from .p04 import sden, STRV, OBJV
import metalift.ir as ir

PID = "P07"
CLS_OF = [(Ty.is_TInt, ir.Int), (Ty.is_TBool, ir.Bool), (Ty.is_TList, ir.List), (Ty.is_TMatrix, ir.Matrix), (Ty.is_TTensor3D, ir.Tensor3D),
          (Ty.is_TSet, ir.Set), (Ty.is_TTuple, ir.Tuple), (Ty.is_TFn, ir.Fn)]
NONFN = [c for c in CLS_OF if c[1] is not ir.Fn]


def exp(it, name, t):
    """an arbitrary expression of type t"""
    o = new_obj(it, z3.Const(name, Obj))
    it.ctx.assume(tyof(o.id) == t)
    return o


def mkobj(it, cls, name, *ta, t):
    return it.call(cls, [One(x) for x in ta] + [One(exp(it, name, t))])


def int_obj(it, name):
    return mkobj(it, ir.Int, name, t=Ty.TInt)


def bool_obj(it, name):
    return mkobj(it, ir.Bool, name, t=Ty.TBool)


KINDS = ("list", "nested", "matrix", "tensor")


def elem_sort(it, tag="T"):
    """an arbitrary element type without nesting into lists"""
    t = z3.Const(tag, Ty)
    return t


def container(it, kind, name, T):
    """(object, its type, type of its elements)"""
    if kind == "list":
        it.ctx.assume(z3.Not(z3.Or(Ty.is_TList(T), Ty.is_TMatrix(T), Ty.is_TTensor3D(T), Ty.is_TFn(T))))
        t = Ty.TList(T)
        return mkobj(it, ir.List, name, SType(T), t=t), t, T
    if kind == "nested":
        it.ctx.assume(z3.Not(Ty.is_TFn(T)))
        t = Ty.TList(Ty.TList(T))
        return mkobj(it, ir.List, name, SType(Ty.TList(T)), t=t), t, Ty.TList(T)
    if kind == "matrix":
        t = Ty.TMatrix(T)
        it.ctx.assume(z3.Not(Ty.is_TFn(T)))
        return mkobj(it, ir.Matrix, name, SType(T), t=t), t, Ty.TList(T)
    t = Ty.TTensor3D(T)
    it.ctx.assume(z3.Not(z3.Or(Ty.is_TList(T), Ty.is_TMatrix(T), Ty.is_TTensor3D(T), Ty.is_TFn(T))))
    return mkobj(it, ir.Tensor3D, name, SType(T), t=t), t, Ty.TMatrix(T)


def obj_of(it, t, name):
    """an arbitrary object of type t, built by create_object (proved below)"""
    return it.call(ir.create_object, [One(SType(t)), One(exp(it, name, t))])


def dsrc(it, o):
    return den_child(it, it.getattr(o, "src"))


def D_(name):
    return DLeaf(D(z3.Const(name, Obj)))


def dint(k):
    return DLeaf(I_(k.t if isinstance(k, Sym) else z3.IntVal(k)))


def is_object(it, r, t, den, what, cls=None):
    """r is an object of type t whose expression has type t and denotes den"""
    r = it.split(r)
    ctx = it.ctx
    if not (isinstance(r, VObj) and r.cls is not None and issubclass(r.cls, ir.Object)):
        return ctx.fail(f"{what}: gives an object", repr(r))
    if cls is None:
        for is_, c in CLS_OF:
            if ctx.must(is_(t)):
                cls = c
    if cls is not None:
        ctx.prove(z3.BoolVal(r.cls is cls), f"{what}: class of the object", f"{r.cls.__name__} instead of {cls.__name__}")
    else:
        ctx.prove(zand([z3.Implies(is_(t), z3.BoolVal(r.cls is c)) for is_, c in CLS_OF]), f"{what}: class of the object", r.cls.__name__)
    ot = it.type_term(it.getattr(r, "type"))
    ctx.prove(z3.BoolVal(False) if ot is None else ot == t, f"{what}: type of the object")
    src = it.getattr(r, "src")
    st = it.type_term(it.getattr(src, "type"))
    ctx.prove(z3.BoolVal(False) if st is None else st == t, f"{what}: type of its expression")
    den_eq(it, dsrc(it, r), den, f"{what}: denotes the operation on its operands")


def unit(body):
    def run(ctx):
        it = I.Interp(ctx, base_contracts())
        ctx.explore(lambda: body(it))
    return run


def attempt(it, what, fn, *args):
    try:
        return it.call(fn, [a if isinstance(a, (One, Many)) else One(a) for a in args])
    except SymRaise as e:
        it.ctx.fail(f"{what}: raises no exception", repr(e.value))
        return None


def refused(it, what, fn, *args):
    try:
        r = it.call(fn, [a if isinstance(a, (One, Many)) else One(a) for a in args])
    except SymRaise:
        it.ctx.prove(True, f"{what}: refused")
        return
    it.ctx.fail(f"{what}: refused", repr(r))


def method(it, o, name):
    return it.getattr(o, name)


# ------------------------------------------------------------------------ Int, Bool
ARITH = {"__add__": "+", "__sub__": "-", "__mul__": "*", "__floordiv__": "div", "__mod__": "mod"}
COMP = {"__eq__": "=", "__ge__": ">=", "__gt__": ">", "__lt__": "<", "__le__": "<="}


def num_other(it, kind):
    if kind == "object":
        return int_obj(it, "y"), D_("y")
    k = Sym(z3.Int("k"))
    return k, dint(k)


def int_op(name, op, refl, kind, result=Ty.TInt, neg=False):
    def body(it):
        x = int_obj(it, "x")
        o, d = num_other(it, kind)
        r = attempt(it, name, method(it, x, name), o)
        if r is None:
            return
        args = [One(d), One(D_("x"))] if refl else [One(D_("x")), One(d)]
        want = DApp(op, args)
        if neg:
            want = DApp("not", [One(want)])
        is_object(it, r, result, want, f"Int.{name}({kind})")
        den_eq(it, dsrc(it, x), D_("x"), f"Int.{name}: the operand is unchanged")
    return unit(body)


SCALAR = {"__add__": ("vec_scalar_add", "matrix_scalar_add"), "__sub__": ("scalar_vec_sub", "scalar_matrix_sub"),
          "__mul__": ("vec_scalar_mul", "matrix_scalar_mul"), "__floordiv__": ("scalar_vec_div", "scalar_matrix_div")}


def int_list_op(name, matrix):
    def body(it):
        x = int_obj(it, "x")
        t = (Ty.TMatrix if matrix else Ty.TList)(Ty.TInt)
        l = mkobj(it, ir.Matrix if matrix else ir.List, "l", ir.Int, t=t)
        if name not in SCALAR:
            return refused(it, f"Int.{name} of a list", method(it, x, name), l)
        r = attempt(it, name, method(it, x, name), l)
        if r is not None:
            is_object(it, r, t, DApp(SCALAR[name][matrix], [One(D_("x")), One(D_("l"))]), f"Int.{name}({'Matrix' if matrix else 'List'})")
    return unit(body)


def int_ctor(it):
    v = it.ctx.choose(6)
    what = "Int()"
    if v == 0:
        k = Sym(z3.Int("k"))
        is_object(it, attempt(it, what, ir.Int, k), Ty.TInt, dint(k), "Int(integer)")
    elif v == 1:
        e = new_obj(it, z3.Const("e", Obj))
        try:
            r = it.call(ir.Int, [One(e)])
        except SymRaise as x:
            it.ctx.prove(tyof(e.id) != Ty.TInt, "Int(expression): integer expressions are accepted", repr(x.value))
            return
        it.ctx.prove(tyof(e.id) == Ty.TInt, "Int(expression): only integer expressions are accepted")
        is_object(it, r, Ty.TInt, D_("e"), "Int(expression)")
    elif v == 2:
        s = z3.String("s")
        it.ctx.add(wf_name(s))
        is_object(it, attempt(it, what, ir.Int, Rope([Atom(s, "name", None)])), Ty.TInt, DLeaf(envf(s)), "Int(name)")
    elif v == 3:
        is_object(it, attempt(it, what, ir.Int), Ty.TInt, DLeaf(envf(z3.StringVal("v"))), "Int()")
    elif v == 4:
        b = Sym(z3.Bool("b"))
        r = attempt(it, what, ir.Int, b)
        if r is not None:
            is_object(it, r, Ty.TInt, DLeaf(I_(z3.If(b.t, 1, 0))), "Int(truth value)")
    else:
        refused(it, "Int(list)", ir.Int, VList([]))


def bool_ctor(it):
    v = it.ctx.choose(4)
    if v == 0:
        b = Sym(z3.Bool("b"))
        is_object(it, attempt(it, "Bool", ir.Bool, b), Ty.TBool, DLeaf(B_(b.t)), "Bool(truth value)")
    elif v == 1:
        e = new_obj(it, z3.Const("e", Obj))
        try:
            r = it.call(ir.Bool, [One(e)])
        except SymRaise as x:
            it.ctx.prove(tyof(e.id) != Ty.TBool, "Bool(expression): boolean expressions are accepted", repr(x.value))
            return
        it.ctx.prove(tyof(e.id) == Ty.TBool, "Bool(expression): only boolean expressions are accepted")
        is_object(it, r, Ty.TBool, D_("e"), "Bool(expression)")
    elif v == 2:
        s = z3.String("s")
        it.ctx.add(wf_name(s))
        is_object(it, attempt(it, "Bool", ir.Bool, Rope([Atom(s, "name", None)])), Ty.TBool, DLeaf(envf(s)), "Bool(name)")
    else:
        refused(it, "Bool(integer)", ir.Bool, Sym(z3.Int("k")))


def bool_op(name, op, kind, neg=False):
    def body(it):
        x = bool_obj(it, "x")
        if kind == "object":
            o, d = bool_obj(it, "y"), D_("y")
        else:
            b = Sym(z3.Bool("b"))
            o, d = b, DLeaf(B_(b.t))
        r = attempt(it, name, method(it, x, name), o)
        if r is None:
            return
        want = DApp(op, [One(D_("x")), One(d)])
        if neg:
            want = DApp("not", [One(want)])
        is_object(it, r, Ty.TBool, want, f"Bool.{name}({kind})")
    return unit(body)


def many_objs(it, cls, t, least=1):
    n = z3.Int("nobjs")
    it.ctx.add(n >= least)
    idx = it.idx_for(n)
    e = new_obj(it, z3.Function("oper", z3.IntSort(), Obj)(idx), EXPR, facts=False)
    it.ctx.add_univ(n, idx, tyof(e.id) == t)
    o = VObj([cls], attrs={"src": e})
    return Many(n, idx, o), Many(n, idx, DLeaf(D(e.id)))


def bool_nary(name, op):
    def body(it):
        x = bool_obj(it, "x")
        m, dm = many_objs(it, ir.Bool, Ty.TBool)
        r = attempt(it, name, method(it, x, name), m)
        if r is not None:
            is_object(it, r, Ty.TBool, DApp(op, [One(D_("x")), dm]), f"Bool.{name}")
    return unit(body)


def bool_not(it):
    x = bool_obj(it, "x")
    r = attempt(it, "Not", method(it, x, "Not"))
    if r is not None:
        is_object(it, r, Ty.TBool, DApp("not", [One(D_("x"))]), "Bool.Not")


# ------------------------------------------------------------------------ containers
def idx_arg(it, kind, nm):
    if kind == "object":
        return int_obj(it, nm), D_(nm)
    k = Sym(z3.Int("k_" + nm))
    return k, dint(k)


FAM = {"list": {"get": "list_get", "tail": "list_tail", "take": "list_take", "slice": "vec_slice", "slen": "vec_slice_with_length", "append": "list_append", "prepend": "list_prepend", "len": "list_length"},
       "matrix": {"get": "matrix_get", "tail": "matrix_tail", "take": "matrix_take", "slice": "matrix_row_slice", "slen": "matrix_row_slice_with_length", "append": "matrix_append", "prepend": "matrix_prepend", "len": "matrix_length"},
       "tensor": {"get": "tensor3d_get", "tail": "tensor3d_tail", "take": "tensor3d_take", "slice": "tensor3d_slice", "slen": "tensor3d_slice_with_length", "append": "tensor3d_append", "prepend": "tensor3d_prepend", "len": "tensor3d_length"}}
FAM["nested"] = FAM["matrix"]


def seq_unit(kind, op, arg):
    F = FAM[kind]

    def body(it):
        ctx = it.ctx
        T = z3.Const("T", Ty)
        l, t, et = container(it, kind, "l", T)
        what = f"{kind} {op}"
        L = One(D_("l"))
        frame = True
        if op == "len":
            r = attempt(it, what, method(it, l, "len"))
            if r is not None:
                is_object(it, r, Ty.TInt, DApp(F["len"], [L]), what)
        elif op == "get":
            i, d = idx_arg(it, arg, "i")
            r = attempt(it, what, method(it, l, "__getitem__"), i)
            if r is not None:
                is_object(it, r, et, DApp(F["get"], [L, One(d)]), what)
        elif op in ("tail", "take", "slice"):
            i, di = idx_arg(it, arg, "i")
            j, dj = idx_arg(it, arg, "j")
            s, ds = {"tail": (slice(i, None, None), [di]), "take": (slice(None, j, None), [dj]), "slice": (slice(i, j, None), [di, dj])}[op]
            r = attempt(it, what, method(it, l, "__getitem__"), s)
            if r is not None:
                is_object(it, r, t, DApp(F[op], [L] + [One(d) for d in ds]), what)
        elif op == "step":
            i, _ = idx_arg(it, arg, "i")
            refused(it, what, method(it, l, "__getitem__"), slice(None, None, i))
        elif op == "slice_with_length":
            i, di = idx_arg(it, arg, "i")
            j, dj = idx_arg(it, arg, "j")
            r = attempt(it, what, method(it, l, op), i, j)
            if r is not None:
                is_object(it, r, t, DApp(F["slen"], [L, One(di), One(dj)]), what)
        elif op in ("append", "prepend"):
            frame = False
            vt = z3.Const("VT", Ty)
            ctx.assume(z3.Not(Ty.is_TFn(vt)))
            v = obj_of(it, vt, "v")
            try:
                r = it.split(it.call(method(it, l, op), [One(v)]))
            except SymRaise as e:
                ctx.prove(vt != et, f"{what}: an element of the list's element type is accepted", repr(e.value))
                den_eq(it, dsrc(it, l), D_("l"), f"{what}: a refused element leaves the list unchanged")
                return
            ctx.prove(vt == et, f"{what}: only elements of the list's element type")
            ctx.prove(z3.BoolVal(r is l), f"{what}: gives the same object")
            a = [L, One(D_("v"))]
            is_object(it, l, t, DApp(F[op], a if op == "append" else a[::-1]), what)
            den_eq(it, dsrc(it, v), D_("v"), f"{what}: the element is unchanged")
        elif op == "set":
            frame = False
            i, di = idx_arg(it, arg, "i")
            vt = z3.Const("VT", Ty)
            ctx.assume(z3.Not(Ty.is_TFn(vt)))
            v = obj_of(it, vt, "v")
            try:
                it.call(method(it, l, "__setitem__"), [One(i), One(v)])
            except SymRaise as e:
                ctx.prove(vt != et, f"{what}: an element of the list's element type is accepted", repr(e.value))
                den_eq(it, dsrc(it, l), D_("l"), f"{what}: a refused element leaves the list unchanged")
                return
            ctx.prove(vt == et, f"{what}: only elements of the list's element type")
            is_object(it, l, t, DApp("list_set", [L, One(di), One(D_("v"))]), what)
        elif op in ("concat", "eq", "ne"):
            mt = z3.Const("MT", Ty)
            ctx.assume(z3.Or(Ty.is_TList(mt), Ty.is_TMatrix(mt), Ty.is_TTensor3D(mt)))
            m = obj_of(it, mt, "m")
            M = One(D_("m"))
            if op == "concat":
                try:
                    r = it.call(method(it, l, "__add__"), [One(m)])
                except SymRaise as e:
                    ctx.prove(mt != t, f"{what}: lists of one type are accepted", repr(e.value))
                    return
                ctx.prove(mt == t, f"{what}: only lists of one type")
                is_object(it, r, t, DApp("list_concat", [L, M]), what, cls=ir.List if kind == "tensor" else None) if kind != "tensor" else None
            else:
                r = attempt(it, what, method(it, l, f"__{op}__"), m)
                if r is None:
                    return
                same = ctx.branch(mt == t)
                want = DApp("list_eq", [L, M]) if same else DLeaf(B_(z3.BoolVal(False)))
                is_object(it, r, Ty.TBool, DApp("not", [One(want)]) if op == "ne" else want, what)
        if frame:
            den_eq(it, dsrc(it, l), D_("l"), f"{what}: the list is unchanged")
    return unit(body)


def matrix_unit(op, arg):
    def body(it):
        T = z3.Const("T", Ty)
        l, t, et = container(it, "matrix", "l", T)
        L = One(D_("l"))
        what = f"Matrix.{op}"
        i, di = idx_arg(it, arg, "i")
        j, dj = idx_arg(it, arg, "j")
        if op == "transpose":
            r, want, rt = attempt(it, what, method(it, l, op)), DApp("matrix_transpose", [L]), t
        elif op == "col_vec":
            r = attempt(it, what, method(it, l, op), i)
            col = DApp("matrix_col_slice_with_length", [L, One(di), One(dint(1))])
            want, rt = DApp("matrix_get", [One(DApp("matrix_transpose", [One(col)])), One(dint(0))]), et
        else:
            r = attempt(it, what, method(it, l, op), i, j)
            want, rt = DApp("matrix_" + op, [L, One(di), One(dj)]), t
        if r is not None:
            is_object(it, r, rt, want, what)
            den_eq(it, dsrc(it, l), D_("l"), f"{what}: the matrix is unchanged")
    return unit(body)


def empty_unit(cls):
    def body(it):
        T = z3.Const("T", Ty)
        it.ctx.assume(z3.Not(Ty.is_TFn(T)))
        r = attempt(it, "empty", it.getattr(cls, "empty"), SType(T))
        if r is None:
            return
        prim = it.ctx.branch(z3.Or(Ty.is_TInt(T), Ty.is_TBool(T)))
        t = {ir.List: Ty.TList, ir.Matrix: Ty.TMatrix, ir.Tensor3D: Ty.TTensor3D, ir.Set: Ty.TSet}[cls](T)
        f = {ir.List: "list_empty" if prim else "matrix_empty", ir.Matrix: "matrix_empty", ir.Tensor3D: "tensor3d_empty", ir.Set: "set-create"}[cls]
        is_object(it, r, t, DApp(f, []), f"{cls.__name__}.empty")
    return unit(body)


def vec_unit(cls, op, first, second):
    """element-wise and scalar arithmetic; scalars come first in the library call"""
    w = "matrix" if cls is ir.Matrix else "vec"

    def body(it):
        t = (Ty.TMatrix if cls is ir.Matrix else Ty.TList)(Ty.TInt)

        def operand(k, nm):
            if k == "seq":
                return mkobj(it, cls, nm, ir.Int, t=t), D_(nm)
            return idx_arg(it, k, nm)
        a, da = operand(first, "a")
        b, db = operand(second, "b")
        what = f"{cls.__name__}.{op}({first}, {second})"
        if first != "seq" and second != "seq":
            return refused(it, what, it.getattr(cls, op), a, b)
        r = attempt(it, what, it.getattr(cls, op), a, b)
        if r is None:
            return
        if first == second == "seq":
            f, ds = f"{w}_elemwise_{op}", [da, db]
        elif first != "seq":
            f, ds = (f"{w}_scalar_{op}" if op in ("add", "mul") else f"scalar_{w}_{op}"), [da, db]
        else:
            f, ds = f"{w}_scalar_{op}", [db, da]
        is_object(it, r, t, DApp(f, [One(d) for d in ds]), what)
    return unit(body)


def vec_type_unit(cls, op):
    """lists of anything but integers are refused"""
    def body(it):
        T = z3.Const("T", Ty)
        it.ctx.assume(T != Ty.TInt)
        it.ctx.assume(z3.Not(Ty.is_TFn(T)))
        t = (Ty.TMatrix if cls is ir.Matrix else Ty.TList)
        a, b = mkobj(it, cls, "a", SType(T), t=t(T)), mkobj(it, cls, "b", ir.Int, t=t(Ty.TInt))
        c = it.ctx.choose(3)
        refused(it, f"{cls.__name__}.{op} of non-integers", it.getattr(cls, op), *((a, b) if c == 0 else (b, a) if c == 1 else (a, Sym(z3.Int("k")))))
    return unit(body)


def set_unit(op):
    def body(it):
        ctx = it.ctx
        T = z3.Const("T", Ty)
        ctx.assume(z3.Not(Ty.is_TFn(T)))
        t = Ty.TSet(T)
        s = mkobj(it, ir.Set, "s", SType(T), t=t)
        S = One(D_("s"))
        what = f"Set.{op}"
        if op in ("add", "remove", "__contains__", "singleton"):
            vt = z3.Const("VT", Ty)
            ctx.assume(z3.Not(Ty.is_TFn(vt)))
            v = obj_of(it, vt, "v")
            V = One(D_("v"))
            if op == "singleton":
                r = attempt(it, what, it.getattr(ir.Set, op), v)
                if r is not None:
                    is_object(it, r, Ty.TSet(vt), DApp("set-singleton", [V]), what)
                return
            try:
                r = it.call(method(it, s, op), [One(v)])
            except SymRaise as e:
                ctx.prove(z3.BoolVal(False) if op == "__contains__" else vt != T, f"{what}: a member of the set's element type is accepted", repr(e.value))
                return
            if op == "__contains__":
                if ctx.branch(vt == T):
                    is_object(it, r, Ty.TBool, DApp("set-member", [V, S]), what)
                else:
                    is_object(it, r, Ty.TBool, DLeaf(B_(z3.BoolVal(False))), what)
                return
            ctx.prove(vt == T, f"{what}: only members of the set's element type")
            want = DApp("set-insert", [V, S]) if op == "add" else DApp("set-minus", [S, One(DApp("set-singleton", [V]))])
            is_object(it, r, t, want, what)
        elif op in ("union", "difference"):
            mt = z3.Const("MT", Ty)
            ctx.assume(Ty.is_TSet(mt))
            m = obj_of(it, mt, "m")
            try:
                r = it.call(method(it, s, op), [One(m)])
            except SymRaise as e:
                ctx.prove(mt != t, f"{what}: sets of one type are accepted", repr(e.value))
                return
            ctx.prove(mt == t, f"{what}: only sets of one type")
            is_object(it, r, t, DApp("set-union" if op == "union" else "set-minus", [S, One(D_("m"))]), what)
        else:
            m = mkobj(it, ir.Set, "m", SType(T), t=t)
            r = attempt(it, what, method(it, s, op), m)
            if r is None:
                return
            want = DApp("=", [S, One(D_("m"))])
            is_object(it, r, Ty.TBool, DApp("not", [One(want)]) if op == "__ne__" else want, what)
        den_eq(it, dsrc(it, s), D_("s"), f"{what}: the set is unchanged")
    return unit(body)


def tuple_unit(k, lit):
    def body(it):
        ctx = it.ctx
        ts = [z3.Const(f"C{i}", Ty) for i in range(k)]
        for c in ts:
            ctx.assume(z3.Or(Ty.is_TInt(c), Ty.is_TBool(c)))
        l = TyL.nil
        for c in reversed(ts):
            l = TyL.cons(c, l)
        t = Ty.TTuple(l)
        tup = mkobj(it, ir.Tuple, "t", vtuple([SType(c) for c in ts]), t=t)
        ln = it.getattr(tup, "length")
        ctx.prove(z3.BoolVal(ln == k) if isinstance(ln, int) else it.num(ln) == k, "Tuple.length: number of components")
        for i in range(k):
            a = it.call(ir.Int, [One(i)]) if lit else i
            r = attempt(it, "Tuple[]", method(it, tup, "__getitem__"), a)
            if r is not None:
                is_object(it, r, ts[i], DApp("tupleGet", [One(D_("t")), One(dint(i))]), f"Tuple[{i}] of {k}")
        ctx.prove(it.type_term(it.getattr(tup, "type")) == t, "Tuple.type")
    return unit(body)


# ------------------------------------------------------------------------ functions
def create_unit(it):
    t = z3.Const("T", Ty)
    r = attempt(it, "create_object", ir.create_object, SType(t), exp(it, "e", t) if not it.ctx.branch(Ty.is_TFn(t)) else None)
    if it.ctx.must(Ty.is_TFn(t)):
        if r is not None:
            it.ctx.prove(z3.BoolVal(isinstance(r, VObj) and r.cls is ir.Fn), "create_object: function object")
            it.ctx.prove(it.type_term(it.getattr(r, "type")) == t, "create_object: type of the function object")
        return
    if r is not None:
        is_object(it, r, t, D_("e"), "create_object")
        it.ctx.prove(z3.BoolVal(it.getattr(r, "src") is new_obj(it, z3.Const("e", Obj))), "create_object: wraps the given expression")


def create_name(it):
    t = z3.Const("T", Ty)
    s = z3.String("s")
    it.ctx.add(wf_name(s))
    r = attempt(it, "create_object", ir.create_object, SType(t), Rope([Atom(s, "name", None)]))
    if r is not None:
        is_object(it, r, t, DLeaf(envf(s)), "create_object(name)")


def typed_many(it, t, least=1):
    """objects of one type t (class decided by t)"""
    n = z3.Int("nobjs")
    it.ctx.add(n >= least)
    idx = it.idx_for(n)
    e = new_obj(it, z3.Function("oper", z3.IntSort(), Obj)(idx), EXPR, facts=False)
    if t is not None:
        it.ctx.add_univ(n, idx, tyof(e.id) == t)
    return Many(n, idx, e), Many(n, idx, DLeaf(D(e.id)))


def choose_unit(it):
    t = z3.Const("T", Ty)
    it.ctx.assume(z3.Not(Ty.is_TFn(t)))
    m, dm = typed_many(it, t)
    r = attempt(it, "choose", ir.choose, m)
    if r is not None:
        is_object(it, r, t, DApp("choose", [dm]), "choose")


def choose_empty(it):
    refused(it, "choose()", ir.choose)


def ite_unit(kind):
    def body(it):
        t = z3.Const("T", Ty)
        it.ctx.assume(z3.Not(Ty.is_TFn(t)))
        c = bool_obj(it, "c") if kind == "object" else exp(it, "c", Ty.TBool)
        a, b = (obj_of(it, t, "a"), obj_of(it, t, "b")) if kind == "object" else (exp(it, "a", t), exp(it, "b", t))
        r = attempt(it, "ite", ir.ite, c, a, b)
        if r is not None:
            is_object(it, r, t, DApp("ite", [One(D_("c")), One(D_("a")), One(D_("b"))]), f"ite({kind})")
    return unit(body)


def implies_unit(it):
    a, b = bool_obj(it, "a"), bool_obj(it, "b")
    r = attempt(it, "implies", ir.implies, a, b)
    if r is not None:
        is_object(it, r, Ty.TBool, DApp("=>", [One(D_("a")), One(D_("b"))]), "implies")


def call_unit(it):
    t = z3.Const("T", Ty)
    it.ctx.assume(z3.Not(Ty.is_TFn(t)))
    nm = z3.String("fname")
    m, dm = typed_many(it, None, 0)
    x = int_obj(it, "x")
    r = attempt(it, "call", ir.call, Rope([Atom(nm, "name", None)]), SType(t), m, x)
    if r is not None:
        is_object(it, r, t, DApp(nm, [dm, One(D_("x"))]), "call")


def call_value_unit(it):
    l = z3.Const("FT", TyL)
    it.ctx.assume(TyL.is_cons(l))
    it.ctx.assume(z3.Not(Ty.is_TFn(TyL.hd(l))))
    s = z3.String("s")
    it.ctx.add(wf_name(s))
    f = it.call(ir.create_object, [One(SType(Ty.TFn(l))), One(Rope([Atom(s, "name", None)]))])
    m, dm = typed_many(it, None, 0)
    r = attempt(it, "call_value", ir.call_value, f, m)
    if r is not None:
        is_object(it, r, TyL.hd(l), DApp(s, [dm]), "call_value")


def make_tuple_unit(it):
    m, dm = typed_many(it, None, 0)
    r = attempt(it, "make_tuple", ir.make_tuple, m)
    if r is not None:
        t = Ty.TTuple(it.tyl(VList([Many(m.n, m.idx, SType(tyof(m.val.id)))])))
        is_object(it, r, t, DApp("make-tuple", [dm]), "make_tuple")


def decl_unit(fn, cls):
    def body(it):
        m, dm = typed_many(it, None, 0)
        nm = z3.String("fname")
        t = z3.Const("T", Ty)
        e = exp(it, "body", t)
        name = Rope([Atom(nm, "name", None)])
        b = obj_of(it, t, "body") if it.ctx.branch(z3.Not(Ty.is_TFn(t))) else None
        if b is None:
            raise PathEnd()
        a = [name, b, m] if cls is ir.Synth else [name, SType(z3.Const("R", Ty)), b, m]
        r = attempt(it, fn.__name__, fn, *a)
        if r is None:
            return
        r = it.split(r)
        what = fn.__name__
        it.ctx.prove(z3.BoolVal(isinstance(r, VObj) and r.cls is cls), f"{what}: kind of declaration")
        segs = it.seq(it.getattr(r, "args"))
        den_eq(it, DApp("args", sden(it, segs)), DApp("args", [One(DLeaf(STRV(nm))), One(DLeaf(OBJV(e.id))), Many(m.n, m.idx, DLeaf(OBJV(m.val.id)))]), f"{what}: name, body, parameters")
        it.ctx.prove(it.type_term(it.getattr(r, "type")) == (t if cls is ir.Synth else Ty.TFn(TyL.cons(z3.Const("R", Ty), it.tyl(VList([Many(m.n, m.idx, SType(tyof(m.val.id)))]))))), f"{what}: type")
    return unit(body)


def relaxed_unit(it):
    x = int_obj(it, "x")
    r = attempt(it, "maybe_relaxed", method(it, x, "maybe_relaxed"), False)
    if r is not None:
        is_object(it, r, Ty.TInt, D_("x"), "maybe_relaxed(False)")
    r = attempt(it, "maybe_relaxed", method(it, x, "maybe_relaxed"), True)
    if r is not None:
        X = One(D_("x"))
        is_object(it, r, Ty.TInt, DApp("choose", [X, One(DApp("-", [X, One(DLeaf(I_(z3.IntVal(1))))])), One(DApp("+", [X, One(DLeaf(I_(z3.IntVal(1))))]))]), "maybe_relaxed(True)")


def default_unit(it):
    for cls, t, d in ((ir.Int, Ty.TInt, DLeaf(I_(z3.IntVal(0)))), (ir.Bool, Ty.TBool, DLeaf(B_(z3.BoolVal(False)))), (ir.List, Ty.TList(Ty.TInt), DApp("list_empty", [])),
                      (ir.Matrix, Ty.TMatrix(Ty.TInt), DApp("matrix_empty", [])), (ir.Tensor3D, Ty.TTensor3D(Ty.TInt), DApp("tensor3d_empty", []))):
        r = attempt(it, "default_value", it.getattr(cls, "default_value"))
        if r is not None:
            is_object(it, r, t, d, f"{cls.__name__}.default_value")


UNITS = {"Int.maybe_relaxed": unit(relaxed_unit), "default values": unit(default_unit)}
for _k in ("object", "number"):
    for _n, _o in ARITH.items():
        UNITS[f"Int.{_n} {_k}"] = int_op(_n, _o, False, _k)
        UNITS[f"Int.__r{_n[2:]} {_k}"] = int_op("__r" + _n[2:], _o, True, _k)
    for _n, _o in COMP.items():
        UNITS[f"Int.{_n} {_k}"] = int_op(_n, _o, False, _k, Ty.TBool)
    UNITS[f"Int.__ne__ {_k}"] = int_op("__ne__", "=", False, _k, Ty.TBool, neg=True)
    UNITS[f"Bool.__eq__ {_k}"] = bool_op("__eq__", "=", _k)
    UNITS[f"Bool.__ne__ {_k}"] = bool_op("__ne__", "=", _k, neg=True)
for _n in ARITH:
    UNITS[f"Int.{_n} List"] = int_list_op(_n, False)
    UNITS[f"Int.{_n} Matrix"] = int_list_op(_n, True)
UNITS["Int()"] = unit(int_ctor)
UNITS["Bool()"] = unit(bool_ctor)
UNITS["Bool.And"] = bool_nary("And", "and")
UNITS["Bool.Or"] = bool_nary("Or", "or")
UNITS["Bool.Not"] = unit(bool_not)
for _kd in KINDS:
    for _op in ("len", "append", "prepend", "concat", "eq", "ne", "step"):
        UNITS[f"{_kd} {_op}"] = seq_unit(_kd, _op, "object")
    for _op in ("get", "tail", "take", "slice", "slice_with_length", "set"):
        for _k in ("object", "number"):
            UNITS[f"{_kd} {_op} {_k}"] = seq_unit(_kd, _op, _k)
for _op in ("col_slice", "col_slice_with_length", "col_vec", "transpose"):
    for _k in ("object", "number") if _op != "transpose" else ("object",):
        UNITS[f"Matrix.{_op} {_k}"] = matrix_unit(_op, _k)
for _c in (ir.List, ir.Matrix, ir.Tensor3D, ir.Set):
    UNITS[f"{_c.__name__}.empty"] = empty_unit(_c)
for _c in (ir.List, ir.Matrix):
    for _op in ("add", "sub", "mul", "div"):
        for _f, _s in (("seq", "seq"), ("seq", "object"), ("object", "seq"), ("seq", "number"), ("number", "seq"), ("object", "number")):
            UNITS[f"{_c.__name__}.{_op} {_f} {_s}"] = vec_unit(_c, _op, _f, _s)
        UNITS[f"{_c.__name__}.{_op} types"] = vec_type_unit(_c, _op)
for _op in ("add", "remove", "__contains__", "singleton", "union", "difference", "__eq__", "__ne__"):
    UNITS[f"Set.{_op}"] = set_unit(_op)
for _k in (1, 2, 3, 4):
    UNITS[f"Tuple[] of {_k}"] = tuple_unit(_k, False)
    UNITS[f"Tuple[Int] of {_k}"] = tuple_unit(_k, True)
UNITS["create_object"] = unit(create_unit)
UNITS["create_object name"] = unit(create_name)
UNITS["choose"] = unit(choose_unit)
UNITS["choose()"] = unit(choose_empty)
UNITS["ite objects"] = ite_unit("object")
UNITS["ite expressions"] = ite_unit("expression")
UNITS["implies"] = unit(implies_unit)
UNITS["call"] = unit(call_unit)
UNITS["call_value"] = unit(call_value_unit)
UNITS["make_tuple"] = unit(make_tuple_unit)
for _f, _c in ((ir.fn_decl, ir.FnDecl), (ir.fn_decl_recursive, ir.FnDeclRecursive), (ir.synth, ir.Synth)):
    UNITS[_f.__name__] = decl_unit(_f, _c)

BOUNDED = []
ASSUMPTIONS = [
    "the meaning of the library functions named in the calls (list_get, vec_slice, matrix_scalar_sub, ...) is that of the target language's definitions",
    "objects that are operands hold an expression of their own type (their constructors do not check it for containers)",
    "tuple components are integers or booleans where a tuple is indexed; indexing takes a literal index",
]
