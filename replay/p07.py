"""every operator of the IR objects on small concrete operands, against a table
of the library operation each stands for, written independently"""
from .lib import *
import itertools
import metalift.ir as ir

I, B = ir.Int, ir.Bool
PRIM = {"PLUS": "Add"}


def ex(o):
    return o.src if isinstance(o, ir.Object) else o


def C(f, t, *a):
    return ir.Call(f, t, *[ex(x) for x in a])


def snap(e):
    return skel(ex(e))


class T:
    """one container under test"""
    def __init__(self, kind, elem):
        self.kind, self.elem = kind, elem
        self.t = {"list": ir.List, "matrix": ir.Matrix, "tensor": ir.Tensor3D, "nested": ir.List}[kind]
        self.ty_ = self.t[elem] if kind != "nested" else ir.List[ir.List[elem]]
        self.et = {"list": elem, "nested": ir.List[elem], "matrix": ir.List[elem], "tensor": ir.Matrix[elem]}[kind]

    def make(self, name="l"):
        return self.t(self.elem if self.kind != "nested" else ir.List[self.elem], name)

    def f(self, op):
        return {"list": dict(get="list_get", tail="list_tail", take="list_take", slice="vec_slice", slen="vec_slice_with_length", append="list_append", prepend="list_prepend", len="list_length"),
                "matrix": dict(get="matrix_get", tail="matrix_tail", take="matrix_take", slice="matrix_row_slice", slen="matrix_row_slice_with_length", append="matrix_append", prepend="matrix_prepend", len="matrix_length"),
                "tensor": dict(get="tensor3d_get", tail="tensor3d_tail", take="tensor3d_take", slice="tensor3d_slice", slen="tensor3d_slice_with_length", append="tensor3d_append", prepend="tensor3d_prepend", len="tensor3d_length")}[
                    "matrix" if self.kind == "nested" else self.kind][op]


def same(a, b):
    """the same expression, types included"""
    if isinstance(a, ir.Expr) != isinstance(b, ir.Expr):
        return False
    if not isinstance(a, ir.Expr):
        return type(a) is type(b) and a == b
    return type(a) is type(b) and a.type == b.type and len(a.args) == len(b.args) and all(same(x, y) for x, y in zip(a.args, b.args))


def origin(t):
    import typing
    return typing.get_origin(t) or t


def check(R, sig, shown, fn, want, operands=()):
    R.case(sig, shown)
    before = [snap(o) for o in operands]
    try:
        r = fn()
    except Exception as e:
        return R.violation(sig, f"{shown} raises", shown, want, repr(e))
    if not isinstance(r, ir.Object):
        return R.violation(sig, f"{shown} gives no object", shown, want, repr(r))
    R.check(same(ex(r), want), sig, f"{shown} builds the wrong expression", shown, f"{want!r}: {want.type}", f"{ex(r)!r}: {ex(r).type}")
    R.check(type(r) is origin(want.type) and r.type == want.type, sig + ":type", f"{shown} gives an object of the wrong type", shown, want.type, f"{type(r).__name__}: {getattr(r, 'type', None)}")
    for o, b in zip(operands, before):
        R.check(snap(o) == b, sig + ":frame", f"{shown} changes an operand", shown, b, snap(o))


def refuse(R, sig, shown, fn):
    R.case(sig, shown)
    try:
        r = fn()
    except Exception:
        return
    R.violation(sig, f"{shown} is accepted", shown, "an exception", repr(r))


def run(R):
    x, y = I("x"), I("y")
    big = I(x + 1 * y - 7) if False else I(ir.Add(x.src, ir.IntLit(3)))
    ints = [(x, x.src), (I(5), ir.IntLit(5)), (big, big.src), (0, ir.IntLit(0)), (1, ir.IntLit(1)), (-3, ir.IntLit(-3)), (255, ir.IntLit(255)), (True, ir.IntLit(1))]
    ops = {"+": (lambda a, b: a + b, ir.Add), "-": (lambda a, b: a - b, ir.Sub), "*": (lambda a, b: a * b, ir.Mul), "//": (lambda a, b: a // b, ir.Div), "%": (lambda a, b: a % b, ir.Mod)}
    cmps = {"==": (lambda a, b: a == b, ir.Eq), ">=": (lambda a, b: a >= b, ir.Ge), ">": (lambda a, b: a > b, ir.Gt), "<": (lambda a, b: a < b, ir.Lt), "<=": (lambda a, b: a <= b, ir.Le)}
    mir = {"==": ir.Eq, ">=": ir.Le, ">": ir.Lt, "<": ir.Gt, "<=": ir.Ge}
    for (a, ea), (b, eb) in itertools.product(ints, repeat=2):
        oa, ob = isinstance(a, I), isinstance(b, I)
        if not (oa or ob):
            continue
        k = f"{'obj' if oa else 'int'},{'obj' if ob else 'int'}"
        for s, (f, cls) in ops.items():
            check(R, f"Int{s}:{k}", f"{a!r} {s} {b!r}", lambda: f(a, b), cls(ea, eb), [v for v in (a, b) if isinstance(v, I)])
        for s, (f, cls) in cmps.items():
            want = cls(ea, eb) if oa else mir[s](eb, ea)
            check(R, f"Int{s}:{k}", f"{a!r} {s} {b!r}", lambda: f(a, b), want)
        check(R, f"Int!=:{k}", f"{a!r} != {b!r}", lambda: a != b, ir.Not(ir.Eq(ea, eb) if oa else ir.Eq(eb, ea)))
        for nm, cls in (("__radd__", ir.Add), ("__rsub__", ir.Sub), ("__rmul__", ir.Mul), ("__rfloordiv__", ir.Div), ("__rmod__", ir.Mod)):
            if oa:
                check(R, f"Int.{nm}:{k}", f"({a!r}).{nm}({b!r})", lambda: getattr(a, nm)(b), cls(eb, ea))
    check(R, "Int()", "Int()", I, ir.Var("v", I))
    check(R, "Int(int)", "Int(-4)", lambda: I(-4), ir.IntLit(-4))
    check(R, "Int(True)", "Int(True)", lambda: I(True), ir.IntLit(1))
    check(R, "Int(str)", "Int('k')", lambda: I("k"), ir.Var("k", I))
    refuse(R, "Int(bool expr)", "Int(Bool expression)", lambda: I(ir.Var("b", B)))
    refuse(R, "Int(list)", "Int([])", lambda: I([]))
    refuse(R, "Bool(int expr)", "Bool(Int expression)", lambda: B(ir.Var("x", I)))
    refuse(R, "Bool(int)", "Bool(3)", lambda: B(3))
    for v in (True, False):
        check(R, "Bool(bool)", f"Bool({v})", lambda: B(v), ir.BoolLit(v))
    check(R, "Bool(str)", "Bool('k')", lambda: B("k"), ir.Var("k", B))
    check(R, "relaxed", "x.maybe_relaxed(True)", lambda: x.maybe_relaxed(True), ir.Choose(x.src, ir.Sub(x.src, ir.IntLit(1)), ir.Add(x.src, ir.IntLit(1))))
    check(R, "relaxed", "x.maybe_relaxed(False)", lambda: x.maybe_relaxed(False), x.src)
    bs = [B(n) for n in "abcde"]
    for k in range(2, 6):
        for perm in (bs[:k], bs[:k][::-1]):
            check(R, f"And{k}", f"And of {k}", lambda: perm[0].And(*perm[1:]), ir.And(*[o.src for o in perm]), perm)
            check(R, f"Or{k}", f"Or of {k}", lambda: perm[0].Or(*perm[1:]), ir.Or(*[o.src for o in perm]), perm)
    refuse(R, "And0", "And()", lambda: bs[0].And())
    refuse(R, "Or0", "Or()", lambda: bs[0].Or())
    refuse(R, "AndInt", "And(Int)", lambda: bs[0].And(x))
    check(R, "Not", "Not", lambda: bs[0].Not(), ir.Not(bs[0].src))
    for b, eb in ((bs[1], bs[1].src), (True, ir.BoolLit(True)), (False, ir.BoolLit(False))):
        check(R, "Bool==", f"a == {b!r}", lambda: bs[0] == b, ir.Eq(bs[0].src, eb))
        check(R, "Bool!=", f"a != {b!r}", lambda: bs[0] != b, ir.Not(ir.Eq(bs[0].src, eb)))
    check(R, "implies", "implies", lambda: ir.implies(bs[0], bs[1]), ir.Implies(bs[0].src, bs[1].src))

    elems = [I, B, ir.Tuple[tuple[I, B]], ir.Set[I]]
    idx = [(x, x.src), (0, ir.IntLit(0)), (1, ir.IntLit(1)), (-1, ir.IntLit(-1)), (7, ir.IntLit(7)), (I(2), ir.IntLit(2)), (big, big.src)]
    kinds = [T(k, e) for k in ("list", "matrix", "tensor", "nested") for e in (elems if k != "tensor" else [I, B])]
    for c in kinds:
        l = c.make()
        n = f"{c.kind} of {ir.get_type_str(c.elem)}"
        check(R, f"{c.kind}:len", f"{n}.len()", l.len, C(c.f("len"), I, l), [l])
        for i, ei in idx:
            check(R, f"{c.kind}:get", f"{n}[{i!r}]", lambda: l[i], C(c.f("get"), c.et, l, ei), [l])
            check(R, f"{c.kind}:tail", f"{n}[{i!r}:]", lambda: l[i:], C(c.f("tail"), c.ty_, l, ei), [l])
            check(R, f"{c.kind}:take", f"{n}[:{i!r}]", lambda: l[:i], C(c.f("take"), c.ty_, l, ei), [l])
            for j, ej in idx:
                check(R, f"{c.kind}:slice", f"{n}[{i!r}:{j!r}]", lambda: l[i:j], C(c.f("slice"), c.ty_, l, ei, ej), [l])
                check(R, f"{c.kind}:slen", f"{n}.slice_with_length({i!r}, {j!r})", lambda: l.slice_with_length(i, j), C(c.f("slen"), c.ty_, l, ei, ej), [l])
            refuse(R, f"{c.kind}:step", f"{n}[{i!r}::2]", lambda: l[i::2])
        m = c.make("m")
        if c.kind != "tensor":
            check(R, f"{c.kind}:concat", f"{n} + itself", lambda: l + m, C("list_concat", c.ty_, l, m), [l, m])
        check(R, f"{c.kind}:eq", f"{n} == itself", lambda: l == m, C("list_eq", B, l, m), [l, m])
        check(R, f"{c.kind}:ne", f"{n} != itself", lambda: l != m, ir.Not(C("list_eq", B, l, m)), [l, m])
        empty = {"list": "list_empty" if c.elem in (I, B) else "matrix_empty", "nested": "matrix_empty", "matrix": "matrix_empty", "tensor": "tensor3d_empty"}[c.kind]
        check(R, f"{c.kind}:empty", f"{n}.empty", lambda: c.t.empty(c.elem if c.kind != "nested" else ir.List[c.elem]), C(empty, c.ty_))
        for d in kinds + [None, "int"]:
            if d == "int":
                v, vt = I("w"), I
            elif d is None:
                v, vt = B("w"), B
            else:
                v = d.make("w")
                vt = d.ty_
            for op in ("append", "prepend", "set"):
                l = c.make()
                src = l.src
                if op == "set":
                    def f():
                        l[1] = v
                        return l
                    want = C("list_set", c.ty_, src, ir.IntLit(1), v)
                else:
                    f = lambda: getattr(l, op)(v)
                    want = C(c.f(op), c.ty_, src, v) if op == "append" else C(c.f(op), c.ty_, v, src)
                if vt == c.et:
                    check(R, f"{c.kind}:{op}", f"{n}.{op}({vt})", f, want, [v])
                    R.check(same(l.src, want), f"{c.kind}:{op}:inplace", f"{op} is in place", n, want, l.src)
                else:
                    refuse(R, f"{c.kind}:{op}:refuse", f"{n}.{op}({vt})", f)
                    R.check(l.src is src, f"{c.kind}:{op}:refused-frame", f"refused {op} leaves the list", n, src, l.src)
            if d not in (None, "int"):
                l = c.make()
                if vt != c.ty_:
                    refuse(R, f"{c.kind}:concat:refuse", f"{n} + {vt}", lambda: l + v)
                    check(R, f"{c.kind}:eq:types", f"{n} == {vt}", lambda: l == v, ir.BoolLit(False))
                    check(R, f"{c.kind}:ne:types", f"{n} != {vt}", lambda: l != v, ir.Not(ir.BoolLit(False)))
        # several in-place operations in a row
        l = c.make()
        if c.kind == "list" and c.elem is I:
            l.append(x)
            l[0] = y
            l.prepend(big)
            R.check(same(l.src, C("list_prepend", c.ty_, big, C("list_set", c.ty_, C("list_append", c.ty_, ir.Var("l", c.ty_), x), ir.IntLit(0), y))), "list:sequence", "append, set, prepend in a row", n, "", l.src)
        if R.over():
            return
    for e in elems:
        mt = ir.Matrix[e]
        m = ir.Matrix(e, "m")
        n = f"matrix of {ir.get_type_str(e)}"
        check(R, "matrix:transpose", n, m.transpose, C("matrix_transpose", mt, m), [m])
        for i, ei in idx:
            check(R, "matrix:col_vec", n, lambda: m.col_vec(i), C("matrix_get", ir.List[e], C("matrix_transpose", mt, C("matrix_col_slice_with_length", mt, m, ei, ir.IntLit(1))), ir.IntLit(0)), [m])
            for j, ej in idx:
                check(R, "matrix:col_slice", n, lambda: m.col_slice(i, j), C("matrix_col_slice", mt, m, ei, ej), [m])
                check(R, "matrix:col_slice_with_length", n, lambda: m.col_slice_with_length(i, j), C("matrix_col_slice_with_length", mt, m, ei, ej), [m])

    for cls, w in ((ir.List, "vec"), (ir.Matrix, "matrix")):
        a, b = cls(I, "a"), cls(I, "b")
        t = cls[I]
        for op in ("add", "sub", "mul", "div"):
            f = getattr(cls, op)
            check(R, f"{w}:{op}:elemwise", f"{cls.__name__}.{op}(a, b)", lambda: f(a, b), C(f"{w}_elemwise_{op}", t, a, b), [a, b])
            check(R, f"{w}:{op}:elemwise", f"{cls.__name__}.{op}(b, a)", lambda: f(b, a), C(f"{w}_elemwise_{op}", t, b, a), [a, b])
            sc = f"{w}_scalar_{op}" if op in ("add", "mul") else f"scalar_{w}_{op}"
            for i, ei in idx:
                check(R, f"{w}:{op}:scalar-right", f"{cls.__name__}.{op}(a, {i!r})", lambda: f(a, i), C(f"{w}_scalar_{op}", t, ei, a), [a])
                check(R, f"{w}:{op}:scalar-left", f"{cls.__name__}.{op}({i!r}, a)", lambda: f(i, a), C(sc, t, ei, a), [a])
                if isinstance(i, I):
                    g = {"add": lambda: i + a, "sub": lambda: i - a, "mul": lambda: i * a, "div": lambda: i // a}[op]
                    check(R, f"Int {op} {w}", f"{i!r} {op} {cls.__name__}", g, C(sc, t, ei, a), [a])
            refuse(R, f"{w}:{op}:scalars", f"{cls.__name__}.{op}(1, x)", lambda: f(1, x))
            refuse(R, f"{w}:{op}:bool", f"{cls.__name__}.{op}(bool list)", lambda: f(cls(B, "c"), a))
            refuse(R, f"{w}:{op}:bool", f"{cls.__name__}.{op}(bool list)", lambda: f(a, cls(B, "c")))
            refuse(R, f"{w}:{op}:bool", f"{cls.__name__}.{op}(a, Bool)", lambda: f(a, B("c")))
        refuse(R, f"Int % {w}", "Int % list", lambda: x % a)

    for e in [I, B, ir.List[I], ir.Tuple[tuple[I, B]]]:
        st = ir.Set[e]
        s, s2 = ir.Set(e, "s"), ir.Set(e, "s2")
        v = ir.create_object(e, "v")
        n = f"Set of {ir.get_type_str(e)}"
        check(R, "Set:add", n, lambda: s.add(v), C("set-insert", st, v, s), [s, v])
        check(R, "Set:remove", n, lambda: s.remove(v), C("set-minus", st, s, C("set-singleton", st, v)), [s, v])
        check(R, "Set:singleton", n, lambda: ir.Set.singleton(v), C("set-singleton", st, v), [v])
        check(R, "Set:union", n, lambda: s.union(s2), C("set-union", st, s, s2), [s, s2])
        check(R, "Set:difference", n, lambda: s.difference(s2), C("set-minus", st, s, s2), [s, s2])
        check(R, "Set:contains", n, lambda: s.__contains__(v), C("set-member", B, v, s), [s, v])
        check(R, "Set:eq", n, lambda: s == s2, ir.Eq(s.src, s2.src), [s, s2])
        check(R, "Set:ne", n, lambda: s != s2, ir.Not(ir.Eq(s.src, s2.src)), [s, s2])
        check(R, "Set:empty", n, lambda: ir.Set.empty(e), C("set-create", st))
        w = ir.Set(ir.Set[I], "w") if e is not I else B("w")
        refuse(R, "Set:add:refuse", n, lambda: s.add(w))
        refuse(R, "Set:remove:refuse", n, lambda: s.remove(w))
        check(R, "Set:contains:types", n, lambda: s.__contains__(w), ir.BoolLit(False))
        o = ir.Set(ir.Set[I], "o")
        refuse(R, "Set:union:refuse", n, lambda: s.union(o))
        refuse(R, "Set:difference:refuse", n, lambda: s.difference(o))

    for k in range(1, 6):
        for ts in itertools.product((I, B), repeat=k):
            t = ir.Tuple(ts, "t")
            tt = ir.Tuple[tuple[ts]]
            R.check(t.length == k and t.type == tt, "Tuple:length", "length of a tuple", ts, k, t.length)
            for i in range(k):
                check(R, "Tuple[]", f"tuple of {k}[{i}]", lambda: t[i], C("tupleGet", ts[i], t, ir.IntLit(i)), [t])
                check(R, "Tuple[Int]", f"tuple of {k}[Int({i})]", lambda: t[I(i)], C("tupleGet", ts[i], t, ir.IntLit(i)), [t])
            os = [ir.create_object(c, f"c{i}") for i, c in enumerate(ts)]
            check(R, "make_tuple", f"make_tuple of {k}", lambda: ir.make_tuple(*os), ir.TupleExpr(*[o.src for o in os]), os)
            R.check(ir.make_tuple_type(*ts) == tt, "make_tuple_type", "make_tuple_type", ts, tt, ir.make_tuple_type(*ts))
            ft = ir.make_fn_type(*ts)
            f = ir.create_object(ft, "f")
            R.check(type(f) is ir.Fn and f.type == ft and same(f.src, ir.Var("f", ft)), "create_object:Fn", "function object", ts, ft, f.type)
            check(R, "call_value", f"call of a function object {k}", lambda: ir.call_value(f, *os), ir.CallValue(f.src, *[o.src for o in os]), os)
            check(R, "call", f"call {k}", lambda: ir.call("f", ts[0], *os), C("f", ts[0], *os), os)
            check(R, "call", f"call {k} on expressions", lambda: ir.call("f", tt, *[o.src for o in os]), C("f", tt, *os), os)
            for fn, cls in ((ir.fn_decl, ir.FnDecl), (ir.fn_decl_recursive, ir.FnDeclRecursive)):
                R.case(fn.__name__)
                d = fn("f", ts[-1], os[0], *os)
                R.check(same(d, cls("f", ts[-1], os[0].src, *[o.src for o in os])), fn.__name__, "declaration", ts, "", d.args)
            d = ir.synth("f", os[0], *os)
            R.check(same(d, ir.Synth("f", os[0].src, *[o.src for o in os])), "synth", "synth", ts, "", d.args)
    types = [c.ty_ for c in kinds] + elems + [I, B, ir.Tuple[tuple[I, I, B]], ir.Set[ir.List[I]]]
    for t in types:
        v = ir.Var("e", t)
        check(R, "create_object", f"create_object({t})", lambda: ir.create_object(t, v), v)
        check(R, "create_object:name", f"create_object({t}, name)", lambda: ir.create_object(t, "nm"), ir.Var("nm", t))
        os = [ir.create_object(t, f"c{i}") for i in range(4)]
        for k in (1, 2, 4):
            check(R, "choose", f"choose of {k} {t}", lambda: ir.choose(*os[:k]), ir.Choose(*[o.src for o in os[:k]]), os)
            check(R, "choose", f"choose of {k} {t} expressions", lambda: ir.choose(*[o.src for o in os[:k]]), ir.Choose(*[o.src for o in os[:k]]), os)
        check(R, "ite", f"ite {t}", lambda: ir.ite(bs[0], os[0], os[1]), ir.Ite(bs[0].src, os[0].src, os[1].src), os)
        check(R, "ite", f"ite {t}", lambda: ir.ite(bs[0].src, os[0].src, os[1].src), ir.Ite(bs[0].src, os[0].src, os[1].src), os)
    refuse(R, "choose0", "choose()", ir.choose)
    refuse(R, "choose:types", "choose of two types", lambda: ir.choose(x, bs[0]))
