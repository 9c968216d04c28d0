"""P09: sorts, type names, Python types and predicates of metalift types."""
import z3
from pyvc.core import *
from pyvc import interp as I
from .irspec import *
import metalift.ir as ir

PID = "P09"
S1 = {ir.List: (Ty.is_TList, Ty.TList, Ty.list_of), ir.Matrix: (Ty.is_TMatrix, Ty.TMatrix, Ty.matrix_of),
      ir.Tensor3D: (Ty.is_TTensor3D, Ty.TTensor3D, Ty.tensor_of), ir.Set: (Ty.is_TSet, Ty.TSet, Ty.set_of)}
SL = {ir.Tuple: (Ty.is_TTuple, Ty.TTuple, Ty.tuple_of), ir.Fn: (Ty.is_TFn, Ty.TFn, Ty.fn_of)}
FN = {"toSMTType": (TYSMT, "tysmt"), "cls_str": (TYSTR, "tystr"), "to_python_type_str": (TYPY, "typy")}

# text of each type in terms of the texts of its parts; a part is (printer, type)
C = lambda m: ("part", m)
SPEC = {
    ("toSMTType", ir.List): ["(MLList ", C("toSMTType"), ")"],
    ("toSMTType", ir.Matrix): ["(MLList (MLList ", C("toSMTType"), "))"],
    ("toSMTType", ir.Tensor3D): ["(MLList (MLList (MLList ", C("toSMTType"), ")))"],
    ("toSMTType", ir.Set): ["(Set ", C("toSMTType"), ")"],
    ("cls_str", ir.List): ["List ", C("cls_str")],
    ("cls_str", ir.Matrix): ["List List ", C("cls_str")],
    ("cls_str", ir.Tensor3D): ["List List List ", C("cls_str")],
    ("cls_str", ir.Set): ["(Set ", C("toSMTType"), ")"],
    ("to_python_type_str", ir.List): ["List[", C("to_python_type_str"), "]"],
    ("to_python_type_str", ir.Matrix): ["List[List[", C("to_python_type_str"), "]]"],
    ("to_python_type_str", ir.Tensor3D): ["List[List[List[", C("to_python_type_str"), "]]]"],
    ("to_python_type_str", ir.Set): ["Set[", C("to_python_type_str"), "]"],
}
PRIM = {("toSMTType", ir.Int): "Int", ("toSMTType", ir.Bool): "Bool", ("cls_str", ir.Int): "Int", ("cls_str", ir.Bool): "Bool",
        ("to_python_type_str", ir.Int): "int", ("to_python_type_str", ir.Bool): "bool"}


def ty_of_args(it, cls, v):
    """the type whose get_args() is v, for a type of class cls"""
    v = it.split(v)
    if isinstance(v, STypeArgs):
        return v.t, (S1.get(cls) or SL[cls])[0](v.t)
    segs = it.seq(v)
    if len(segs) == 1 and isinstance(segs[0], One):
        x = it.split(segs[0].v)
        if cls in S1:
            t = it.type_term(x)
            if t is not None:
                return S1[cls][1](t), z3.BoolVal(True)
        elif isinstance(x, Opaque) and "tyl" in x.attrs:
            return SL[cls][1](x.attrs["tyl"]), z3.BoolVal(True)
    it.unsupported("type arguments")


def contracts():
    c = base_contracts()
    for cls in list(S1) + list(SL):
        for m, (fn, kind) in FN.items():
            f = cls.__dict__.get(m)
            if f is None:
                continue

            def h(it, a, k, cls=cls, fn=fn, kind=kind, m=m, f=f):
                # contract: given get_args of a type of this class, the text of that type
                t, ok = ty_of_args(it, cls, a[0].v if a else VTuple([]))
                if t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and cls in S1:
                    return it.run_func(it.vfunc(f.__func__ if isinstance(f, staticmethod) else f), a, k)
                it.ctx.prove(ok, f"{cls.__name__}.{m} gets the arguments of a {cls.__name__} type")
                return Rope([Atom(fn(t), kind, SType(t))])
            c.by_qual[f"metalift.ir.{cls.__name__}.{m}"] = h
    return c


def parts_of(it, r):
    if isinstance(r, (str, Rope)):
        return rope(r).parts
    it.unsupported(f"text {r!r}")


def defs(t, fn):
    """the printed text of primitive types"""
    return {TYSMT: [(Ty.TInt, "Int"), (Ty.TBool, "Bool")], TYSTR: [(Ty.TInt, "Int"), (Ty.TBool, "Bool")], TYPY: [(Ty.TInt, "int"), (Ty.TBool, "bool")]}[fn]


def add_defs(it):
    for fn in (TYSMT, TYSTR, TYPY):
        for t, s in defs(None, fn):
            it.ctx.add(fn(t) == z3.StringVal(s))


def some(segs):
    """the sequence has an element"""
    return z3.Or([z3.BoolVal(True) if isinstance(s, One) else s.n > 0 for s in segs])


def text_eq(it, got, want, what):
    """two texts made of literals, atoms and joins over a sequence are the same"""
    ctx = it.ctx
    a, b = parts_of(it, got), parts_of(it, want)
    simple = lambda ps: all(isinstance(p, (str, Atom, DecAtom)) for p in ps)
    if simple(a) and simple(b):
        return ctx.prove(it.str_term(Rope(a)) == it.str_term(Rope(b)), what, repr(got))

    def norm(ps):
        # (literal/atom text between joins), joins
        out, cur = [], []
        for p in ps:
            if isinstance(p, (str, Atom, DecAtom)):
                cur.append(p)
            elif isinstance(p, OptSep) and any(isinstance(x, One) for x in p.left) and any(isinstance(x, One) for x in p.right):
                cur.append(p.sep)
            else:
                out.append(cur)
                out.append(p)
                cur = []
        return out + [cur]
    a, b = norm(a), norm(b)
    if len(a) != len(b):
        return ctx.fail(what, repr(got))
    for x, y in zip(a, b):
        if isinstance(x, list):
            if not ctx.prove(it.str_term(Rope(x)) == it.str_term(Rope(y)), what, repr(got)):
                return
        elif isinstance(x, OptSep) and isinstance(y, OptSep):
            ne = lambda o: z3.And(some(o.left), some(o.right))
            if x.sep != y.sep:
                return ctx.fail(what, f"separator {x.sep!r}")
            if not ctx.prove(ne(x) == ne(y), what + " (separator)"):
                return
        elif isinstance(x, JoinPart) and isinstance(y, JoinPart):
            if x.sep != y.sep or x.seg.cond is not None:
                return ctx.fail(what, f"separator {x.sep!r}")
            if not ctx.prove(x.seg.n == y.seg.n, what + " (number of components)"):
                return
            with it.scope(Many(y.seg.n, y.seg.idx, None)):
                v = y.seg.val
                w = subst(x.seg.val, x.seg.idx, y.seg.idx) if not x.seg.idx.eq(y.seg.idx) else x.seg.val
                text_eq(it, w, v, what + " (component)")
        else:
            return ctx.fail(what, repr(got))


def run_method(it, cls, m, args):
    f = it.getattr(cls, m)
    f = it.vfunc(f) if not isinstance(f, VFunc) else f
    return it.run_func(f, [One(VTuple(args))], {})


def s1_unit(cls, m):
    def body(it):
        add_defs(it)
        T = z3.Const("T", Ty)
        if m in ("toSMTType", "cls_str"):
            it.ctx.assume(z3.Not(Ty.is_TFn(T)))
        try:
            r = run_method(it, cls, m, [One(SType(T))])
        except SymRaise as e:
            return it.ctx.fail(f"{m}({cls.__name__}) fails", repr(e.value))
        want = Rope([p if isinstance(p, str) else Atom(FN[p[1]][0](T), FN[p[1]][1], SType(T)) for p in SPEC[m, cls]])
        text_eq(it, r, want, f"{m} of {cls.__name__}[T]")
    return body


def prim_unit(it):
    for (m, cls), s in PRIM.items():
        for args in ([], [One(VTuple([]))]):
            r = it.call(it.getattr(cls, m), args)
            it.ctx.prove(z3.BoolVal(r == s), f"{m} of {cls.__name__}", repr(r))


def tuple_want(it, cls, m, segs, n):
    def txt(mm):
        fn, kind = FN[mm]
        def f(s):
            return Rope([Atom(fn(s.t), kind, s)]) if isinstance(s, SType) else Rope([PRIM[mm, s]])
        return f
    if m == "toSMTType":
        num = DecAtom(n) if z3.is_expr(n) else str(n)
        return Rope(["(Tuple", num, " "] + rope(it.join(" ", it.map_seq(segs, txt("toSMTType")))).parts + [")"])
    if cls is ir.Tuple:
        if m == "cls_str":
            return Rope(["Tuple "] + rope(it.join(" ", it.map_seq(segs, txt("toSMTType")))).parts)
        return Rope(["Tuple["] + rope(it.join(", ", it.map_seq(segs, txt("to_python_type_str")))).parts + ["]"])
    if m == "cls_str":
        return Rope(["Function "] + rope(it.join(" ", it.map_seq(segs, txt("toSMTType")))).parts)
    return Rope(["Callable[["] + rope(it.join(", ", it.map_seq(segs[1:], txt("to_python_type_str")))).parts + ["], "] + rope(txt("to_python_type_str")(segs[0].v)).parts + ["]"])


def sl_unit(cls, m, k):
    """k components; None: any number"""
    def body(it):
        ctx = it.ctx
        add_defs(it)
        if k is None:
            l = z3.Const("L", TyL)
            if cls is ir.Fn:
                ctx.assume(TyL.is_cons(l))
            segs = it.tyl_segs(l)
        else:
            cs = [z3.Const(f"C{i}", Ty) for i in range(k)]
            l = TyL.nil
            for c in reversed(cs):
                l = TyL.cons(c, l)
            segs = [One(SType(c)) for c in cs]
        for s in segs:
            if isinstance(s, One):
                if m != "to_python_type_str":
                    ctx.assume(z3.Not(Ty.is_TFn(s.v.t)))
            elif m != "to_python_type_str":
                ctx.add_univ(s.n, s.idx, z3.Not(Ty.is_TFn(s.val.t)))
        try:
            r = run_method(it, cls, m, [One(Opaque("tuple_alias", {"tyl": l}))])
        except SymRaise as e:
            return ctx.fail(f"{m}({cls.__name__}) fails", repr(e.value))
        n = it.seq_len(segs)
        text_eq(it, r, tuple_want(it, cls, m, segs, k if k is not None else it.num(n)), f"{m} of {cls.__name__}")
    return body


def fn_in_fn(it):
    """function types among the parts of a function type are parenthesised"""
    add_defs(it)
    l, r = z3.Const("L", TyL), z3.Const("R", Ty)
    it.ctx.assume(z3.Not(Ty.is_TFn(r)))
    t = Ty.TFn(l)
    try:
        s = run_method(it, ir.Fn, "cls_str", [One(Opaque("tuple_alias", {"tyl": TyL.cons(r, TyL.cons(t, TyL.nil))}))])
    except SymRaise as e:
        return it.ctx.fail("name of a higher-order function type fails", repr(e.value))
    text_eq(it, s, Rope(["Function ", Atom(TYSMT(r), "tysmt", SType(r)), " (", Atom(TYSTR(t), "tystr", SType(t)), ")"]), "cls_str of a higher-order function type")


def type_str_unit(it):
    it.con.by_qual.pop("metalift.ir.get_type_str", None)
    add_defs(it)
    t = z3.Const("T", Ty)
    r = it.call(ir.get_type_str, [One(SType(t))])
    text_eq(it, r, Rope([Atom(TYSTR(t), "tystr", SType(t))]), "get_type_str is the type's name")
    for c in (ir.Int, ir.Bool):
        it.ctx.prove(z3.BoolVal(it.call(ir.get_type_str, [One(c)]) == c.__name__), f"get_type_str({c.__name__})")


PRED = {
    "is_list_type": lambda t: z3.Or(Ty.is_TList(t), Ty.is_TMatrix(t), Ty.is_TTensor3D(t)),
    "is_matrix_type": Ty.is_TMatrix, "is_tensor3d_type": Ty.is_TTensor3D, "is_set_type": Ty.is_TSet, "is_tuple_type": Ty.is_TTuple,
    "is_fn_decl_type": Ty.is_TFn, "is_primitive_type": lambda t: z3.Or(Ty.is_TInt(t), Ty.is_TBool(t)),
    "is_pointer_type": lambda t: z3.Not(z3.Or(Ty.is_TInt(t), Ty.is_TBool(t))),
    "is_new_object_type": lambda t: z3.BoolVal(True),
}


def pred_unit(name):
    def body(it):
        t = z3.Const("T", Ty)
        try:
            r = it.truth_term(it.call(getattr(ir, name), [One(SType(t))]))
        except SymRaise as e:
            return it.ctx.fail(f"{name} fails", repr(e.value))
        r = z3.BoolVal(r) if isinstance(r, bool) else r
        it.ctx.prove(r == PRED[name](t), name)
        for c, x in ((ir.Int, Ty.TInt), (ir.Bool, Ty.TBool)):
            b = it.truth_term(it.call(getattr(ir, name), [One(c)]))
            it.ctx.prove((z3.BoolVal(b) if isinstance(b, bool) else b) == PRED[name](x), f"{name}({c.__name__})")
    return body


def nested_unit(it):
    t = z3.Const("T", Ty)
    one = z3.Or([s[0](t) for s in S1.values()])
    it.ctx.assume(one)
    try:
        r = it.truth_term(it.call(ir.is_nested_list_type, [One(SType(t))]))
    except SymRaise as e:
        return it.ctx.fail("is_nested_list_type fails", repr(e.value))
    r = z3.BoolVal(r) if isinstance(r, bool) else r
    islist = lambda x: z3.Or(Ty.is_TList(x), Ty.is_TMatrix(x), Ty.is_TTensor3D(x))
    el = z3.If(Ty.is_TList(t), Ty.list_of(t), z3.If(Ty.is_TMatrix(t), Ty.matrix_of(t), Ty.tensor_of(t)))
    it.ctx.prove(r == z3.And(islist(t), islist(el)), "is_nested_list_type: a list type whose element is a list type")


def element_unit(name):
    def body(it):
        t = z3.Const("T", Ty)
        for cls, (is_, mk, sel) in S1.items():
            if it.ctx.branch(is_(t)):
                r = it.type_term(it.call(getattr(ir, name), [One(SType(t))]))
                it.ctx.prove(z3.BoolVal(False) if r is None else r == sel(t), f"{name} of {cls.__name__}")
                return
        raise PathEnd()
    return body


def fn_parts_unit(it):
    l = z3.Const("L", TyL)
    it.ctx.assume(TyL.is_cons(l))
    t = SType(Ty.TFn(l))
    r = it.type_term(it.call(ir.get_fn_return_type, [One(t)]))
    it.ctx.prove(r == TyL.hd(l), "get_fn_return_type: the first type")
    ta = it.call(__import__("typing").get_args, [One(t)])
    r = it.type_term(it.call(it.getattr(ir.Fn, "return_type"), [One(ta)]))
    it.ctx.prove(r == TyL.hd(l), "Fn.return_type: the first type")
    r = it.call(it.getattr(ir.Fn, "argument_types"), [One(ta)])
    it.ctx.prove(it.tyl(r) == TyL.tl(l), "Fn.argument_types: the other types")


def unit(body):
    def run(ctx):
        it = I.Interp(ctx, contracts())
        ctx.explore(lambda: body(it))
    return run


# ---------------------------------------------------------- unambiguity lemmas
# tokens of the texts of SPEC, and a reader of them; proved by induction on types
Tok = z3.Datatype("Tok")
for _n in ("LP", "RP", "tInt", "tBool", "tML", "tSet", "tList", "tTuple", "tFunction"):
    Tok.declare(_n)
Tok.declare("tTupleN", ("arity", z3.IntSort()))
Tok = Tok.create()
TL = z3.Datatype("TL")
TL.declare("tnil")
TL.declare("tcons", ("thd", Tok), ("ttl", TL))
TL = TL.create()
CTy = z3.Datatype("CTy")     # types up to: a matrix is a list of lists
CTyL = z3.Datatype("CTyL")
CTy.declare("CInt")
CTy.declare("CBool")
CTy.declare("CList", ("c_of", CTy))
CTy.declare("CSet", ("cs_of", CTy))
CTy.declare("CTuple", ("ct_of", CTyL))
CTy.declare("CBad")
CTyL.declare("cnil")
CTyL.declare("ccons", ("chd", CTy), ("ctl", CTyL))
CTy, CTyL = z3.CreateDatatypes(CTy, CTyL)
WORD = {"(": Tok.LP, ")": Tok.RP, "MLList": Tok.tML, "Set": Tok.tSet, "Int": Tok.tInt, "Bool": Tok.tBool, "List": Tok.tList, "Tuple": Tok.tTuple}
enc = {m: z3.Function("enc_" + m, Ty, TL, TL) for m in ("toSMTType", "cls_str")}      # tokens of a type, before a rest
encl = z3.Function("encl", TyL, TL, TL)                     # sorts of a list of types, before a rest
canon = z3.Function("canon", Ty, CTy)
canonl = z3.Function("canonl", TyL, CTyL)
size = z3.Function("tsize", TyL, z3.IntSort())
rd_t = {m: z3.Function("rdt_" + m, TL, CTy) for m in enc}
rd_r = {m: z3.Function("rdr_" + m, TL, TL) for m in enc}
rl_t = z3.Function("rlt", z3.IntSort(), TL, CTyL)           # reading n sorts
rl_r = z3.Function("rlr", z3.IntSort(), TL, TL)
ru_t = z3.Function("rut", TL, CTyL)                         # reading sorts up to the end


def tokens(parts, child, rest):
    import re
    seq = []
    for p in parts:
        if isinstance(p, str):
            seq += [WORD[w] for w in re.findall(r"[()]|\w+", p)]
        else:
            seq.append(p)
    out = rest
    for s in reversed(seq):
        out = enc[s[1]](child, out) if isinstance(s, tuple) else TL.tcons(s, out)
    return out


def reader(m, s):
    """defining equation of the reader at the token list s"""
    h, t, t2 = TL.thd(s), TL.ttl(s), TL.ttl(TL.ttl(s))
    ok = TL.is_tcons(s)
    sm, st = rd_t["toSMTType"], rd_r["toSMTType"]
    if m == "toSMTType":
        close = lambda r: z3.And(TL.is_tcons(r), TL.thd(r) == Tok.RP)
        two = z3.And(ok, h == Tok.LP, TL.is_tcons(t))
        n = Tok.arity(TL.thd(t))
        rt = z3.If(z3.And(ok, h == Tok.tInt), CTy.CInt, z3.If(z3.And(ok, h == Tok.tBool), CTy.CBool,
             z3.If(z3.And(two, TL.thd(t) == Tok.tML, close(st(t2))), CTy.CList(sm(t2)),
             z3.If(z3.And(two, TL.thd(t) == Tok.tSet, close(st(t2))), CTy.CSet(sm(t2)),
             z3.If(z3.And(two, Tok.is_tTupleN(TL.thd(t)), close(rl_r(n, t2))), CTy.CTuple(rl_t(n, t2)), CTy.CBad)))))
        rr = z3.If(z3.Or(z3.And(ok, h == Tok.tInt), z3.And(ok, h == Tok.tBool)), t,
             z3.If(z3.And(two, z3.Or(TL.thd(t) == Tok.tML, TL.thd(t) == Tok.tSet)), TL.ttl(st(t2)), TL.ttl(rl_r(n, t2))))
        return z3.And(sm(s) == rt, st(s) == rr)
    ct, cr = rd_t["cls_str"], rd_r["cls_str"]
    return z3.And(
        z3.Implies(z3.And(ok, h == Tok.tInt), z3.And(ct(s) == CTy.CInt, cr(s) == t)),
        z3.Implies(z3.And(ok, h == Tok.tBool), z3.And(ct(s) == CTy.CBool, cr(s) == t)),
        z3.Implies(z3.And(ok, h == Tok.tList), z3.And(ct(s) == CTy.CList(ct(t)), cr(s) == cr(t))),
        z3.Implies(z3.And(ok, h == Tok.LP), z3.And(ct(s) == sm(s), cr(s) == st(s))),
        z3.Implies(z3.And(ok, h == Tok.tTuple), ct(s) == CTy.CTuple(ru_t(t))))


def subterms(e, sort, out):
    if e.sort() == sort:
        out.append(e)
    for c in e.children():
        subterms(c, sort, out)
    return out


def lemma_unit(m):
    """reading the tokens of a type gives the type back: two types with the same
    text are the same type, up to matrices being lists of lists"""
    def run(ctx):
        def body():
            r, x, l = z3.Const("rest", TL), z3.Const("x", Ty), z3.Const("l", TyL)
            ctx.add(size(l) >= 0)

            def good(mm, t, rest):      # induction hypothesis / goal
                e = enc[mm](t, rest)
                return z3.And(rd_t[mm](e) == canon(t), rd_r[mm](e) == rest)

            def show(name, hyps, goal, unfold, text):
                fs = list(hyps) + [reader(mm, s) for mm, s in unfold]
                ctx.prove(z3.Implies(z3.And(fs), goal), f"{text}: {name}")
            dc = {ir.List: lambda c: CTy.CList(c), ir.Matrix: lambda c: CTy.CList(CTy.CList(c)),
                  ir.Tensor3D: lambda c: CTy.CList(CTy.CList(CTy.CList(c))), ir.Set: lambda c: CTy.CSet(c)}
            what = "reading a sort gives its type" if m == "toSMTType" else "reading a type name gives its type"
            for t, w, c in ((Ty.TInt, "Int", CTy.CInt), (Ty.TBool, "Bool", CTy.CBool)):
                s = TL.tcons(WORD[w], r)
                show(w, [enc[m](t, r) == s, canon(t) == c], good(m, t, r), [(m, s)], what)
            for cls, (is_, mk, sel) in S1.items():
                t = mk(x)
                s = tokens(SPEC[m, cls], x, r)
                hyps = [enc[m](t, r) == s, canon(t) == dc[cls](canon(x))]
                subs = [u for u in subterms(s, TL, []) ]
                for u in subs:
                    if u.decl().name().startswith("enc_"):
                        mm = u.decl().name()[4:]
                        hyps.append(good(mm, x, u.arg(1)))
                unfold = [(mm, u) for u in subs if u.decl().name() == "tcons" for mm in ({m, "toSMTType"} if m == "cls_str" else {m})]
                show(cls.__name__, hyps, good(m, t, r), unfold, what)
            # lists of sorts of a known length
            nl = lambda ll, rest: z3.And(rl_t(size(ll), encl(ll, rest)) == canonl(ll), rl_r(size(ll), encl(ll, rest)) == rest)
            rl = lambda n, s: z3.And(rl_t(n, s) == z3.If(n <= 0, CTyL.cnil, CTyL.ccons(rd_t["toSMTType"](s), rl_t(n - 1, rd_r["toSMTType"](s)))),
                                     rl_r(n, s) == z3.If(n <= 0, s, rl_r(n - 1, rd_r["toSMTType"](s))))
            if m == "toSMTType":
                ctx.prove(z3.Implies(z3.And(size(TyL.nil) == 0, encl(TyL.nil, r) == r, canonl(TyL.nil) == CTyL.cnil, rl(z3.IntVal(0), r)), nl(TyL.nil, r)), f"{what}: no components")
                cl = TyL.cons(x, l)
                e = enc[m](x, encl(l, r))
                ctx.prove(z3.Implies(z3.And(size(cl) == size(l) + 1, encl(cl, r) == e, canonl(cl) == CTyL.ccons(canon(x), canonl(l)), nl(l, r), good(m, x, encl(l, r)), rl(size(cl), e)), nl(cl, r)), f"{what}: components")
                t = Ty.TTuple(l)
                inner = encl(l, TL.tcons(Tok.RP, r))
                s = TL.tcons(Tok.LP, TL.tcons(Tok.tTupleN(size(l)), inner))
                show("Tuple", [enc[m](t, r) == s, canon(t) == CTy.CTuple(canonl(l)), nl(l, TL.tcons(Tok.RP, r))], good(m, t, r), [(m, s)], what)
            else:
                # a tuple name extends to the end of the text
                end = TL.tnil
                gl = lambda ll: ru_t(encl(ll, end)) == canonl(ll)
                ru = lambda s: ru_t(s) == z3.If(TL.is_tnil(s), CTyL.cnil, CTyL.ccons(rd_t["toSMTType"](s), ru_t(rd_r["toSMTType"](s))))
                ctx.prove(z3.Implies(z3.And(encl(TyL.nil, end) == end, canonl(TyL.nil) == CTyL.cnil, ru(end)), gl(TyL.nil)), f"{what}: no components")
                cl = TyL.cons(x, l)
                e = enc["toSMTType"](x, encl(l, end))
                ctx.prove(z3.Implies(z3.And(encl(cl, end) == e, TL.is_tcons(e), canonl(cl) == CTyL.ccons(canon(x), canonl(l)), gl(l), good("toSMTType", x, encl(l, end)), ru(e)), gl(cl)), f"{what}: components")
                t = Ty.TTuple(l)
                s = TL.tcons(Tok.tTuple, encl(l, end))
                ctx.prove(z3.Implies(z3.And(enc[m](t, end) == s, canon(t) == CTy.CTuple(canonl(l)), gl(l), reader(m, s)), rd_t[m](enc[m](t, end)) == canon(t)), f"{what}: Tuple")
        ctx.explore(body)
    return run


UNITS = {"Int, Bool": unit(prim_unit), "get_type_str": unit(type_str_unit), "Fn in Fn": unit(fn_in_fn), "is_nested_list_type": unit(nested_unit), "function types": unit(fn_parts_unit)}
for (_m, _c) in SPEC:
    UNITS[f"{_c.__name__}.{_m}"] = unit(s1_unit(_c, _m))
for _c, _ms in ((ir.Tuple, list(FN)), (ir.Fn, ["cls_str", "to_python_type_str"])):
    for _m in _ms:
        UNITS[f"{_c.__name__}.{_m}"] = unit(sl_unit(_c, _m, None))
        for _k in (1, 2, 3):
            UNITS[f"{_c.__name__}.{_m} of {_k}"] = unit(sl_unit(_c, _m, _k))
for _n in PRED:
    UNITS[_n] = unit(pred_unit(_n))
for _n in ("get_element_type", "get_list_element_type"):
    UNITS[_n] = unit(element_unit(_n))
for _m in enc:
    UNITS[f"lemma {_m}"] = lemma_unit(_m)

BOUNDED = ["to_python_type (the typing objects, as opposed to their texts) is compared on concrete types of depth up to 3", "parse_type_ref_to_obj is compared on the table of LLVM type names it knows, struct.tup.1 to struct.tup.8"]
ASSUMPTIONS = ["type arguments are metalift types; function types do not occur inside lists, sets and tuples",
               "the unambiguity lemma is about the token sequence of the texts (splitting at blanks and parentheses)"]
