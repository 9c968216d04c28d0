"""P19: the problem handed to Rosette (rosette_translator, Synth.to_rosette,
Synth.toSMT)."""
import z3
from pyvc.core import *
from pyvc import interp as I
from .irspec import *
from .smtparse import *
from .p04 import vden_args, image
from .p16 import seq_of, text, whole, head, file_model, bind, den_eq
import metalift.ir as ir
import metalift.rosette_translator as rt

PID = "P19"
ASSUMPTIONS = [
    "declarations of element variables are those of the contract of gen_var (induction over the type)",
    "a variable's name and its names for elements are Rosette identifiers (P02)",
]
BOUNDED = []
UNITS = {}
KINDS = ("ros", "decl", "text")
DECL = z3.Function("declares", z3.StringSort(), Ty, z3.StringSort())
NAMES = z3.Function("constants_of", z3.StringSort(), Ty, z3.StringSort())
S_ = z3.StringVal


def unit(name):
    def d(f):
        def run(ctx):
            con = base_contracts()
            it = I.Interp(ctx, con)
            ctx.explore(lambda: f(it, con))
        UNITS[name] = run
        return f
    return d


def attempt(it, what, f):
    try:
        return [f()]
    except SymRaise as e:
        it.ctx.fail(f"{what}: raises no exception", repr(e.value))


def parse(it, r, what):
    try:
        return parse_rope(it, r if isinstance(r, Rope) else rope(r), KINDS)
    except ParseError as e:
        it.ctx.fail(f"{what}: it is a sequence of s-expressions", str(e))


def tokt(it, x):
    """the symbol x"""
    if not isinstance(x, Tok):
        raise ParseError(f"symbol expected instead of {x!r}")
    return tok_z3(it, x)


def is_list(x, n=None, h=None):
    return isinstance(x, SList) and (n is None or len(x.items) == n) and (h is None or head(x) == h)


def same_tokens(it, xs, want, what):
    """xs: parsed symbols (or Seg of one symbol); want: list of z3 strings, or
    (n, idx, term) for one symbol for every index"""
    xs = list(xs)
    xs = [x for x in xs if not (isinstance(x, Seg) and it.ctx.must(x.many.n == 0))]
    want = [w for w in want if not (isinstance(w, tuple) and it.ctx.must(w[0] == 0))]
    if len(xs) != len(want):
        return it.ctx.fail(what, f"{xs!r} instead of {want!r}")
    for x, w in zip(xs, want):
        if isinstance(w, tuple):
            if not (isinstance(x, Seg) and len(x.exprs) == 1 and isinstance(x.exprs[0], Tok) and x.many.cond is None):
                return it.ctx.fail(what, f"{x!r} instead of {w!r}")
            it.ctx.prove(x.many.n == w[0], what)
            it.ctx.prove(z3.Implies(z3.And(w[1] >= 0, w[1] < w[0]), z3.substitute(tokt(it, x.exprs[0]), (x.many.idx, w[1])) == w[2]), what)
        elif not isinstance(x, Tok):
            return it.ctx.fail(what, f"{x!r} instead of {w!r}")
        else:
            it.ctx.prove(tokt(it, x) == w, what)


# ---- variables -------------------------------------------------------------------------
QV = "metalift.rosette_translator.gen_var"


def inner_gen(it, con, bound, what):
    """gen_var: the function itself for the variable under verification, its contract
    for the variables of the elements; the lists grow by what the contract says"""
    st = {}

    def h(it, a, k):
        d = bind(rt.gen_var, a, k)
        if not st:
            st["in"] = True
            st["decls"], st["all"] = it.split(d["decls"]), it.split(d["vars_all"])
            return it.run_func(it.vfunc(rt.gen_var), a, k)
        v = it.split(d["v"])
        nm = it.str_term(rope(it.split(it.seq(it.getattr(v, "args"))[0].v)))
        ty = it.type_term(it.getattr(v, "type"))
        if ty is None:
            it.ctx.fail(f"{what}: elements have the types of the elements", repr(it.getattr(v, "type")))
            raise PathEnd()
        it.ctx.prove(z3.BoolVal(it.split(d["decls"]) is st["decls"] and it.split(d["vars_all"]) is st["all"]), f"{what}: elements are declared with the others")
        it.ctx.prove(it.num(it.split(d["list_bound"])) == it.num(bound), f"{what}: elements have the same bound")
        it.call(it.getattr(st["decls"], "append"), [One(Rope([Atom(DECL(nm, ty), "decl", ("decl", nm, ty))]))])
        it.call(it.getattr(st["all"], "append"), [One(Rope([Atom(NAMES(nm, ty), "names", ("names", nm, ty))]))])
    con.by_qual[QV] = h


def entries(it, l, what, kind):
    """contents of the list: [("decl"/"names", z3 name, z3 type, Many or None) | s-expressions]"""
    out = []
    for s in it.seq(l):
        m, v = (s, s.val) if isinstance(s, Many) else (None, it.split(s.v))
        ps = rope(v).parts
        if len(ps) == 1 and isinstance(ps[0], Atom) and ps[0].kind == kind:
            out.append((kind, ps[0].ref[1], ps[0].ref[2], m))
        else:
            out.append(("text", v, None, m))
    return out


def declared(it, decls, names, want, tail, what):
    """decls are the declarations of the variables `want` (list of (name, type) or
    (n, idx, name, type)), then the text `tail`; names their constants"""
    ctx = it.ctx
    for nm, l, kind in (("the declarations", decls, "decl"), ("the constants", names, "names")):
        xs = entries(it, l, what, kind)
        if kind == "decl":
            if not xs or xs[-1][0] != "text" or xs[-1][3] is not None:
                return ctx.fail(f"{what}: the variable is defined last", repr(xs))
            last = xs.pop()
        xs = [x for x in xs if not (x[3] is not None and ctx.must(x[3].n == 0))]
        w_ = [w for w in want if not (len(w) == 4 and ctx.must(w[0] == 0))]
        if len(xs) != len(w_) or any(x[0] != kind for x in xs):
            return ctx.fail(f"{what}: {nm} are those of the elements", f"{xs!r} instead of {w_!r}")
        left = list(w_)
        for k, n, t, m in xs:
            # in any order
            hit = None
            for w in left:
                if m is None and len(w) == 2:
                    if ctx.must(z3.And(n == w[0], t == w[1])):
                        hit = w
                elif m is not None and len(w) == 4 and m.cond is None:
                    s = (m.idx, w[1])
                    if ctx.must(m.n == w[0]) and ctx.must(z3.And(z3.substitute(n, s) == w[2], z3.substitute(t, s) == w[3])):
                        hit = w
                if hit is not None:
                    break
            if hit is None:
                ctx.fail(f"{what}: {nm} are those of the elements", f"{n} {t} not in {left!r}")
                return
            left.remove(hit)
        ctx.prove(z3.BoolVal(True), f"{what}: {nm} are those of the elements")
    return last[1]


def int_str(it, i):
    return it.str_term(rope(it.to_str(Sym(i)))) if hasattr(it, "to_str") else None


def new_var(it, ty):
    nm = z3.String("v_name")
    it.ctx.add(wf_name(nm))
    return it.call(ir.Var, [One(Rope([Atom(nm, "name")])), One(SType(ty))]), nm


def defined(it, r, nm, what):
    """the expression a define gives the name"""
    xs = parse(it, r, what)
    if xs is None:
        return None
    if len(xs) != 1 or not is_list(xs[0], 3, "define"):
        return it.ctx.fail(f"{what}: one definition", repr(xs))
    it.ctx.prove(tokt(it, xs[0].items[1]) == nm if isinstance(xs[0].items[1], Tok) else z3.BoolVal(False), f"{what}: the variable itself is defined")
    return xs[0].items[2]


def scalar(con_ty, pred):
    what = f"gen_var[{'Int' if pred == 'integer?' else 'Bool'}]"

    @unit(what)
    def u(it, con):
        ctx = it.ctx
        v, nm = new_var(it, con_ty)
        decls, names = VList([]), VList([])
        n = z3.Int("bound")
        ctx.add(n >= 0)
        if not attempt(it, what, lambda: it.call(rt.gen_var, [One(v), One(decls), One(names), One(Sym(n))])):
            return
        ds, ns = it.seq(decls), it.seq(names)
        if len(ds) != 1 or len(ns) != 1:
            return ctx.fail(f"{what}: one constant", f"{ds} {ns}")
        xs = parse(it, it.split(ds[0].v), what)
        if not xs or len(xs) != 1 or not is_list(xs[0], 3, "define-symbolic"):
            return ctx.fail(f"{what}: a symbolic constant", repr(xs))
        same_tokens(it, xs[0].items[1:], [nm, S_(pred)], f"{what}: its name and type")
        ctx.prove(it.str_term(rope(it.split(ns[0].v))) == nm, f"{what}: the solution is for all its values")


scalar(Ty.TInt, "integer?")
scalar(Ty.TBool, "boolean?")


def with_index(it, nm, mid, i):
    r = it.call(str, [One(Sym(i) if not isinstance(i, int) else i)])
    return z3.Concat(nm, S_(mid), it.str_term(rope(it.split(r))))


def sequence(cls, mk):
    what = f"gen_var[{cls.__name__}]"

    @unit(what)
    def u(it, con):
        ctx = it.ctx
        elem = z3.Const("elem", Ty)
        v, nm = new_var(it, mk(elem))
        n = z3.Int("bound")
        ctx.add(n >= 0)
        inner_gen(it, con, Sym(n), what)
        decls, names = VList([]), VList([])
        if not attempt(it, what, lambda: it.call(rt.gen_var, [One(v), One(decls), One(names), One(Sym(n))])):
            return
        i = it.idx_for(n)
        ln = z3.Concat(nm, S_("_BOUNDEDSET-len"))
        el = with_index(it, nm, "_BOUNDEDSET-", i)
        r = declared(it, decls, names, [(ln, Ty.TInt), (n, i, el, elem)], None, what)
        if r is None:
            return
        x = defined(it, r, nm, what)
        if x is None:
            return
        if cls is ir.Set:
            if not (is_list(x, 3, "sort") and isinstance(x.items[2], Tok) and x.items[2].text() == "<" and is_list(x.items[1], 2, "remove-duplicates")):
                return ctx.fail(f"{what}: a sorted list without duplicates", repr(x))
            x = x.items[1].items[1]
        if not (is_list(x, 3, "take") and is_list(x.items[1], None, "list")):
            return ctx.fail(f"{what}: as many elements as its length says", repr(x))
        same_tokens(it, [x.items[2]], [ln], f"{what}: its length")
        same_tokens(it, x.items[1].items[1:], [(n, i, el)], f"{what}: its elements, in order")


sequence(ir.List, Ty.TList)
sequence(ir.Set, Ty.TSet)


def block(cls, mk, N):
    """a matrix (tensor) with bound N; the element type is arbitrary"""
    dims = 2 if cls is ir.Matrix else 3
    what = f"gen_var[{cls.__name__}], bound {N}"

    @unit(what)
    def u(it, con):
        ctx = it.ctx
        elem = z3.Const("elem", Ty)
        v, nm = new_var(it, mk(elem))
        inner_gen(it, con, N, what)
        decls, names = VList([]), VList([])
        if not attempt(it, what, lambda: it.call(rt.gen_var, [One(v), One(decls), One(names), One(N)])):
            return
        ln = z3.Concat(nm, S_("_BOUNDEDSET-len"))
        els = [with_index(it, nm, "_BOUNDEDSET-", i) for i in range(N ** dims)]
        r = declared(it, decls, names, [(ln, Ty.TInt)] + [(e, elem) for e in els], None, what)
        x = defined(it, r, nm, what) if r is not None else None
        if x is None:
            return
        if not (is_list(x, 3, "take") and is_list(x.items[1], N + 1, "list")):
            return ctx.fail(f"{what}: as many rows as its length says, of {N}", repr(x))
        same_tokens(it, [x.items[2]], [ln], f"{what}: its length")

        def walk(y, d, base):
            if d == 0:
                return same_tokens(it, [y], [els[base]], f"{what}: its elements, in order")
            if not is_list(y, N + 1, "list"):
                return ctx.fail(f"{what}: {N} elements a row", repr(y))
            for i, z in enumerate(y.items[1:]):
                walk(z, d - 1, base + i * N ** (d - 1))
        for i, z in enumerate(x.items[1].items[1:]):
            walk(z, dims - 1, i * N ** (dims - 1))


for _n in range(1, 5):
    block(ir.Matrix, Ty.TMatrix, _n)
for _n in range(1, 4):
    block(ir.Tensor3D, Ty.TTensor3D, _n)
BOUNDED.append("gen_var of a matrix or tensor: list bounds up to 4 (matrices) and 3 (tensors); lists, sets and scalars have arbitrary bounds")


def tuples(k):
    what = f"gen_var[Tuple of {k}]"

    @unit(what)
    def u(it, con):
        ctx = it.ctx
        ts = [z3.Const(f"T{i}", Ty) for i in range(k)]
        l = TyL.nil
        for t in reversed(ts):
            l = TyL.cons(t, l)
        v, nm = new_var(it, Ty.TTuple(l))
        n = z3.Int("bound")
        ctx.add(n >= 0)
        inner_gen(it, con, Sym(n), what)
        decls, names = VList([]), VList([])
        if not attempt(it, what, lambda: it.call(rt.gen_var, [One(v), One(decls), One(names), One(Sym(n))])):
            return
        els = [z3.Concat(nm, S_(f"_TUPLE-{i}")) for i in range(k)]
        r = declared(it, decls, names, list(zip(els, ts)), None, what)
        x = defined(it, r, nm, what) if r is not None else None
        if x is None:
            return
        if not is_list(x, None, "list"):
            return ctx.fail(f"{what}: a list of its components", repr(x))
        same_tokens(it, x.items[1:], els, f"{what}: its components, in order")


for _n in range(1, 5):
    tuples(_n)
BOUNDED.append("gen_var of a tuple: up to four components (their types arbitrary)")


# ---- all variables ------------------------------------------------------------------------
def unit_vars(k):
    what = f"generate_vars, {k} variables"

    @unit(what)
    def u(it, con):
        ctx = it.ctx
        n = z3.Int("bound")
        ctx.add(n >= 0)
        vs = [new_obj(it, z3.Const(f"var{i}", Obj), (ir.Var,)) for i in range(k)]
        for v in vs:
            ctx.assume(clsof(v.id) == it.con.code(ir.Var))
            it.getattr(v, "args")
        if k > 1:
            ctx.assume(z3.Distinct(*[nameof(v.id) for v in vs]))

        def gen(it, a, kw):
            d = bind(rt.gen_var, a, kw)
            v = it.split(d["v"])
            it.ctx.prove(it.num(it.split(d["list_bound"])) == n, f"{what}: the bound is the one given")
            it.call(it.getattr(it.split(d["decls"]), "append"), [One(Rope([Atom(DECL(nameof(v.id), tyof(v.id)), "decl", v)]))])
            it.call(it.getattr(it.split(d["vars_all"]), "append"), [One(Rope([Atom(NAMES(nameof(v.id), tyof(v.id)), "names", v)]))])
        con.by_qual[QV] = gen
        arg = it.as_vset(set())
        for v in vs:
            it.call(it.getattr(arg, "add"), [One(v)])
        r = attempt(it, what, lambda: it.call(rt.generate_vars, [One(arg), One(Sym(n))]))
        if not r:
            return
        r = it.seq(it.split(r[0]))
        xs = parse(it, it.split(r[0].v), what)
        if xs is None:
            return
        ids = [x.ref.id for x in xs if isinstance(x, Atom) and x.kind == "decl"]
        ctx.prove(z3.BoolVal(len(ids) == len(xs) == k and {str(i) for i in ids} == {str(v.id) for v in vs}), f"{what}: every variable is declared once")
        ns = [rope(it.split(s.v)).parts for s in it.seq(it.split(r[1].v))]
        ids = [p[0].ref.id for p in ns if len(p) == 1 and isinstance(p[0], Atom) and p[0].kind == "names"]
        ctx.prove(z3.BoolVal(len(ids) == len(ns) == k and {str(i) for i in ids} == {str(v.id) for v in vs}), f"{what}: the constants of every variable are listed once")


for _n in range(4):
    unit_vars(_n)
BOUNDED.append("generate_vars: sets of up to three variables")


# ---- functions to synthesize ----------------------------------------------------------------
def fn_seq(it, name, cls):
    """any number of functions with any number of parameters"""
    m = seq_of(it, name, (cls,))
    it.ctx.add_univ(m.n, m.idx, clsof(m.val.id) == it.con.code(cls))
    return m


PARAM = z3.Function("param_of", Obj, z3.IntSort(), Obj)


def concrete(it, cls, nm):
    """a function with any name, body and number of parameters"""
    ctx = it.ctx
    name, n = z3.String("name_" + nm), z3.Int("n_" + nm)
    ctx.add(z3.And(n >= 0, wf_name(name)))
    idx = it.idx_for(n)
    par = VObj((ir.Var,), z3.Function("param_" + nm, z3.IntSort(), Obj)(idx), {}, lazy=True, sort="expr")
    ctx.add_univ(n, idx, z3.And(clsof(par.id) == it.con.code(ir.Var), wf_name(nameof(par.id))))
    body = new_obj(it, z3.Const("body_" + nm, Obj))
    nmr = Rope([Atom(name, "name")])
    if cls is ir.Synth:
        o = it.call(cls, [One(nmr), One(body), Many(n, idx, par)])
    else:
        o = it.call(cls, [One(nmr), One(SType(z3.Const("ret_" + nm, Ty))), One(body), Many(n, idx, par)])
    return o, name, (n, idx, nameof(par.id)), body.id


def as_params(it, xs):
    """parameters printed with to_rosette are their names"""
    out = []
    for x in xs:
        if isinstance(x, Seg) and len(x.exprs) == 1 and isinstance(x.exprs[0], Atom) and x.exprs[0].kind == "ros":
            x = Seg(x.many, [Tok([Atom(nameof(x.exprs[0].ref.id), "name")])])
        out.append(x)
    return out


def instance(it, x, name, par, what):
    """(define (name pars) (name_gram pars #:depth d))"""
    if not (is_list(x, 3, "define") and is_list(x.items[1]) and is_list(x.items[2])):
        return it.ctx.fail(f"{what}: an instance of the grammar", repr(x))
    pars = par if isinstance(par, list) else [par]
    same_tokens(it, as_params(it, x.items[1].items), [name] + pars, f"{what}: the function has its name and parameters")
    g = list(x.items[2].items)
    kws = [i for i, y in enumerate(g) if isinstance(y, Tok) and y.text() == "#:depth"]
    if len(kws) != 1 or kws[0] + 1 >= len(g) or not (isinstance(g[kws[0] + 1], Tok) and (g[kws[0] + 1].text() or "").isdigit()):
        return it.ctx.fail(f"{what}: the depth of the grammar", repr(x))
    it.ctx.prove(z3.BoolVal(int(g[kws[0] + 1].text()) >= 10), f"{what}: grammars are unfolded to depth 10 at least")
    del g[kws[0]:kws[0] + 2]
    same_tokens(it, as_params(it, g), [z3.Concat(name, S_("_gram"))] + pars, f"{what}: it is an instance of its own grammar with its own parameters")


def unit_inv_ps(classes):
    what = f"generate_inv_ps[{' '.join(c.__name__ for c in classes)}]"

    @unit(what)
    def u(it, con):
        fs = [concrete(it, c, f"g{i}") for i, c in enumerate(classes)]
        r = attempt(it, what, lambda: it.call(rt.generate_inv_ps, [One(VList([One(f[0]) for f in fs]))]))
        xs = parse(it, it.split(r[0]), what) if r else None
        if xs is None:
            return
        if len(xs) != len(fs):
            return it.ctx.fail(f"{what}: one definition per function", repr(xs))
        for x, (_, name, par, _) in zip(xs, fs):
            instance(it, x, name, par, what)
        it.ctx.prove(z3.BoolVal(True), f"{what}: one definition per function")


for _c in ([], [ir.Synth], [ir.Synth, ir.Synth], [ir.FnDecl], [ir.FnDeclRecursive], [ir.Synth, ir.FnDecl, ir.Synth]):
    unit_inv_ps(_c)


@unit("generate_inv_ps[CodeInfo]")
def inv_ps_info(it, con):
    what = "generate_inv_ps[CodeInfo]"
    from metalift.analysis import CodeInfo
    name = z3.String("name_info")
    it.ctx.add(wf_name(name))
    ms = []
    for nm in ("changed", "read"):
        m = seq_of(it, nm, (ir.Var,))
        it.ctx.add_univ(m.n, m.idx, z3.And(clsof(m.val.id) == it.con.code(ir.Var), wf_name(nameof(m.val.id))))
        ms.append(m)
    o = it.call(CodeInfo, [One(Rope([Atom(name, "name")])), One(ir.Bool), One(VList([ms[0]])), One(VList([ms[1]]))])
    g = concrete(it, ir.Synth, "g")
    r = attempt(it, what, lambda: it.call(rt.generate_inv_ps, [One(VList([One(o), One(g[0])]))]))
    xs = parse(it, it.split(r[0]), what) if r else None
    if xs is None:
        return
    if len(xs) != 2:
        return it.ctx.fail(f"{what}: one definition per function", repr(xs))
    instance(it, xs[0], name, [(m.n, m.idx, nameof(m.val.id)) for m in ms], what)
    instance(it, xs[1], g[1], g[2], what)


@unit("generate_inv_ps, any number of functions")
def inv_ps_many(it, con):
    what = "generate_inv_ps"
    m = fn_seq(it, "synth", ir.Synth)
    r = attempt(it, what, lambda: it.call(rt.generate_inv_ps, [One(VList([m]))]))
    xs = parse(it, it.split(r[0]), what) if r else None
    if xs is None:
        return
    if not xs:
        return it.ctx.prove(m.n == 0, f"{what}: one definition per function")
    if len(xs) != 1 or not isinstance(xs[0], Seg) or len(xs[0].exprs) != 1:
        return it.ctx.fail(f"{what}: one definition per function", repr(xs))
    x = xs[0]
    it.ctx.prove(x.many.n == m.n, f"{what}: one definition per function")
    it.ctx.prove(z3.BoolVal(x.many.cond is None), f"{what}: every function is defined")
    d = x.exprs[0]
    if not (is_list(d, 3, "define") and is_list(d.items[1]) and d.items[1].items):
        return it.ctx.fail(f"{what}: a definition", repr(d))
    t = (x.many.idx, m.idx)
    it.ctx.prove(z3.substitute(tokt(it, d.items[1].items[0]), t) == nameof(m.val.id), f"{what}: the functions given are defined")


# ---- the rounds of synthesis ------------------------------------------------------------------
def name_list(it, nm):
    n = z3.Int("n_" + nm)
    it.ctx.add(n >= 0)
    idx = it.idx_for(n)
    t = z3.Function(nm, z3.IntSort(), z3.StringSort())(idx)
    it.ctx.add_univ(n, idx, wf_name(t))
    return VList([Many(n, idx, Rope([Atom(t, "name")]))]), (n, idx, t)


def calls_of(it, x, guess, what):
    """x is the call of one of the functions: which one"""
    if not is_list(x) or not x.items or not isinstance(x.items[0], Tok):
        return None
    for i, (_, name, par, _) in enumerate(guess):
        if it.ctx.must(tokt(it, x.items[0]) == name):
            same_tokens(it, as_params(it, x.items[1:]), [par], f"{what}: a call has the function's parameters")
            return i


def unit_synth(rounds, k):
    what = f"generate_synth, {rounds} more rounds, {k} functions"

    @unit(what)
    def u(it, con):
        ctx = it.ctx
        vs, every = name_list(it, "v")
        guess = [concrete(it, ir.Synth if i % 2 else ir.FnDeclRecursive, f"g{i}") for i in range(k)]
        if k > 1:
            ctx.assume(z3.Distinct(*[g[1] for g in guess]))
        r = attempt(it, what, lambda: it.call(rt.generate_synth, [One(text("base")), One(vs), One(rounds), One(VList([One(g[0]) for g in guess])), One(VList([]))]))
        xs = parse(it, it.split(r[0]), what) if r else None
        if xs is None:
            return
        base = it.str_term(rope(text("base")))
        used = set()
        for i in range(rounds + 1):
            w = f"{what}: round {i}"
            s = f"sol{i}"
            ds = [j for j, x in enumerate(xs) if is_list(x, 3, "define") and isinstance(x.items[1], Tok) and x.items[1].text() == s]
            if len(ds) != 1 or not is_list(xs[ds[0]].items[2], 5, "synthesize"):
                ctx.fail(f"{w}: asks once", repr(xs)[:300])
                continue
            used.add(ds[0])
            q = xs[ds[0]].items[2].items
            kw = {q[j].text(): q[j + 1] for j in (1, 3) if isinstance(q[j], Tok)}
            if set(kw) != {"#:forall", "#:guarantee"} or not is_list(kw["#:forall"], None, "list"):
                ctx.fail(f"{w}: for all variables, the guarantee", repr(q))
                continue
            same_tokens(it, kw["#:forall"].items[1:], [every], f"{w}: the solution is for all values of all variables")
            g = kw["#:guarantee"]
            steps = g.items[1:] if is_list(g, None, "begin") else [g]
            ctx.prove(z3.BoolVal([j for j, x in enumerate(steps) if is_list(x, 1, "assertions")] == [len(steps) - 1]), f"{w}: the assertions are guaranteed")
            prev = set()
            for x in steps[:-1]:
                if not is_list(x, 2, "assume"):
                    ctx.fail(f"{w}: only earlier solutions are excluded", repr(x))
                    continue
                x = x.items[1]
                alts = x.items[1:] if is_list(x, None, "||") else [x]
                fns, sols = [], set()
                for a in alts:
                    if not (is_list(a, 2, "!") and is_list(a.items[1], 3, "eq?") and is_list(a.items[1].items[2], 3, "evaluate")):
                        ctx.fail(f"{w}: a function differs from its earlier solution", repr(a))
                        continue
                    c, e = a.items[1].items[1:]
                    f1, f2 = calls_of(it, c, guess, w), calls_of(it, e.items[1], guess, w)
                    ctx.prove(z3.BoolVal(f1 is not None and f1 == f2), f"{w}: the same call is compared")
                    fns.append(f1)
                    sols.add(e.items[2].text() if isinstance(e.items[2], Tok) else None)
                ctx.prove(z3.BoolVal(len(sols) == 1 and set(fns) == set(range(k))), f"{w}: some function differs from the earlier solution")
                prev |= sols
            ctx.prove(z3.BoolVal(prev == {f"sol{j}" for j in range(i)}), f"{w}: every earlier solution is excluded")
            pr = [j for j, x in enumerate(xs) if is_list(x, 2, "print-forms") and isinstance(x.items[1], Tok) and x.items[1].text() == s]
            ctx.prove(z3.BoolVal(len(pr) >= 1 and all(j > ds[0] for j in pr)), f"{w}: the solution is printed")
            outs = [x for x in xs if is_list(x, 3, "with-output-to-file") and isinstance(x.items[1], Tok)
                    and ctx.must(tokt(it, x.items[1]) == z3.Concat(S_('"synthesisLogs/'), base, S_(f'_{s}"')))]
            ctx.prove(z3.BoolVal(len(outs) == 1 and mentions(outs[0], "print-forms", s)), f"{w}: the solution is written to its file")
        ctx.prove(z3.BoolVal(not [x for j, x in enumerate(xs) if j not in used and head(x) in DEFINES]), f"{what}: nothing else is asked, assumed or defined")
    return u


DEFINES = ("define", "define-symbolic", "define-symbolic*", "assert", "assume", "define-grammar", "synthesize", "verify", "solve", "current-bitwidth")


def mentions(x, h, s):
    if not isinstance(x, SList):
        return False
    if is_list(x, 2, h) and isinstance(x.items[1], Tok) and x.items[1].text() == s:
        return True
    return any(mentions(y, h, s) for y in x.items)


unit_synth(0, 0)
for _r in range(1, 4):
    for _k in (1, 2):
        unit_synth(_r, _k)
BOUNDED.append("generate_synth: up to three further rounds for one or two functions (names, numbers of parameters and of variables arbitrary)")


# ---- the whole file ----------------------------------------------------------------------------
def printer(content):
    def p(it, a, k):
        if k.get("file") is None:
            return None
        if not (isinstance(it.split(k["file"]), Opaque) and it.split(k["file"]).tag == "file") and False:
            it.unsupported("print to another file")
        sep, end = k.get("sep", " "), k.get("end", "\n")
        parts = []
        for i, x in enumerate(a):
            if i:
                parts.append(sep)
            parts.extend(rope(it.split(it.call(str, [One(it.split(x.v))]))).parts)
        it.call(it.getattr(content, "append"), [One(Rope(parts + [end]))])
    return p


def file_text(content):
    return whole(content)


def unit_file(n_lang, un, axiom, verify, choices, missing=False):
    what = f"to_rosette[{n_lang} functions{', uninterpreted' if un else ''}{', axiom' if axiom else ''}{', verify' if verify else ''}{', choices' if choices else ''}{', to be synthesized' if missing else ''}]"

    @unit(what)
    def u(it, con):
        ctx = it.ctx
        content = file_model(it, con)
        con.native[id(print)] = printer(content)
        Q = "metalift.rosette_translator."
        rec = {}

        def stub(name):
            fn = getattr(rt, name)

            def h(it, a, k):
                d = bind(fn, a, k)
                n = len(rec)
                rec[n] = (name, d)
                r = Rope([Atom(z3.String(f"text{n}"), "text", (name, n))])
                if name == "generate_vars":
                    return VTuple([One(r), One(st["names"])])
                return r
            con.by_qual[Q + name] = h
        for n in ("generate_vars", "generate_inv_ps", "generate_synth"):
            stub(n)
        st = {"names": name_list(it, "consts")[0]}
        written = []

        def grammar(it, a, k):
            o = it.split(a[0].v)
            w = it.split(a[1].v) if len(a) > 1 else it.split(k.get("writeChoicesTo"))
            written.append((o, w))
            return Rope([Atom(ROSSTR(o.id) if o.id is not None else z3.String(f"gram{len(written)}"), "ros", ("grammar", o))])

        def decl(it, a, k):
            o = it.split(a[0].v)
            d = bind(ir.FnDecl.to_rosette, a, k)
            return Rope([Atom(z3.String(f"decl_{id(o)}"), "ros", ("fn", o, d["is_uninterp"]))])
        con.by_qual["metalift.ir.Synth.to_rosette"] = grammar
        con.by_qual["metalift.ir.FnDecl.to_rosette"] = decl
        con.by_qual["metalift.ir.FnDeclRecursive.to_rosette"] = decl
        con.virtual["to_rosette"] = lambda it, o, a, k: "" if o.dom == (ir.Axiom,) else Rope([Atom(ROSSTR(o.id), "ros", o)])
        ret = SType(z3.Const("ret", Ty))
        lang, fns = [], []
        for i in range(n_lang):
            b = new_obj(it, z3.Const(f"fbody{i}", Obj))
            f = it.call(ir.FnDeclRecursive if i % 2 else ir.FnDecl, [One(f"fn{i}"), One(ret), One(b)])
            lang.append(One(f))
            fns.append((f, False))
        m = seq_of(it, "lib", (ir.FnDecl, ir.FnDeclRecursive))
        ctx.add_univ(m.n, m.idx, z3.Or(clsof(m.val.id) == con.code(ir.FnDecl), clsof(m.val.id) == con.code(ir.FnDeclRecursive)))
        if un:
            f = it.call(ir.FnDecl, [One("un0"), One(ret), One(None), One(new_obj(it, z3.Const("up", Obj), (ir.Var,)))])
            lang.append(One(f))
            fns.append((f, True))
        todo = None
        if missing:
            todo = it.call(ir.FnDeclRecursive, [One("todo"), One(ret), One(None)])
            lang.insert(0, One(todo))
        if axiom:
            lang.insert(1, One(it.call(ir.Axiom, [One(new_obj(it, z3.Const("law", Obj)))])))
            lang.append(One(it.call(ir.Axiom, [One(new_obj(it, z3.Const("law2", Obj))), One(new_obj(it, z3.Const("lp", Obj), (ir.Var,)))])))
        if not un:
            lang.append(m)
        synths = [it.call(ir.Synth, [One(nm), One(new_obj(it, z3.Const("gr_" + nm, Obj)))]) for nm in ("inv0", "ps")]
        vc = new_obj(it, z3.Const("vc", Obj))
        ctx.assume(tyof(vc.id) == Ty.TBool)
        vars_, guess, excl = it.as_vset(set()), VList([One(synths[1])]), VList([])
        info = VList([One(s) for s in synths])
        bound, rounds, unb = Sym(z3.Int("bound")), Sym(z3.Int("rounds")), Sym(z3.Bool("unbounded"))
        ch = VDict([]) if choices else None
        out = text("out")
        args = dict(basename=text("base"), filename=out, target_lang=VList(lang), vars=vars_, inv_and_ps=VList([One(s) for s in synths]), preds=VList([]), vc=vc,
                    loop_and_ps_info=info, rounds_to_guess=rounds, fns_to_guess=guess, fn_defs_to_exclude=excl, unbounded_ints=unb, list_bound=bound,
                    write_choices_to=ch, verify_mode=verify, uninterp_fns=VList([One("un0")] if un else []))
        if not attempt(it, what, lambda: it.call(rt.to_rosette, [], args)):
            return
        ctx.prove(it.str_term(rope(ctx.scratch.get("file", ""))) == it.str_term(out), f"{what}: it is the file asked for")
        xs = parse(it, file_text(content), what)
        if xs is None:
            return
        ctx.prove(z3.BoolVal(len(xs) > 1 and isinstance(xs[0], Tok) and xs[0].text() == "#lang" and isinstance(xs[1], Tok) and xs[1].text() == "rosette"), f"{what}: a Rosette module")
        xs = xs[2:]
        kind = lambda x: x.ref if isinstance(x, Atom) and isinstance(x.ref, tuple) else (None,)
        used = set()

        def take(pred, desc):
            k = [i for i, x in enumerate(xs) if i not in used and pred(x)]
            if len(k) != 1:
                ctx.fail(f"{what}: {desc}", f"{len(k)} times: {[repr(x)[:60] for x in xs]}")
                return -1
            used.add(k[0])
            return k[0]
        first = []
        for f, u_ in fns:
            i = take(lambda x: kind(x)[0] == "fn" and kind(x)[1] is f, "every function of the target language is defined")
            first.append(i)
            if i >= 0:
                ctx.prove(z3.BoolVal(it.split(kind(xs[i])[2]) is u_), f"{what}: exactly the uninterpreted functions are symbolic")
        if not un and not ctx.must(m.n == 0):
            i = take(lambda x: isinstance(x, Seg) and len(x.exprs) == 1 and isinstance(x.exprs[0], Atom) and isinstance(x.exprs[0].ref, VObj), "the other functions of the target language")
            if i >= 0:
                ctx.prove(z3.BoolVal(xs[i].many.cond is None), f"{what}: every other function is defined")
                ctx.prove(z3.And(xs[i].many.n == m.n, z3.substitute(xs[i].exprs[0].ref.id, (xs[i].many.idx, m.idx)) == m.val.id), f"{what}: the other functions are those given")
                first.append(i)
        grams = [take(lambda x: kind(x)[0] == "grammar" and kind(x)[1] is s, "every grammar is written") for s in synths]
        for s, nm in zip(synths, ("inv0", "ps")):
            ws = [w for o, w in written if o is s]
            if choices:
                r = it.dict_find(ch, nm)
                ctx.prove(z3.BoolVal(len(ws) == 1 and r[0] is True and ws[0] is force_(r[1])), f"{what}: the alternatives are recorded under the function's name")
            else:
                ctx.prove(z3.BoolVal(len(ws) == 1 and ws[0] is None), f"{what}: no alternatives are recorded")

        def part(name, cond, desc):
            i = take(lambda x: isinstance(x, Atom) and x.kind == "text" and x.ref[0] == name and cond(rec[x.ref[1]][1]), desc)
            return i, rec[xs[i].ref[1]][1] if i >= 0 else None
        inst, d = part("generate_inv_ps", lambda d: it.split(d["loop_and_ps_info"]) is info, "the functions to synthesize")
        ctx.prove(z3.BoolVal(all(g < inst for g in grams)), f"{what}: a grammar is before its use")
        if missing:
            i, d = part("generate_inv_ps", lambda d: it.split(d["loop_and_ps_info"]) is not info, "the library functions to synthesize")
            if d is not None:
                ds = it.seq(it.split(d["loop_and_ps_info"]))
                ctx.prove(z3.BoolVal(len(ds) == 1 and isinstance(ds[0], One) and it.split(ds[0].v) is todo), f"{what}: the functions without a definition are to be synthesized")
        vk, d = part("generate_vars", lambda d: True, "the variables")
        if d is not None:
            ctx.prove(z3.BoolVal(it.split(d["vars"]) is vars_), f"{what}: the variables are those given")
            ctx.prove(it.num(it.split(d["listBound"])) == bound.t, f"{what}: the bound of lists is the one given")
        ak = take(lambda x: is_list(x, 3, "define") and is_list(x.items[1], 1, "assertions"), "the assertions")
        if ak >= 0:
            b = xs[ak].items[2]
            ok = is_list(b, 2, "assert") and isinstance(b.items[1], Atom) and isinstance(b.items[1].ref, VObj)
            ctx.prove(b.items[1].ref.id == vc.id if ok else z3.BoolVal(False), f"{what}: the assertion is the condition")
        bk = take(lambda x: is_list(x, 2, "current-bitwidth"), "the width of integers")
        if bk >= 0:
            w = xs[bk].items[1].text()
            ctx.prove(unb.t == z3.BoolVal(w == "#f"), f"{what}: integers are unbounded when asked")
            ctx.prove(z3.Or(unb.t, z3.BoolVal(bool(w) and w.isdigit())), f"{what}: otherwise they have a width")
        if verify:
            ck = take(lambda x: is_list(x, 2, "verify") and is_list(x.items[1], 1, "assertions"), "the assertions are verified")
        else:
            ck, d = part("generate_synth", lambda d: True, "the synthesis")
            if d is not None:
                ctx.prove(z3.BoolVal(it.split(d["vars"]) is st["names"]), f"{what}: the synthesis is for all constants")
                ctx.prove(z3.BoolVal(it.split(d["fns_to_guess"]) is guess and it.split(d["fn_defs_to_exclude"]) is excl), f"{what}: the functions to guess and exclude are those given")
                ctx.prove(it.num(it.split(d["rounds_to_guess"])) == rounds.t, f"{what}: as many rounds as asked")
                ctx.prove(it.str_term(rope(it.split(d["basename"]))) == it.str_term(text("base")), f"{what}: the name of the output is the one given")
        ctx.prove(z3.BoolVal(all(i < ck for i in first + grams + [inst, vk, ak, bk])), f"{what}: the query comes last")
        ctx.prove(z3.BoolVal(vk < ak), f"{what}: variables are defined before the condition")
        rest = [x for i, x in enumerate(xs) if i not in used and head(x) not in ("require", "current-solver")]
        ctx.prove(z3.BoolVal(not rest), f"{what}: nothing else is in the file {[repr(x)[:60] for x in rest]}")


def force_(x):
    x = x() if callable(x) and not isinstance(x, Value) else x
    return x


unit_file(0, False, False, False, False)
unit_file(0, False, False, True, False)
unit_file(2, False, False, False, True)
unit_file(0, True, False, False, False)
unit_file(2, True, True, False, False)
unit_file(1, True, False, True, True)
unit_file(2, False, True, False, False)
unit_file(1, False, False, False, True, missing=True)
unit_file(1, True, False, False, False, missing=True)


# ---- grammars ------------------------------------------------------------------------------------
REP = z3.Function("with_nonterminals", Obj, Obj)
REPS = z3.Function("with_nonterminals_inside", Obj, Obj)


def grammar_world(it, con, what, mode, shape_):
    """a function to synthesize; findCommonExprs and replaceExprs by contract (P06, P04):
    the sub-expressions are any sequence of alternatives between other expressions"""
    ctx = it.ctx
    o, name, par, body = concrete(it, ir.Synth, "s")
    b = it.split(it.seq(it.getattr(o, "args"))[1].v)
    st = {}
    found, want = [], []
    for i, c in enumerate(shape_):
        if c == "*":
            m = seq_of(it, f"alt{i}", (ir.Choose,))
            ctx.add_univ(m.n, m.idx, clsof(m.val.id) == con.code(ir.Choose))
            found.append(Many(m.n, m.idx, VTuple([One(m.val), One(Sym(z3.Function(f"uses{i}", z3.IntSort(), z3.IntSort())(m.idx)))])))
            want.append(m)
        else:
            e = b if c == "body" else new_obj(it, z3.Const(f"sub{i}", Obj))
            ch = clsof(e.id) == con.code(ir.Choose)
            if c != "body" or True:
                if ctx.branch(ch):
                    it.narrow(e, [ir.Choose])
                    want.append(e)
                else:
                    it.narrow(e, [k for k in e.dom if k is not ir.Choose])
            found.append(One(VTuple([One(e), One(Sym(z3.Int(f"uses{i}")))])))

    def find(it, a, k):
        d = bind(ir.Expr.findCommonExprs, a, k)
        it.ctx.prove(z3.BoolVal(it.split(d["e"]) is b and not it.seq(it.split(d["cnts"]))), f"{what}: the alternatives are those of the grammar")
        return VList(list(found))

    def rep(it, a, k):
        d = bind(ir.Expr.replaceExprs, a, k)
        e, skip = it.split(d["e"]), it.split(d["skipTop"])
        got = it.seq(it.split(d["commonExprs"]))
        ok = len(got) == len(want) and all(
            (isinstance(g, Many) and isinstance(w, Many) and g.cond is None and it.ctx.must(g.n == w.n) and it.ctx.must(z3.substitute(g.val.id, (g.idx, w.idx)) == w.val.id))
            or (isinstance(g, One) and it.split(g.v) is w) for g, w in zip(got, want))
        it.ctx.prove(z3.BoolVal(ok), f"{what}: exactly the alternatives become non-terminals")
        it.ctx.prove(z3.BoolVal(it.split(d["mode"]) is mode), f"{what}: non-terminals are printed for the solver at hand")
        r = (REPS if skip else REP)(e.id)
        if skip:
            it.ctx.assume(clsof(r) == clsof(e.id))
        dom = (ir.Choose,) if skip and e.dom == (ir.Choose,) else None
        x = new_obj(it, r, dom) if dom else new_obj(it, r)
        it.ctx.assume(tyof(r) == tyof(e.id))
        return x
    con.by_qual["metalift.ir.Expr.findCommonExprs"] = find
    con.by_qual["metalift.ir.Expr.replaceExprs"] = rep
    con.by_qual["metalift.ir.parse_type_ref_to_obj"] = lambda it, a, k: it.split(a[0].v)
    return o, name, par, b, want


def nonterminals(it, xs, want, what, one):
    """xs: one rule per element of want; one(x, name, expr) checks a rule"""
    ctx = it.ctx
    xs = [x for x in xs if not (isinstance(x, Seg) and ctx.must(x.many.n == 0))]
    want = [w for w in want if not (isinstance(w, Many) and ctx.must(w.n == 0))]
    if len(xs) != len(want):
        return ctx.fail(f"{what}: one rule per alternative", f"{xs!r} instead of {want!r}"[:300])
    base = z3.IntVal(0)
    for x, w in zip(xs, want):
        if isinstance(w, Many):
            if not (isinstance(x, Seg) and len(x.exprs) == 1 and x.many.cond is None):
                return ctx.fail(f"{what}: one rule per alternative", repr(x))
            ctx.prove(x.many.n == w.n, f"{what}: one rule per alternative")
            sub = (x.many.idx, w.idx)
            one(x.exprs[0], z3.simplify(base + w.idx), w.val.id, sub)
            base = z3.simplify(base + w.n)
        else:
            if isinstance(x, Seg):
                return ctx.fail(f"{what}: one rule per alternative", repr(x))
            one(x, base, w.id, None)
            base = z3.simplify(base + 1)


def sub_(t, s):
    return z3.substitute(t, s) if s is not None else t


def vname(it, i):
    i = i.as_long() if z3.is_int_value(i) else Sym(i)
    return z3.Concat(S_("v"), it.str_term(rope(it.split(it.call(str, [One(i)])))))


def leaf(it, x, t, what, s=None):
    if not (isinstance(x, Atom) and x.kind in ("ros", "smt") and isinstance(x.ref, VObj)):
        return it.ctx.fail(what, repr(x))
    it.ctx.prove(sub_(x.ref.id, s) == t, what)


SHAPES = {"no alternatives": ["body", "other"], "any number": ["body", "*"], "between others": ["body", "other", "other"], "all": ["*"]}


def unit_gram_rosette(key, shape_, record):
    what = f"Synth.to_rosette[{key}{', recorded' if record else ''}]"

    @unit(what)
    def u(it, con):
        ctx = it.ctx
        o, name, par, b, want = grammar_world(it, con, what, ir.PrintMode.Rosette, shape_)
        ch = VDict([]) if record else None
        r = attempt(it, what, lambda: it.call(it.getattr(o, "to_rosette"), [One(ch)] if record else []))
        xs = parse(it, it.split(r[0]), what) if r else None
        if xs is None:
            return
        if len(xs) != 1 or head(xs[0]) != "define-grammar" or len(xs[0].items) < 3 or not is_list(xs[0].items[1]):
            return ctx.fail(f"{what}: a grammar", repr(xs)[:300])
        same_tokens(it, as_params(it, xs[0].items[1].items), [z3.Concat(name, S_("_gram")), par], f"{what}: its name and parameters")

        def rule(x, nm, t, s):
            if not (is_list(x, 2) and isinstance(x.items[0], Tok) and is_list(x.items[1], 2, "choose")):
                return ctx.fail(f"{what}: a rule", repr(x))
            ctx.prove(sub_(tokt(it, x.items[0]), s) == nm, f"{what}: the non-terminal of a rule")
            leaf(it, x.items[1].items[1], t, f"{what}: a rule has the expression of its non-terminal", s)
        rule(xs[0].items[2], S_("rv"), REP(b.id), None)
        nonterminals(it, xs[0].items[3:], want, what, lambda x, i, e, s: rule(x, vname(it, i), REPS(e), s))
        if record and all(not isinstance(w, Many) for w in want):
            ctx.prove(z3.BoolVal(len(ch.entries) == len(want)), f"{what}: one record per alternative")
            for i, w in enumerate(want):
                p, v = it.dict_find(ch, f"v{i}")
                v = it.split(force_(v)) if p is True else None
                ctx.prove(v.id == REPS(w.id) if isinstance(v, VObj) else z3.BoolVal(False), f"{what}: the alternative recorded is that of the non-terminal")


def unit_gram_smt(key, shape_):
    what = f"Synth.toSMT[{key}]"

    @unit(what)
    def u(it, con):
        ctx = it.ctx
        o, name, par, b, want = grammar_world(it, con, what, ir.PrintMode.SMT, shape_)
        r = attempt(it, what, lambda: it.call(it.getattr(o, "toSMT"), []))
        if not r:
            return
        try:
            xs = parse_rope(it, it.split(r[0]), ("smt",))
        except ParseError as e:
            return ctx.fail(f"{what}: an s-expression", str(e))
        if len(xs) != 1 or not is_list(xs[0], 6, "synth-fun"):
            return ctx.fail(f"{what}: a function to synthesize", repr(xs)[:300])
        _, nm, pars, ret, decl, rules = xs[0].items
        ctx.prove(tokt(it, nm) == name, f"{what}: its name")
        if not ctx.must(par[0] == 0):
            p = pars.items[0] if is_list(pars, 1) and isinstance(pars.items[0], Seg) else None
            if p is None or len(p.exprs) != 1 or not is_list(p.exprs[0], 2):
                return ctx.fail(f"{what}: its parameters", repr(pars))
            t = (p.many.idx, par[1])
            ctx.prove(z3.And(p.many.n == par[0], z3.BoolVal(p.many.cond is None)), f"{what}: every parameter")
            ctx.prove(z3.substitute(tokt(it, p.exprs[0].items[0]), t) == par[2], f"{what}: the name of a parameter")
            q = z3.Function("param_s", z3.IntSort(), Obj)(par[1])
            ctx.prove(z3.substitute(sort_z3(it, p.exprs[0].items[1]), t) == TYSMT(tyof(q)), f"{what}: the sort of a parameter")
        ctx.prove(sort_z3(it, ret) == TYSMT(tyof(b.id)), f"{what}: its sort")
        if not (is_list(decl) and is_list(rules) and decl.items and rules.items):
            return ctx.fail(f"{what}: declarations and rules", repr(xs))

        def entry(x, nm_, ty, s, k, desc, e=None):
            if not (is_list(x, k) and isinstance(x.items[0], Tok)):
                return ctx.fail(f"{what}: {desc}", repr(x))
            ctx.prove(sub_(tokt(it, x.items[0]), s) == nm_, f"{what}: the non-terminal of {desc}")
            got = sub_(sort_z3(it, x.items[1]), s)
            # replaceExprs keeps the type (P04)
            ctx.prove(z3.Or(got == TYSMT(ty), got == TYSMT(tyof(REPS(e)))) if e is not None else got == TYSMT(ty), f"{what}: the sort of {desc}")
            return x

        def rule(x, nm_, ty, t, s, choose, e=None):
            if entry(x, nm_, ty, s, 3, "a rule", e) is None:
                return
            y = x.items[2]
            # a list of alternatives: that of a Choose, or a list of one
            if isinstance(y, SList) and len(y.items) == 1:
                ctx.prove(z3.BoolVal(choose is not True) if choose in (True, False) else z3.Not(choose), f"{what}: an alternative is a list of one only if it is no Choose")
                y = y.items[0]
            else:
                ctx.prove(z3.BoolVal(choose is True) if choose in (True, False) else choose, f"{what}: alternatives are a list")
            leaf(it, y, t, f"{what}: a rule has the expression of its non-terminal", s)
        ty = tyof(b.id)
        entry(decl.items[0], S_("rv"), ty, None, 2, "a declaration")
        rule(rules.items[0], S_("rv"), ty, REP(b.id), None, clsof(REP(b.id)) == con.code(ir.Choose))
        nonterminals(it, decl.items[1:], want, what + " declarations", lambda x, i, e, s: entry(x, vname(it, i), tyof(e), s, 2, "a declaration", e))
        nonterminals(it, rules.items[1:], want, what + " rules", lambda x, i, e, s: rule(x, vname(it, i), tyof(e), REPS(e), s, True, e))


for _k, _s in SHAPES.items():
    for _r in (False, True):
        unit_gram_rosette(_k, _s, _r)
    unit_gram_smt(_k, _s)
ASSUMPTIONS.append("findCommonExprs lists the sub-expressions of the grammar (P06, bounded there and in the replay) and replaceExprs puts non-terminals for them (proved in P04)")
BOUNDED.append("grammars: the sub-expressions found are the body and any number of alternatives, or up to three expressions of any kind")
