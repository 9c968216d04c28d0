"""P16: the query given to the verifier is about the functions and the condition
it was made for (smt_util, synthesis_common)."""
import z3
from pyvc.core import *
from pyvc import interp as I
from .irspec import *
from .p01 import decl_obj
from .p04 import (image, ctor_inv, same_node, op_image, vden, vden_args, sden, OBJV, STRV)
import importlib.resources as resources
from .smtparse import *
import metalift.ir as ir
import metalift.smt_util as su
import metalift.synthesis_common as sc

PID = "P16"
ASSUMPTIONS = [
    "sub-expressions are rewritten by the contract of the function under verification (induction over the expression)",
    "function-typed operands of a call are variables (the frontends build no others)",
]
BOUNDED = []
IMG = z3.Function("rewritten", Obj, Obj)


def is_fn(t):
    return Ty.is_TFn(t)


def fn_operands_are_vars(it, o):
    """precondition: a function is passed by its name"""
    for s in it.seq(it.getattr(o, "args")):
        if isinstance(s, Many):
            it.ctx.add_univ(s.n, s.idx, z3.Implies(is_fn(tyof(s.val.id)), clsof(s.val.id) == it.con.code(ir.Var)))
        else:
            v = it.split(s.v)
            if isinstance(v, VObj):
                it.ctx.add(z3.Implies(is_fn(tyof(v.id)), clsof(v.id) == it.con.code(ir.Var)))


def same_arg(it, a, b):
    a, b = it.split(a), it.split(b)
    if a is b or (a is None and b is None):
        return z3.BoolVal(True)
    if isinstance(a, (str, Rope)) and isinstance(b, (str, Rope)):
        return it.str_term(rope(a)) == it.str_term(rope(b))
    if isinstance(a, (Sym, int)) and isinstance(b, (Sym, int)):
        return it.num(a) == it.num(b)
    return z3.BoolVal(False)


def bind(fn, args, kw):
    import inspect
    d = inspect.signature(fn).bind(*[x.v for x in args], **kw)
    d.apply_defaults()
    return dict(d.arguments)


def rewriter(fname, subject, params, call_spec, other=None):
    """fname(subject=e, **params) rebuilds e with its operands rewritten, but for
    calls, which are what call_spec says"""
    fn = getattr(su, fname)
    qual = "metalift.smt_util." + fname

    def unit(cls):
        def run(ctx):
            con = base_contracts()
            it = I.Interp(ctx, con)
            st = {}

            def rec(it, args, kw):
                d = bind(fn, args, kw)
                if not st.get("inside"):
                    st["inside"] = True
                    return it.run_func(it.vfunc(fn), args, kw)
                e = it.split(d.pop(subject))
                if not isinstance(e, VObj):
                    return e
                if e is st["o"]:
                    it.unsupported("recursive call on the expression itself")
                for k, v in st["params"].items():
                    it.ctx.prove(same_arg(it, d[k], v), f"{fname}: operands are rewritten with the same {k}")
                return image(it, IMG, e)
            con.by_qual[qual] = rec

            def path():
                st.clear()
                o = self_of(it, cls)
                it.getattr(o, "args")
                ctor_inv(it, o)
                fn_operands_are_vars(it, o)
                st["o"], st["params"] = o, params(it)
                before = vden_args(it, o)
                what = f"{fname}[{cls.__name__}]"
                try:
                    r = it.call(fn, [], {subject: o, **st["params"]})
                except SymRaise as e:
                    if other is not None and other(it, cls, o, None, st["params"], what):
                        return
                    return ctx.fail(f"{what}: raises no exception", repr(e.value))
                r = it.split(r)
                den_eq(it, vden_args(it, o), before, f"{what}: the expression itself is unchanged")
                if cls in (ir.Var, ir.Lit):
                    if r is o:
                        return ctx.prove(z3.BoolVal(True), f"{what}: unchanged")
                    if not isinstance(r, VObj) or r.cls is not cls:
                        return ctx.fail(f"{what}: unchanged", repr(r))
                    ctx.prove(it.type_term(it.getattr(r, "type")) == tyof(o.id), f"{what}: same type")
                    return den_eq(it, vden_args(it, r), before, f"{what}: unchanged")
                if cls is ir.Call:
                    return call_is(it, o, r, *call_spec(it, o, st["params"]), what)
                if other is not None and other(it, cls, o, r, st["params"], what):
                    return
                same_node(it, r, o, op_image(IMG), what)
            ctx.explore(path)
        return run
    return unit


def call_is(it, o, r, name, segs, what):
    ctx = it.ctx
    if not isinstance(r, VObj) or r.cls is not ir.Call:
        return ctx.fail(f"{what}: a call is returned", repr(r))
    ctx.prove(it.type_term(it.getattr(r, "type")) == tyof(o.id), f"{what}: same type")
    args = it.seq(it.getattr(r, "args"))
    got = args[0].v if args and isinstance(args[0], One) else None
    t = it.str_term(rope(it.split(got))) if isinstance(it.split(got), (str, Rope)) else None
    if t is None:
        return ctx.fail(f"{what}: the function called", repr(got))
    ctx.prove(t == name, f"{what}: the function called")
    den_eq(it, DApp("args", sden(it, args[1:])), DApp("args", segs), f"{what}: the operands")


def call_operands(it, o, keep=None):
    """the rewritten operands of a call, those for which keep holds"""
    out = []
    for s in it.seq(it.getattr(o, "args"))[1:]:
        assert isinstance(s, Many)
        c = None if keep is None else keep(s.val)
        out.append(Many(s.n, s.idx, DLeaf(OBJV(IMG(s.val.id))), c))
    return out


def text(nm):
    t = z3.Const(nm, z3.StringSort())
    return Rope([Atom(t, "name")])


def no_fns(it, o, p):
    return nameof(o.id), call_operands(it, o, lambda v: z3.Not(is_fn(tyof(v.id))))


def renamed(it, o, p):
    new, old = (it.str_term(p[k]) for k in ("new_fn_name", "fn_name"))
    return z3.If(nameof(o.id) == old, new, nameof(o.id)), call_operands(it, o)


def names2(it):
    return {"new_fn_name": text("new_fn_name"), "fn_name": text("fn_name")}


CLASSES = [getattr(ir, n) for n in EXPR_NAMES]
UNITS = {}


def add(fname, subject, params, spec, other=None, skip=()):
    u = rewriter(fname, subject, params, spec, other)
    for c in CLASSES:
        if c.__name__ not in skip:
            UNITS[f"{fname} {c.__name__}"] = u(c)


add("filter_fn_args", "expr", lambda it: {}, no_fns)
add("replace_fn_name", "expr", names2, renamed)


def aug_params(it):
    n, k = z3.Int("nnew"), z3.Int("start")
    it.ctx.add(z3.And(n >= 0, k >= 0))
    idx = it.idx_for(n)
    e = VObj(EXPR, z3.Function("newarg", z3.IntSort(), Obj)(idx), {}, lazy=True, sort="expr")
    for c in EXPR:
        it.con.code(c)
    return {"fn_name": text("fn_name"), "new_args": VList([Many(n, idx, e)]), "start_index": Sym(k)}


def in_call_params(it):
    return {**names2(it), "in_call": text("in_call")}


def body_params(with_in):
    def p(it):
        d = {"new_fn_call": text("new_fn_name"), "fn_call": text("fn_name")}
        d["in_call"] = text("in_call") if with_in else None
        return d
    return p


def inlined(it, o, p):
    new, old = (it.str_term(p[k]) for k in ("new_fn_call", "fn_call"))
    return z3.If(nameof(o.id) == old, new, nameof(o.id)), call_operands(it, o, lambda v: z3.Not(is_fn(tyof(v.id))))


def called_param(it, cls, o, r, p, what):
    """a call of a function parameter becomes a call of the function passed"""
    if cls is not ir.CallValue:
        return False
    if p["in_call"] is None:
        it.ctx.prove(z3.BoolVal(r is None), f"{what}: no function is given for the parameter that is called")
        return True
    if r is None:
        return False
    segs = it.seq(it.getattr(o, "args"))[1:]
    call_is(it, o, r, it.str_term(p["in_call"]), [Many(s.n, s.idx, DLeaf(OBJV(IMG(s.val.id)))) for s in segs], what)
    return True


add("filter_body", "fun_def", body_params(True), inlined, called_param)


def augmented(it, o, p):
    """the new operands come after the first start ones"""
    name = it.str_term(p["fn_name"])
    (m,) = call_operands(it, o)
    if not it.ctx.branch(nameof(o.id) == name):
        return nameof(o.id), [m]
    k = it.num(p["start_index"])
    new = [Many(s.n, s.idx, DLeaf(OBJV(s.val.id))) for s in p["new_args"].items]
    cut = z3.If(k < m.n, k, m.n)
    rest = DLeaf(z3.substitute(m.val.t, (m.idx, m.idx + cut)))
    return name, [Many(cut, m.idx, m.val)] + new + [Many(m.n - cut, m.idx, rest)]


def passed(it, o, p):
    new, old, f = (it.str_term(p[k]) for k in ("new_fn_name", "fn_name", "in_call"))
    (m,) = [s for s in it.seq(it.getattr(o, "args"))[1:]]
    ctx = it.ctx
    at = lambda t: z3.substitute(z3.And(is_fn(tyof(m.val.id)), nameof(m.val.id) == f), (m.idx, t))
    some, w = ctx.fresh(z3.BoolSort(), "passed"), ctx.fresh(z3.IntSort(), "which")
    ctx.assume(z3.Implies(some, z3.And(w >= 0, w < m.n, at(w))))
    ctx.add_univ(m.n, m.idx, z3.Implies(z3.And(m.idx >= 0, m.idx < m.n, at(m.idx)), some))
    for n, t in list(ctx.points) + [(m.n, w)]:
        if n.eq(m.n):
            ctx.instantiate(n, t)
    return z3.If(z3.And(nameof(o.id) == old, some), new, nameof(o.id)), call_operands(it, o)


add("augment_arguments", "expr", aug_params, augmented)
add("replace_fn_name_with_in_call", "expr", in_call_params, passed)


# ---- declarations, axioms and functions to synthesize ---------------------------
def decl_unit(fname, subject, params, cls):
    fn = getattr(su, fname)

    def run(ctx):
        con = base_contracts()
        it = I.Interp(ctx, con)
        st = {}

        def rec(it, args, kw):
            d = bind(fn, args, kw)
            if not st.get("inside"):
                st["inside"] = True
                return it.run_func(it.vfunc(fn), args, kw)
            e = it.split(d.pop(subject))
            if not isinstance(e, VObj):
                return e
            for k, v in st["params"].items():
                it.ctx.prove(same_arg(it, d[k], v), f"{fname}: operands are rewritten with the same {k}")
            return image(it, IMG, e)
        con.by_qual["metalift.smt_util." + fname] = rec

        def path():
            st.clear()
            st["params"] = params(it)
            body = new_obj(it, z3.Const("bodyobj", Obj))
            what = f"{fname}[{cls.__name__}]"
            ret = None
            if cls in (ir.FnDecl, ir.FnDeclRecursive):
                o, nm, ret, n, idx, par = decl_obj(it, cls, body)
                head = [One(DLeaf(STRV(nm)))]
            else:
                n = z3.Int("nparams")
                ctx.add(n >= 0)
                idx = it.idx_for(n)
                par = VObj((ir.Var,), z3.Function("param", z3.IntSort(), Obj)(idx), {}, lazy=True, sort="expr")
                for c in EXPR:
                    con.code(c)
                nm = z3.Const("name", z3.StringSort())
                head = [One(DLeaf(STRV(nm)))] if cls is ir.Synth else []
                o = it.call(cls, ([One(Rope([Atom(nm, "name")]))] if cls is ir.Synth else []) + [One(body), Many(n, idx, par)])
            try:
                r = it.split(it.call(fn, [], {subject: o, **st["params"]}))
            except SymRaise as e:
                return ctx.fail(f"{what}: raises no exception", repr(e.value))
            if not isinstance(r, VObj) or r.cls is not cls:
                return ctx.fail(f"{what}: same kind of declaration", repr(r))
            den_eq(it, vden_args(it, r), DApp("args", head + [One(DLeaf(OBJV(IMG(body.id)))), Many(n, idx, DLeaf(OBJV(IMG(par.id))))]),
                   f"{what}: name kept, body and parameters rewritten")
            if ret is not None:
                ctx.prove(it.type_term(it.call(it.getattr(r, "return_type"), [])) == ret.t, f"{what}: same return type")
        ctx.explore(path)
    return run


for _f, _s, _p in (("filter_fn_args", "expr", lambda it: {}), ("replace_fn_name", "expr", names2), ("augment_arguments", "expr", aug_params),
                   ("replace_fn_name_with_in_call", "expr", in_call_params), ("filter_body", "fun_def", body_params(True))):
    for _c in (ir.FnDecl, ir.FnDeclRecursive, ir.Axiom, ir.Synth):
        UNITS[f"{_f} {_c.__name__}"] = decl_unit(_f, _s, _p, _c)


# ---- which functions are passed, called and used ---------------------------------
def unit_filter_args(ctx):
    it = I.Interp(ctx, base_contracts())

    def path():
        n = z3.Int("nargs")
        ctx.add(n >= 0)
        idx = it.idx_for(n)
        e = VObj(EXPR, z3.Function("arg_", z3.IntSort(), Obj)(idx), {}, lazy=True, sort="expr")
        for c in EXPR:
            it.con.code(c)
        l = VList([Many(n, idx, e)])
        try:
            r = it.split(it.call(su.filter_args, [One(l)]))
        except SymRaise as ex:
            return ctx.fail("filter_args: raises no exception", repr(ex.value))
        want = [Many(n, idx, DLeaf(OBJV(e.id)), z3.Not(is_fn(tyof(e.id))))]
        den_eq(it, DApp("args", sden(it, it.seq(r))), DApp("args", want), "filter_args: the operands that are not functions, in order")
        den_eq(it, DApp("args", sden(it, l.items)), DApp("args", [Many(n, idx, DLeaf(OBJV(e.id)))]), "filter_args: the list given is unchanged")
    ctx.explore(path)


UNITS["filter_args"] = unit_filter_args


# ---- the query file -----------------------------------------------------------------
SORTED = "metalift.smt_util.topological_sort"


def file_model(it, con):
    content = VList([])

    def opened(it, a, k):
        f = Opaque("file", {})
        mode = it.split(a[1].v) if len(a) > 1 else it.split(k.get("mode", "r"))
        it.ctx.prove(z3.BoolVal(isinstance(mode, str) and mode.startswith("w")), "toSMT: the query file is written afresh")
        it.ctx.jset(it.ctx.scratch, "file", it.split(a[0].v) if a else it.split(k["file"]))

        def write(it, a, k):
            it.call(it.getattr(content, "append"), [One(it.split(a[0].v))])
            return None
        f.attrs["write"] = SpecFn(write)
        f.attrs["close"] = SpecFn(lambda it, a, k: None)
        f.attrs["__enter__"] = SpecFn(lambda it, a, k: f)
        f.attrs["__exit__"] = SpecFn(lambda it, a, k: None)
        return f
    con.native[id(open)] = opened
    return content


def seq_of(it, name, dom, n=None):
    n = n if n is not None else z3.Int("n" + name)
    it.ctx.add(n >= 0)
    idx = it.idx_for(n)
    for c in dom:
        it.con.code(c)
    return Many(n, idx, VObj(dom, z3.Function(name, z3.IntSort(), Obj)(idx), {}, lazy=True, sort="expr"))


class FileReader(SMTReader):
    kinds = ("smt", "prelude")


def whole(content):
    """the text of the file: everything written, in order"""
    parts = []
    for s in content.items:
        if isinstance(s, Many):
            parts.append(JoinPart("", s))
        else:
            parts.extend(rope(s.v).parts)
    out = []
    for p in parts:
        out.append(p)
        if isinstance(p, Atom) and p.kind == "prelude":
            out.append("\n")    # each prelude file ends with a newline (checked below)
    return Rope(out)


def items_of(it, content):
    return parse_rope(it, whole(content), FileReader.kinds)


def head(x):
    return x.items[0].text() if isinstance(x, SList) and x.items and isinstance(x.items[0], Tok) else None


def res_const(nm):
    return z3.Const("res_" + nm, z3.StringSort())


def models(it, con, direct_in=()):
    content = file_model(it, con)
    con.native[id(resources.read_text)] = lambda it, a, k: Rope([Atom(res_const(it.split(a[1].v)), "prelude")])
    return content


def where(xs, pred, what):
    return [i for i, x in enumerate(xs) if pred(x)]


def same_term(x, t):
    return isinstance(x, Atom) and x.kind == "smt" and x.ref is not None and x.ref.id.eq(t)


def seg_of(x, many, t, cond=None):
    """x prints t(i) for every i of many"""
    return isinstance(x, Seg) and x.many.n.eq(many.n) and len(x.exprs) == 1 and isinstance(x.exprs[0], Atom) and x.exprs[0].ref is not None


def check_file(it, content, synth, groups, vars_, vc, what):
    """the file: the preludes, the functions (in the order given by groups: a list of
    lists of Many/terms, each group after the one before), one constant per
    variable, then the condition and the command"""
    ctx = it.ctx
    try:
        xs = items_of(it, content)
    except ParseError as e:
        return ctx.fail(f"{what}: the file is a sequence of commands", str(e))
    used = set()

    def take(pred, desc, optional=False):
        k = [i for i, x in enumerate(xs) if i not in used and pred(x)]
        if len(k) != 1:
            if optional and not k:
                return None
            ctx.fail(f"{what}: {desc}", f"{len(k)} commands instead of one: {[repr(x)[:80] for x in xs]}")
            return None
        used.add(k[0])
        return k[0]
    pos = -1
    for f in ["tuples.smt"] + ([] if synth else ["integer-fn-axioms.smt", "list-axioms.smt"]):
        k = take(lambda x: isinstance(x, Atom) and x.kind == "prelude" and x.t.eq(res_const(f)), f"the prelude {f}")
        ctx.prove(z3.BoolVal(k is not None and k > pos), f"{what}: the preludes come first, in order")
        pos = k if k is not None else pos
    last = pos
    for g in groups:
        top = last
        for s in g:
            if isinstance(s, Many):
                if it.ctx.must(s.n == 0):
                    continue
                k = take(lambda x: isinstance(x, Seg) and x.many.n.eq(s.n) and len(x.exprs) == 1 and isinstance(x.exprs[0], Atom), f"the definitions {s.val.id}")
                if k is None:
                    continue
                x = xs[k]
                ctx.prove(z3.BoolVal(x.many.cond is None), f"{what}: every one of {s.val.id} is defined")
                ctx.prove(z3.substitute(x.exprs[0].ref.id, (x.many.idx, s.idx)) == s.val.id, f"{what}: {s.val.id} are the functions given")
            else:
                k = take(lambda x: isinstance(x, Atom) and x.kind == "smt" and x.ref is not None and it.ctx.must(x.ref.id == s), f"the definition {s}")
                if k is None:
                    continue
            ctx.prove(z3.BoolVal(k > last), f"{what}: definitions come after what they use")
            top = max(top, k)
        last = top
    decl = "declare-var" if synth else "declare-const"
    vk = None
    if not it.ctx.must(vars_.n == 0):
        vk = take(lambda x: isinstance(x, Seg) and len(x.exprs) == 1 and head(x.exprs[0]) == decl, "the declarations of the variables")
        if vk is not None:
            x = xs[vk]
            c = x.exprs[0].items
            ctx.prove(z3.BoolVal(x.many.cond is None and len(c) == 3), f"{what}: every variable is declared")
            ctx.prove(x.many.n == vars_.n, f"{what}: one declaration per variable")
            t = (x.many.idx, vars_.idx)
            ctx.prove(z3.substitute(tok_z3(it, c[1]), t) == nameof(vars_.val.id), f"{what}: the name of a variable")
            ctx.prove(z3.substitute(sort_z3(it, c[2]), t) == TYSMT(tyof(vars_.val.id)), f"{what}: the sort of a variable")
    if synth:
        ck = take(lambda x: head(x) == "constraint", "the constraint")
        if ck is not None:
            x = xs[ck].items
            ctx.prove(z3.BoolVal(len(x) == 2 and isinstance(x[1], Atom) and x[1].kind == "smt"), f"{what}: the constraint is a term")
            ctx.prove(x[1].ref.id == vc, f"{what}: the constraint is the condition")
        ek = take(lambda x: head(x) == "check-synth", "(check-synth)")
    else:
        ck = take(lambda x: head(x) == "assert", "one assertion")
        if ck is not None:
            try:
                den_eq(it, FileReader(it).segs(xs[ck].items[1:])[0].v, DApp("not", [One(DLeaf(D(vc)))]), f"{what}: the assertion is the negated condition")
            except ParseError as e:
                ctx.fail(f"{what}: the assertion is the negated condition", str(e))
        ek = take(lambda x: head(x) == "check-sat", "(check-sat)")
    if ck is not None and ek is not None:
        ctx.prove(z3.BoolVal(last < ck and (vk is None or vk < ck) and ck < ek), f"{what}: the condition comes after the definitions and declarations, the command last")
    rest = [x for i, x in enumerate(xs) if i not in used and not (head(x) == "get-model" and not synth and i > (ek or 0))]
    ctx.prove(z3.BoolVal(not rest), f"{what}: nothing else is asserted or defined {[repr(x)[:60] for x in rest]}")


TYSMT = z3.Function("tysmt", Ty, z3.StringSort())


def mapped(it, o, a, k):
    """contract of map_args (P04) for the identity: an equal declaration"""
    probe = new_obj(it, z3.Const("probe", Obj))
    r = it.split(it.call(a[0].v, [One(probe)]))
    if not (isinstance(r, VObj) and r is probe):
        it.unsupported("map_args of a declaration with another function")
    return VObj(o.dom, o.id, {}, lazy=True, sort="expr")


def base_models(it, con, order=None):
    con.virtual["map_args"] = mapped
    content = models(it, con)
    con.by_qual[SORTED] = order or (lambda it, a, k: VList(list(it.seq(a[0].v))))
    con.by_qual["metalift.smt_util.filter_fn_args"] = lambda it, a, k: image(it, IMG, it.split(a[0].v), it.split(a[0].v).dom)
    return content


def unit_file(synth):
    """a first-order problem: any number of functions, axioms, candidates and variables"""
    what = "toSMT: synthesis file" if synth else "toSMT: verification file"

    def run(ctx):
        con = base_contracts()
        it = I.Interp(ctx, con)

        def path():
            content = base_models(it, con)
            con.by_qual["metalift.smt_util.get_direct_calls"] = lambda it, a, k: VDict([])
            con.by_qual["metalift.smt_util.get_direct_in_calls"] = lambda it, a, k: VList([])
            decls, ax = seq_of(it, "decl", (ir.FnDecl, ir.FnDeclRecursive)), seq_of(it, "axiom", (ir.Axiom,))
            cands = seq_of(it, "cand", (ir.Synth,) if synth else (ir.FnDeclRecursive,))
            vars_ = seq_of(it, "var", (ir.Var,))
            vc = new_obj(it, z3.Const("vc", Obj))
            ctx.assume(tyof(vc.id) == Ty.TBool)
            ext = it.call(ir.FnDecl, [One("declared_elsewhere"), One(SType(z3.Const("extT", Ty))), One(None)])
            out = text("out")
            try:
                it.call(su.toSMT, [One(VList([One(ext), decls, ax])), One(VList([vars_])), One(VList([cands])), One(VList([])), One(vc),
                                   One(out), One(VList([])), One(VList([])), One(synth)])
            except SymRaise as e:
                return ctx.fail(f"{what}: raises no exception", repr(e.value))
            ctx.prove(it.str_term(rope(ctx.scratch.get("file", ""))) == it.str_term(out), f"{what}: it is the file asked for")
            cim = Many(cands.n, cands.idx, VObj(cands.val.dom, IMG(cands.val.id), {}, lazy=True, sort="expr"))
            check_file(it, content, synth, [[decls], [ax, cim]], vars_, IMG(vc.id), what)
        ctx.explore(path)
    return run


for _s in (False, True):
    UNITS["toSMT first-order " + ("synthesis" if _s else "verification")] = unit_file(_s)


# ---- higher-order functions: one specialised copy per function passed ----------------
DECLS = (ir.FnDecl, ir.FnDeclRecursive, ir.Synth, ir.Axiom)


class Terms:
    """the contracts of the rewriting functions as terms; two rewritings that
    commute (different keys, new names that are fresh) give one term"""

    def __init__(self):
        self.by = {}

    def base(self, t):
        for k, c in self.by.items():
            if c.eq(t):
                return k
        return (t, (), frozenset(), (), False)

    def term(self, k):
        if k[1:] == ((), frozenset(), (), False):
            return k[0]
        if k not in self.by:
            self.by[k] = z3.Const("rewritten!%d" % len(self.by) + str(k[0]), Obj)
        return self.by[k]

    def filt(self, t):
        b = self.base(t)
        return self.term(b[:4] + (True,))

    def special(self, t, new, old, passed):
        """filter_body; it also removes the function operands"""
        b = self.base(t)
        return self.term((b[0], b[1] + ((old, new, passed),)) + b[2:4] + (True,))

    def with_in(self, t, new, old, passed):
        b = self.base(t)
        return self.term(b[:2] + (b[2] | {(old, passed, new)},) + b[3:])

    def rename(self, t, new, old):
        b = self.base(t)
        if any(o == old for o, _ in b[3]):
            return self.term(b)         # no call of it is left
        return self.term(b[:3] + (tuple(sorted(b[3] + ((old, new),))),) + b[4:])


def plain(it, v):
    v = it.split(v)
    v = unrope(v) if isinstance(v, Rope) else v
    if v is not None and not isinstance(v, str):
        it.unsupported(f"a name: {v!r}")
    return v


def unit_specialised(lang, callers, direct, cands, what):
    """lang: names of the functions; callers: name -> names of those that call it;
    direct: (function that calls its parameter, function passed); cands: candidates"""
    def run(ctx):
        con = base_contracts()
        it = I.Interp(ctx, con)
        st = {}

        def on_expr(fn, subject, op):
            qual = "metalift.smt_util." + fn.__name__

            def h(it, a, k):
                d = bind(fn, a, k)
                e = it.split(d.pop(subject))
                if isinstance(e, VObj) and not e.lazy and e.cls in DECLS:
                    return it.run_func(it.vfunc(fn), a, k)
                if not isinstance(e, VObj) or not e.lazy or e.dom == (ir.Var,):
                    return e
                r = new_obj(it, op(e.id, **{x: plain(it, y) for x, y in d.items()}), facts=False)
                it.ctx.assume(tyof(r.id) == tyof(e.id))
                return r
            con.by_qual[qual] = h

        def path():
            T = Terms()
            content = models(it, con)
            con.by_qual[SORTED] = lambda it, a, k: VList(list(it.seq(a[0].v)))
            on_expr(su.filter_fn_args, "expr", lambda t: T.filt(t))
            on_expr(su.filter_body, "fun_def", lambda t, new_fn_call, fn_call, in_call: T.special(t, new_fn_call, fn_call, in_call))
            on_expr(su.replace_fn_name, "expr", lambda t, new_fn_name, fn_name: T.rename(t, new_fn_name, fn_name))
            on_expr(su.replace_fn_name_with_in_call, "expr", lambda t, new_fn_name, fn_name, in_call: T.with_in(t, new_fn_name, fn_name, in_call))

            def calls(it, a, k):
                from pyvc.core import VSet
                d = VDict([])
                for f, cs in callers.items():
                    it.dict_set(d, f, it.as_vset(set(cs)))
                return d
            con.by_qual["metalift.smt_util.get_direct_calls"] = calls
            con.by_qual["metalift.smt_util.get_direct_in_calls"] = lambda it, a, k: VList([One(VTuple([One(f), One(g)])) for f, g in direct])
            for c in EXPR:
                it.con.code(c)

            def decl(cls, nm):
                n = z3.Int("n_" + nm)
                ctx.add(n >= (0 if len(lang) < 3 and len(cands) < 3 else 1))
                idx = it.idx_for(n)
                par = VObj((ir.Var,), z3.Function("param_" + nm, z3.IntSort(), Obj)(idx), {}, lazy=True, sort="expr")
                body, ret = new_obj(it, z3.Const("body_" + nm, Obj)), SType(z3.Const("ret_" + nm, Ty))
                ctx.add_univ(n, idx, clsof(par.id) == it.con.code(ir.Var))
                if cls is ir.Axiom:
                    o = it.call(cls, [One(body), Many(n, idx, par)])
                else:
                    o = it.call(cls, [One(nm), One(ret), One(body), Many(n, idx, par)])
                return o, (n, idx, par, body.id, ret.t)
            ls = {f: decl(ir.FnDeclRecursive if i % 2 else ir.FnDecl, f) for i, f in enumerate(lang)}
            cs = {c: decl(ir.FnDeclRecursive, c) for c in cands}
            ax, (an, ai, ap, ab, _) = decl(ir.Axiom, "law")
            vars_ = seq_of(it, "var", (ir.Var,))
            vc = new_obj(it, z3.Const("vc", Obj))
            ctx.assume(tyof(vc.id) == Ty.TBool)
            before = [(o, vden_args(it, o)) for o, _ in list(ls.values()) + list(cs.values())]
            names = sorted({f for f, _ in direct} | set(lang))
            try:
                it.call(su.toSMT, [One(VList([One(o) for o, _ in ls.values()] + [One(ax)])), One(VList([vars_])), One(VList([One(o) for o, _ in cs.values()])),
                                   One(VList([])), One(vc), One(text("out")), One(VList([One(VTuple([One(f), One(g)])) for f, g in direct])),
                                   One(VList([One(x) for x in names])), One(False)])
            except SymRaise as e:
                return ctx.fail(f"{what}: raises no exception", repr(e.value))
            for o, b in before:
                den_eq(it, vden_args(it, o), b, f"{what}: the functions given are unchanged")
            # what must be in the file
            level = {(f, g): f"{f}_{g}" for f, g in direct}
            want, rewritten, law, cb = [], set(), ab, {c: x[3] for c, (_, x) in cs.items()}
            for (f, g), nm in level.items():
                want.append((nm, f, T.special(ls[f][1][3], nm, f, g)))
                rewritten.add(f)
            depth = 0
            while level:
                for (f, g), nm in level.items():
                    cb = {c: T.with_in(t, nm, f, g) for c, t in cb.items()}
                    law = T.filt(T.rename(law, nm, f))
                nxt = {}
                for (f, g), nm in level.items():
                    for c in lang:
                        if c in callers.get(f, ()):
                            new = f"{c}_{nm}"
                            want.append((new, c, T.special(T.special(ls[c][1][3], nm, f, None), new, c, None)))
                            rewritten.add(c)
                            nxt[c, g] = new
                level = nxt
            passed = {g for _, g in direct}
            groups = [[(f, f, ls[f][1][3], False) for f in lang if f not in rewritten],
                      [(c, c, T.filt(cb[c]), False) for c in cands if c in passed]]
            groups += [[(nm, f, t, True)] for nm, f, t in want]
            groups += [[(None, "law", law, None)] + [(c, c, T.filt(cb[c]), False) for c in cands if c not in passed]]
            src = {**{f: x for f, (_, x) in ls.items()}, **{c: x for c, (_, x) in cs.items()}, "law": (an, ai, ap, ab, None)}
            check_defs(it, content, groups, src, what)
        ctx.explore(path)
    return run


def check_defs(it, content, groups, src, what):
    ctx = it.ctx
    try:
        xs = items_of(it, content)
    except ParseError as e:
        return ctx.fail(f"{what}: the file is a sequence of commands", str(e))
    defs = [(i, x) for i, x in enumerate(xs) if head(x) in ("define-fun", "define-fun-rec", "define-funs-rec", "declare-fun", "define-const")]
    asserts = [(i, x) for i, x in enumerate(xs) if head(x) == "assert"]
    ctx.prove(z3.BoolVal(len(asserts) == 2), f"{what}: the axiom and the condition are asserted, nothing else")
    ctx.prove(z3.BoolVal(all(isinstance(x, SList) or isinstance(x, Atom) and x.kind == "prelude" or isinstance(x, Seg) and head(x.exprs[0]) == "declare-const"
                             for x in xs)), f"{what}: the file has definitions, assertions and declarations")
    last, n = -1, 0
    for g in groups:
        top = last
        for nm, f, body, filtered in g:
            if nm is None:
                k, x = asserts[0] if asserts else (None, None)
                if x is None:
                    continue
                q = x.items[1]
                if head(q) == "forall":
                    pl, b = q.items[1], q.items[2]
                else:
                    pl, b = SList([]), q
            else:
                m = [(i, x) for i, x in defs if len(x.items) == 5 and isinstance(x.items[1], Tok) and x.items[1].text() == nm]
                if len(m) != 1:
                    ctx.fail(f"{what}: {nm} is defined once", f"{len(m)} definitions of {nm}: {[repr(x)[:60] for _, x in defs]}")
                    continue
                n += 1
                k, x = m[0]
                pl, b = x.items[2], x.items[4]
                ctx.prove(sort_z3(it, x.items[3]) == TYSMT(src[f][4]), f"{what}: {nm} has the result sort of {f}")
            ctx.prove(z3.BoolVal(k > last), f"{what}: {nm or 'the axiom'} comes after what it uses")
            top = max(top, k)
            ctx.prove(z3.BoolVal(isinstance(b, Atom) and b.kind == "smt") if not (isinstance(b, Atom) and b.ref) else b.ref.id == body,
                      f"{what}: the body of {nm or 'the axiom'} is that of {f}, specialised")
            cnt, idx, par, _, _ = src[f]
            den_eq(it, DApp("params", param_segs(it, pl, what)),
                   DApp("params", [Many(cnt, idx, DApp("par", [One(DLeaf(S_(nameof(par.id)))), One(DLeaf(S_(TYSMT(tyof(par.id)))))]),
                                        z3.Not(is_fn(tyof(par.id))) if filtered else None)]),
                   f"{what}: the parameters of {nm or 'the axiom'}")
        last = top
    ctx.prove(z3.BoolVal(n == len(defs)), f"{what}: no other function is defined")
    if len(asserts) == 2:
        ctx.prove(z3.BoolVal(asserts[1][0] > last), f"{what}: the condition comes last")


def S_(t):
    return STRV(t)


def param_segs(it, pl, what):
    out = []
    for x in pl.items:
        m, e = (x.many, x.exprs[0]) if isinstance(x, Seg) else (None, x)
        if not isinstance(e, SList) or len(e.items) != 2:
            raise ParseError("parameter")
        d = DApp("par", [One(DLeaf(S_(FileReader(it).binder(e.items[0])))), One(DLeaf(S_(sort_z3(it, e.items[1]))))])
        out.append(Many(m.n, m.idx, d, m.cond) if m is not None else One(d))
    return out


SHAPES = {
    "one function": (["F", "K"], {"K": ["F"]}, [("F", "G")], ["G", "PS"]),
    "a caller": (["F", "C", "K"], {"F": ["C"], "K": ["F"]}, [("F", "G")], ["PS", "G"]),
    "two callers": (["K", "F", "C", "D"], {"F": ["C", "D"]}, [("F", "G")], ["G", "PS", "INV"]),
    "a caller of a caller": (["F", "C", "D"], {"F": ["C"], "C": ["D"]}, [("F", "G")], ["G", "PS"]),
    "two functions passed": (["F", "C"], {"F": ["C"]}, [("F", "G"), ("F", "H")], ["G", "H", "PS"]),
    "two higher-order functions": (["F", "E", "C"], {"F": ["C"]}, [("F", "G"), ("E", "G")], ["G", "PS"]),
}
for _k, (_l, _c, _d, _s) in SHAPES.items():
    UNITS[f"toSMT specialises: {_k}"] = unit_specialised(_l, _c, _d, _s, f"toSMT({_k})")
BOUNDED.append("toSMT with functions passed as operands: libraries of up to four functions with the call graphs " + ", ".join(SHAPES) + " (bodies, parameters and types arbitrary)")


# ---- the condition and the functions on their way to the file ------------------------
def unit_parse(cls):
    """parse_candidates rebuilds the expression it is given (no lambdas inside)"""
    fn = sc.parse_candidates
    what = f"parse_candidates[{cls.__name__}]"

    def run(ctx):
        con = base_contracts()
        it = I.Interp(ctx, con)
        st = {}

        def rec(it, args, kw):
            d = bind(fn, args, kw)
            if not st.get("inside"):
                st["inside"] = True
                return it.run_func(it.vfunc(fn), args, kw)
            e = it.split(d["candidate"])
            logs = VTuple([One(d["in_calls"]), One(d["fn_calls"])])
            for k in ("in_calls", "fn_calls", "fns_type", "extracted_lambdas"):
                it.ctx.prove(z3.BoolVal(it.split(d[k]) is st[k]), f"{what}: operands are read with the same {k}")
            if not isinstance(e, VObj):
                return VTuple([One(e), One(logs)])
            if e is st["o"]:
                it.unsupported("recursive call on the expression itself")
            r = image(it, IMG, e)
            # induction: the image is an expression of the same kind and name
            it.ctx.assume(z3.And(clsof(r.id) == clsof(e.id), nameof(r.id) == nameof(e.id)))
            return VTuple([One(r), One(logs)])
        con.by_qual["metalift.synthesis_common.parse_candidates"] = rec

        def path():
            st.clear()
            o = self_of(it, cls)
            it.getattr(o, "args")
            ctor_inv(it, o)
            fn_operands_are_vars(it, o)
            for s in it.seq(it.getattr(o, "args")):
                if isinstance(s, Many):
                    ctx.add_univ(s.n, s.idx, clsof(s.val.id) != it.con.code(ir.Lambda))
            st["o"] = o
            known = VDict([])
            for f in ("f", "g"):
                it.dict_set(known, f, One(None).v)
            st.update(in_calls=VList([]), fn_calls=VList([]), fns_type=known, extracted_lambdas=VList([]))
            before = vden_args(it, o)
            try:
                r = it.call(fn, [One(o)] + [One(st[k]) for k in ("in_calls", "fns_type", "fn_calls", "extracted_lambdas")] + [One("main")])
            except SymRaise as e:
                return ctx.fail(f"{what}: raises no exception", repr(e.value))
            r = it.split(it.seq(it.split(r))[0].v)
            den_eq(it, vden_args(it, o), before, f"{what}: the expression itself is unchanged")
            ctx.prove(z3.BoolVal(not st["extracted_lambdas"].items), f"{what}: no function is made up")
            if cls in (ir.Var, ir.Lit):
                if not isinstance(r, VObj) or r.cls is not cls:
                    return ctx.fail(f"{what}: unchanged", repr(r))
                ctx.prove(it.type_term(it.getattr(r, "type")) == tyof(o.id), f"{what}: same type")
                return den_eq(it, vden_args(it, r), before, f"{what}: unchanged")
            if cls is ir.Call:
                call_is(it, o, r, nameof(o.id), call_operands(it, o), what)
                fc = st["fn_calls"]
                (m,) = it.seq(it.getattr(o, "args"))[1:]
                inp = z3.And(is_fn(tyof(m.val.id)), z3.Or(nameof(m.val.id) == z3.StringVal("f"), nameof(m.val.id) == z3.StringVal("g")))
                want = [Many(m.n, m.idx, DApp("pair", [One(DLeaf(STRV(nameof(o.id)))), One(DLeaf(STRV(nameof(m.val.id))))]), inp)]
                pair = lambda v: DApp("pair", [One(DLeaf(STRV(it.str_term(rope(it.split(x.v)))))) for x in it.seq(it.split(v))])
                got = [Many(s.n, s.idx, pair(s.val), s.cond) if isinstance(s, Many) else One(pair(s.v)) for s in it.seq(st["in_calls"])]
                den_eq(it, DApp("in_calls", got), DApp("in_calls", want), f"{what}: the functions passed are listed with the function they are passed to")
                called = z3.And(z3.Or(nameof(o.id) == z3.StringVal("f"), nameof(o.id) == z3.StringVal("g")))
                names = [it.split(s.v) for s in it.seq(fc)]
                return ctx.prove(z3.Implies(called, z3.Or(*[it.str_term(rope(x)) == nameof(o.id) for x in names])) if names else z3.Not(called),
                                 f"{what}: a call of a known function is listed")
            same_node(it, r, o, op_image(IMG), what)
        ctx.explore(path)
    return run


for _c in CLASSES:
    if _c is not ir.Lambda:
        UNITS[f"parse_candidates {_c.__name__}"] = unit_parse(_c)


# ---- simplification of the candidates --------------------------------------------------
MAPPED = z3.Function("operands_rewritten", Obj, Obj)
TRUE = z3.BoolVal(True)


def unit_prune(cls):
    """prune_fn_decls keeps the meaning of every function; it may use that a function
    whose body is true (false) is true (false)"""
    fn = sc.prune_fn_decls
    Q = "metalift.synthesis_common.prune_fn_decls"
    what = f"prune_fn_decls[{cls.__name__}]"

    def run(ctx):
        con = base_contracts()
        it = I.Interp(ctx, con)
        st = {}

        def walk(it, args, kw):
            e = it.split(args[0].v)
            if e is st["o"] and not st.get("inside"):
                st["inside"] = True
                st["result"] = it.run_func(it.called, args, kw)
                return st["result"]
            if not isinstance(e, VObj):
                return e
            if not e.lazy:
                it.unsupported("walk of a new expression")
            return image(it, IMG, e)

        def mapargs(it, o, a, k):
            if o is st["o"]:
                return it.run_func(it.vfunc(ir.Expr.map_args), [One(o)] + list(a), k)
            probe = new_obj(it, z3.Const("probe", Obj))
            r = it.split(it.call(a[0].v, [One(probe)]))
            if not (isinstance(r, VObj) and r.lazy and r.id.eq(IMG(probe.id))):
                it.unsupported("map_args with another function")
            r = new_obj(it, MAPPED(o.id), facts=False)
            it.ctx.assume(z3.And(D(r.id) == D(o.id), tyof(r.id) == tyof(o.id), clsof(r.id) == clsof(o.id), nameof(r.id) == nameof(o.id)))
            return r

        def eqc(it, args, kw):
            a, b = it.split(args[0].v), it.split(args[1].v)
            if isinstance(a, VObj) and isinstance(b, VObj) and a.lazy and not b.lazy:
                # contract of the structural equality (P06): equal expressions mean the same
                t = ctx.fresh(z3.BoolSort(), "equal")
                v = den_z3(den_expr(it, b.attrs.get("src", b) if b.cls and issubclass(b.cls, ir.Object) else b))
                it.ctx.assume(z3.Implies(t, D(a.id) == v))
                return Sym(t)
            it.unsupported("equality of two other expressions")
        con.virtual["map_args"] = mapargs
        con.by_qual["metalift.ir.Expr.__eq__"] = eqc
        for local in ("prune_ite",):
            con.by_qual[f"{Q}.{local}"] = walk

        def path():
            st.clear()
            o = self_of(it, cls)
            it.getattr(o, "args")
            ctor_inv(it, o)
            st["o"] = o
            g = new_obj(it, z3.Const("gbody", Obj))
            ctx.assume(tyof(g.id) == Ty.TBool)
            fns = VDict([])
            it.dict_set(fns, "g", it.call(ir.FnDeclRecursive, [One("g"), One(SType(Ty.TBool)), One(g)]))
            it.dict_set(fns, "main", it.call(ir.FnDeclRecursive, [One("main"), One(SType(tyof(o.id))), One(o)]))
            before = vden_args(it, o)
            try:
                new = it.split(it.call(fn, [One(fns)]))
            except SymRaise as e:
                return ctx.fail(f"{what}: raises no exception", repr(e.value))
            den_eq(it, vden_args(it, o), before, f"{what}: the expression itself is unchanged")
            items = [(it.split(k), it.split(v)) for k, v in it.dict_items(new)]
            ctx.prove(z3.BoolVal([k for k, _ in items] == ["g", "main"]), f"{what}: the same functions are returned")
            for k, f in items:
                if k == "main":
                    same_decl(it, f, k, tyof(o.id), what)
                    r = it.split(it.seq(it.getattr(f, "args"))[1].v)
                else:
                    same_decl(it, f, k, Ty.TBool, what)
                    b = it.split(it.seq(it.getattr(f, "args"))[1].v)
                    ctx.prove(b.id == IMG(g.id) if isinstance(b, VObj) and b.lazy else z3.BoolVal(False), f"{what}: every body is simplified")
            if cls in (ir.Var, ir.Lit):
                if not isinstance(r, VObj) or r.cls is not cls:
                    return ctx.fail(f"{what}: unchanged", repr(r))
                return den_eq(it, vden_args(it, r), before, f"{what}: unchanged")
            if cls is ir.Ite and isinstance(r, VObj) and r.lazy:
                c = arg(o.id, 0)
                # what the paths taken tell about the condition
                def means(v):
                    of = lambda nm, x: z3.And(clsof(c) == con.code(ir.Call), nameof(c) == z3.StringVal(nm), D(x) == v)
                    return z3.Or(D(c) == v, of("g", g.id), of("main", o.id))
                known, knowf = means(B_(TRUE)), means(B_(z3.Not(TRUE)))
                a, b = arg(o.id, 1), arg(o.id, 2)
                branch = lambda x: z3.Or(r.id == MAPPED(x), r.id == IMG(x), r.id == x)
                return ctx.prove(z3.Or(z3.And(branch(a), known), z3.And(branch(b), knowf)), f"{what}: a branch stands for the whole only when the condition is known")
            same_node(it, r, o, op_image(IMG), what)
        ctx.explore(path)
    return run


def same_decl(it, f, name, ret, what):
    ok = isinstance(f, VObj) and f.cls is ir.FnDeclRecursive
    it.ctx.prove(z3.BoolVal(ok and unrope(rope(it.split(it.seq(it.getattr(f, "args"))[0].v))) == name), f"{what}: {name} is the same kind of declaration")
    if ok:
        it.ctx.prove(it.type_term(it.call(it.getattr(f, "return_type"), [])) == ret, f"{what}: {name} has the same type")


for _c in CLASSES:
    UNITS[f"prune_fn_decls {_c.__name__}"] = unit_prune(_c)


def unit_glue(n_lang, n_loops):
    """verify_synth_result hands toSMT the functions, condition and candidates it got,
    and cvc5 the file toSMT wrote"""
    what = "verify_synth_result"

    def run(ctx):
        con = base_contracts()
        it = I.Interp(ctx, con)
        st = {}

        def parsed(it, a, k):
            d = bind(sc.parse_candidates, a, k)
            e = it.split(d["candidate"])
            logs = VTuple([One(d["in_calls"]), One(d["fn_calls"])])
            if not isinstance(e, VObj):
                return VTuple([One(e), One(logs)])
            return VTuple([One(image(it, IMG, e)), One(logs)])

        def query(it, a, k):
            st["query"] = bind(su.toSMT, a, k)

        def ran(it, a, k):
            st["cmd"] = [it.split(s.v) for s in it.seq(it.split(a[0].v))]
            st["asked"] = "query" in st
            return Opaque("process", {"returncode": Sym(ctx.fresh(z3.IntSort(), "rc")), "stdout": Opaque("bytes", {"decode": SpecFn(lambda it, a, k: Rope([Atom(z3.String("answer"), "name"), "\n", ""]))})})
        con.by_qual["metalift.synthesis_common.parse_candidates"] = parsed
        con.by_qual["metalift.smt_util.toSMT"] = query
        con.by_qual["tests.python.utils.utils.codegen"] = lambda it, a, k: "code"
        con.native[id(sc.subprocess.run)] = ran
        con.native[id(print)] = lambda it, a, k: None
        con.by_qual["str.split"] = lambda it, a, k: VList([One(Rope([Atom(z3.String("answer"), "name")])), One("")])

        def path():
            st.clear()

            def decl(cls, nm, body=True):
                n = z3.Int("n_" + nm)
                ctx.add(n >= 1)
                idx = it.idx_for(n)
                par = VObj((ir.Var,), z3.Function("param_" + nm, z3.IntSort(), Obj)(idx), {}, lazy=True, sort="expr")
                b, ret = new_obj(it, z3.Const("body_" + nm, Obj)), SType(z3.Const("ret_" + nm, Ty))
                ctx.add_univ(n, idx, clsof(par.id) == con.code(ir.Var))
                if cls is ir.Axiom:
                    o = it.call(cls, [One(b), Many(n, idx, par)])
                else:
                    o = it.call(cls, [One(nm), One(ret), One(b if body else None), Many(n, idx, par)])
                return o, (nm, ret, b, Many(n, idx, par))
            kinds = [(ir.FnDeclRecursive, "F"), (ir.FnDecl, "K"), (ir.Axiom, "law"), (ir.FnDecl, "ext")][:n_lang]
            lang = [decl(c, nm, nm != "ext") for c, nm in kinds]
            for c in EXPR:
                con.code(c)
            cands = [decl(ir.FnDeclRecursive, nm) for nm in ("PS", "INV")[:n_loops]]
            vars_ = seq_of(it, "var", (ir.Var,))
            vset, preds = VList([vars_]), VList([])
            vc = new_obj(it, z3.Const("vc", Obj))
            ctx.assume(tyof(vc.id) == Ty.TBool)
            cd = VDict([])
            for o, (nm, _, b, _) in cands:
                it.dict_set(cd, nm, b)
            cvs = VList([One(o) for o, _ in cands])
            args = {"basename": "job", "targetLang": VList([One(o) for o, _ in lang]), "vars": vset, "preds": preds, "vc": vc,
                    "loopAndPsInfo": VList([One(o) for o, _ in cands]), "cvcPath": text("cvc5"), "synthDir": "dir/", "candidatesSMT": cvs,
                    "candidateDict": cd, "fnsType": VDict([]), "uid": 0, "use_rosette": False}
            before = [(o, vden_args(it, o)) for o, _ in lang + cands]
            try:
                it.call(sc.verify_synth_result, [], args)
            except SymRaise as e:
                return ctx.fail(f"{what}: raises no exception", repr(e.value))
            for o, b in before:
                den_eq(it, vden_args(it, o), b, f"{what}: the functions given are unchanged")
            q = st.get("query")
            if q is None or "cmd" not in st:
                return ctx.fail(f"{what}: a query is written and given to cvc5", "")
            ctx.prove(z3.BoolVal(st["asked"]), f"{what}: the query is written before cvc5 runs")
            f = it.str_term(rope(it.split(q["out_file"])))
            opts = [unrope(rope(c)) if isinstance(c, (str, Rope)) else c for c in st["cmd"]]
            ctx.prove(z3.BoolVal(isinstance(opts[0], Rope) or opts[0] is args["cvcPath"]) if not isinstance(opts[0], Rope) else it.str_term(opts[0]) == it.str_term(args["cvcPath"]),
                      f"{what}: cvc5 is run")
            ctx.prove(z3.BoolVal(len(opts) > 1) if len(opts) < 2 else it.str_term(rope(opts[-1])) == f, f"{what}: cvc5 reads the file that was written")
            ctx.prove(z3.BoolVal(it.split(q["is_synthesis"]) is False), f"{what}: a verification query")
            ctx.prove(it.split(q["vc"]).id == IMG(vc.id), f"{what}: the condition")
            same_items(it, q["vars"], [vars_], f"{what}: the variables")
            got = it.seq(it.split(q["inv_and_ps"]))
            ctx.prove(z3.BoolVal(len(got) == len(cands)), f"{what}: all candidates")
            for s, (o, x) in zip(got, cands):
                is_decl(it, it.split(s.v), x, x[2].id, what)
            ctx.prove(z3.BoolVal(it.split(q["preds"]) is preds or not it.seq(it.split(q["preds"]))), f"{what}: the predicates")
            got = it.seq(it.split(q["target_lang"]))
            ctx.prove(z3.BoolVal(len(got) == len(lang)), f"{what}: all functions and axioms")
            for s, (o, x), (c, nm) in zip(got, lang, kinds):
                g = it.split(s.v)
                if c is ir.Axiom:
                    ok = isinstance(g, VObj) and g.cls is ir.Axiom
                    ctx.prove(z3.BoolVal(ok), f"{what}: the axiom")
                    if ok:
                        a = it.seq(it.getattr(g, "args"))
                        e = it.split(a[0].v)
                        ctx.prove(z3.Or(e.id == x[2].id, e.id == IMG(x[2].id)), f"{what}: the axiom says what it said")
                        vs = [unimage(it, y) for y in a[1:]]
                        den_eq(it, DApp("p", sden(it, vs)), DApp("p", sden(it, peeled(it, vs, x[3]))), f"{what}: the axiom is about the same variables")
                elif nm == "ext":
                    ctx.prove(z3.BoolVal(isinstance(g, VObj) and it.split(it.seq(it.getattr(g, "args"))[1].v) is None), f"{what}: a function without a body keeps none")
                else:
                    is_decl(it, g, x, IMG(x[2].id), what)
        ctx.explore(path)
    return run


def unimage(it, s):
    """the variable x for x or its image (parse_candidates does not change variables)"""
    def one(v):
        v = it.split(v)
        if isinstance(v, VObj) and v.lazy and z3.is_app(v.id) and v.id.decl().eq(IMG):
            return VObj((ir.Var,), v.id.arg(0), {}, lazy=True, sort="expr")
        return v
    return Many(s.n, s.idx, one(s.val), s.cond) if isinstance(s, Many) else One(one(s.v))


def peeled(it, got, m):
    """the items of m, the first ones apart as in got"""
    k = 0
    while k < len(got) and isinstance(got[k], One):
        k += 1
    if k and it.ctx.must(m.n >= k):
        at = lambda t: VObj(m.val.dom, z3.substitute(m.val.id, (m.idx, t)), {}, lazy=True, sort="expr")
        idx = it.idx_for(z3.simplify(m.n - k))
        return [One(at(z3.IntVal(i))) for i in range(k)] + [Many(z3.simplify(m.n - k), idx, at(idx + k))]
    return [m]


def same_items(it, got, want, what):
    den_eq(it, DApp("items", sden(it, it.seq(it.split(got)))), DApp("items", sden(it, want)), what)


def is_decl(it, g, x, body, what):
    nm, ret, _, params = x
    ok = isinstance(g, VObj) and g.cls in (ir.FnDecl, ir.FnDeclRecursive)
    it.ctx.prove(z3.BoolVal(ok), f"{what}: {nm} is a function definition")
    if not ok:
        return
    a = it.seq(it.getattr(g, "args"))
    it.ctx.prove(it.str_term(rope(it.split(a[0].v))) == z3.StringVal(nm), f"{what}: {nm} has its name")
    b = it.split(a[1].v)
    it.ctx.prove(b.id == body if isinstance(b, VObj) and b.lazy else z3.BoolVal(False), f"{what}: {nm} has its body")
    den_eq(it, DApp("p", sden(it, [unimage(it, s) for s in a[2:]])), DApp("p", sden(it, [params])), f"{what}: {nm} has its parameters")
    it.ctx.prove(it.type_term(it.call(it.getattr(g, "return_type"), [])) == ret.t, f"{what}: {nm} has its type")


UNITS["verify_synth_result query"] = unit_glue(4, 2)
BOUNDED.append("verify_synth_result: one library function of each kind, two candidates (the query's contents are arbitrary)")


# ---- walks that collect names --------------------------------------------------------
def unit_walk(cls, fn, local, start, found):
    """the walk looks at every operand of the expression, and at the expression itself
    exactly when it should: found(it, o, st, what)"""
    qual = f"{fn.__module__}.{fn.__name__}" + (f".{local}" if local else "")
    what = f"{fn.__name__}[{cls.__name__}]"

    def run(ctx):
        con = base_contracts()
        it = I.Interp(ctx, con)
        st = {}

        def walk(it, args, kw):
            vals = [a.v for a in args] + list(kw.values())
            e = next((x for x in map(it.split, vals) if isinstance(x, VObj)), None)
            if e is None:
                return it.run_func(it.called if local else it.vfunc(fn), args, kw)
            if e is st["o"] and not st.get("inside"):
                st["inside"] = True
                r = it.run_func(it.called if local else it.vfunc(fn), args, kw)
                st["done"], st["image"] = True, r
                return e if local else r
            if getattr(it, "in_comprehension", 0):
                return image(it, IMG, e)    # what is looked at shows in the result
            if st.get("inside") and not st.get("done"):
                it.call(it.getattr(st["seen"], "append"), [One(e)])
                return image(it, IMG, e) if local else None
            return e if local else None
        con.by_qual[qual] = walk
        con.by_qual.pop("metalift.smt_util.get_direct_calls", None)

        def path():
            st.clear()
            o = self_of(it, cls)
            segs = it.seq(it.getattr(o, "args"))
            ctor_inv(it, o)
            fn_operands_are_vars(it, o)
            st["o"], st["seen"] = o, VList([])
            before = vden_args(it, o)
            g = it.call(ir.FnDeclRecursive, [One("main"), One(SType(tyof(o.id))), One(o)])
            try:
                st["result"] = start(it, fn, g, o, st)
            except SymRaise as e:
                return ctx.fail(f"{what}: raises no exception", repr(e.value))
            den_eq(it, vden_args(it, o), before, f"{what}: the expression itself is unchanged")
            kids = [s for s in segs if isinstance(s, Many) or isinstance(it.split(s.v), VObj)]
            seen = list(st["seen"].items)
            r = it.split(st.get("image"))
            if kids and isinstance(r, VObj) and r is not o:
                same_node(it, r, o, op_image(IMG), f"{what}: every operand is looked at")
            else:
                den_eq(it, DApp("seen", sden(it, seen)), DApp("seen", sden(it, kids)), f"{what}: every operand is looked at")
            found(it, o, st, what)
        ctx.explore(path)
    return run


def start_used(it, fn, g, o, st):
    return it.split(it.call(fn, [One(VList([One(g)]))]))


def names_in(it, s):
    return [it.str_term(rope(it.split(x.v))) for x in it.seq(s)]


def found_used(it, o, st, what):
    is_call = o.cls is ir.Call
    got = names_in(it, st["result"])
    it.ctx.prove(z3.BoolVal(len(got) == (1 if is_call else 0)), f"{what}: exactly the function called is listed")
    if is_call and got:
        it.ctx.prove(got[0] == nameof(o.id), f"{what}: the function called")


def start_direct(it, fn, g, o, st):
    return it.split(it.call(fn, [One(VList([One(g)]))]))


def found_direct(it, o, st, what):
    items = [(it.str_term(rope(it.split(k))), names_in(it, it.split(v))) for k, v in it.dict_items(st["result"])]
    if o.cls is not ir.Call:
        return it.ctx.prove(z3.BoolVal(not items), f"{what}: no call is listed")
    own = nameof(o.id) == z3.StringVal("main")
    if not items:
        return it.ctx.prove(own, f"{what}: a call of another function is listed")
    ok = len(items) == 1 and len(items[0][1]) == 1
    it.ctx.prove(z3.BoolVal(ok), f"{what}: one call is listed")
    if ok:
        it.ctx.prove(z3.And(z3.Not(own), items[0][0] == nameof(o.id), items[0][1][0] == z3.StringVal("main")), f"{what}: the function called, with its caller")


def start_dependent(it, fn, g, o, st):
    st["out"] = VList([])
    it.call(fn, [One(o), One(VList([One("f"), One("g")])), One(st["out"])])
    return st["out"]


def found_dependent(it, o, st, what):
    got = names_in(it, st["result"])
    if o.cls not in (ir.Call, ir.Var):
        return it.ctx.prove(z3.BoolVal(not got), f"{what}: no name is listed")
    known = z3.Or(nameof(o.id) == z3.StringVal("f"), nameof(o.id) == z3.StringVal("g"))
    it.ctx.prove(z3.And(known, got[0] == nameof(o.id)) if len(got) == 1 else z3.Not(known) if not got else z3.BoolVal(False), f"{what}: the known function it names is listed")


for _c in CLASSES:
    UNITS[f"get_used_fn_names {_c.__name__}"] = unit_walk(_c, sc.get_used_fn_names, "get_fn_names", start_used, found_used)
    UNITS[f"get_direct_calls {_c.__name__}"] = unit_walk(_c, su.get_direct_calls, "get_fn_direct_calls", start_direct, found_direct)
    if _c is not ir.Lit:
        UNITS[f"get_dependent_fn_names {_c.__name__}"] = unit_walk(_c, su.get_dependent_fn_names, None, start_dependent, found_dependent)
