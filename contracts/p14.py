"""P14: the tensor operations and the lemmas about them that the verifier is given"""
import random
import z3
import env
from pyvc.core import Unsupported
from pyvc.lists import *
from pyvc.lists import spec
from pyvc.il import *
from .listspec import *
from . import p12

PID = "P14"
WHERE = "tenspiler_common.py"
FLOOR = lambda a, b: a / b
OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": FLOOR}
F1 = z3.Function("map_fn", INT, INT)
F2 = z3.Function("select_fn", INT, INT, INT)
F4 = z3.Function("dissolve_fn", INT, INT, INT, INT, INT)
HOF = {1: F1, 2: F2, 4: F4}


def pair(name, op, more=0):
    """element by element; nothing if the lengths differ"""
    me = spec(name, lambda s: [s, s] + [INT] * more + [s], 0, lambda s, r: nil(s),
              lambda s, h, t, r: z3.If(LEN(r[0]) == LEN(t) + 1, cons((me if is_list(elem(s)) else op)(h, GET(r[0], 0), *r[1:]), me(t, DROP(r[0], 1), *r[1:])), nil(s)))
    return me


def each(name, op, scalar=1):
    me = spec(name, lambda s: [s] + [INT] * scalar + [s], 0, lambda s, r: nil(s),
              lambda s, h, t, r: cons((me if is_list(elem(s)) else op)(h, *r), me(t, *r)))
    return me


EW = {n: pair("EW_" + n, f) for n, f in OPS.items()}
SC = {n: each("SC_" + n, f) for n, f in OPS.items()}                       # element op scalar
RS = {n: each("RS_" + n, lambda h, s, f=f: f(s, h)) for n, f in OPS.items()}   # scalar op element
SEL = pair("SEL", F2)
DIS = pair("DIS", F4, 2)
MAPF = each("MAPF", F1, 0)
only1 = lambda s, v: v if s.eq(L1) else bad()
SUM = spec("SUM", lambda s: [s, INT], 0, lambda s, r: z3.IntVal(0), lambda s, h, t, r: only1(s, h + SUM(t) if s.eq(L1) else 0))
PROD = spec("PROD", lambda s: [s, INT], 0, lambda s, r: z3.IntVal(1), lambda s, h, t, r: only1(s, h * PROD(t) if s.eq(L1) else 0))
MAX = spec("MAX", lambda s: [s, INT], 0, lambda s, r: z3.IntVal(-32), lambda s, h, t, r: only1(s, z3.If(LEN(t) == 0, h, z3.If(h > MAX(t), h, MAX(t))) if s.eq(L1) else 0))
MV = spec("MV", lambda s: [s, L1, L1], 0, lambda s, r: nil(L1),
          lambda s, h, t, r: z3.If(z3.And(LEN(h) > 0, LEN(h) == LEN(r[0])), cons(SUM(EW["mul"](h, r[0])), MV(t, r[0])), nil(L1)) if s.eq(L2) else bad())
MINE = [x.name for x in [*EW.values(), *SC.values(), *RS.values(), SEL, DIS, MAPF, SUM, PROD, MAX, MV]]


# --------------------------------------------------------------- references
def q_floor(a, b):
    inr(b > 0)
    return a // b


PYOPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": q_floor}
PYF = {1: lambda a: 3 * a + 1, 2: lambda a, b: a if a * a > b + 2 else b - 7 * a, 4: lambda a, b, o, r: a * 3 + b - (5 if o - r >= 1 else o * r)}


def q_pair(op):
    def f(a, b, *more):
        inr(len(a) == len(b))
        return tuple(f(x, y, *more) if isinstance(x, tuple) else op(x, y, *more) for x, y in zip(a, b))
    return f


def q_each(op):
    def f(a, *more):
        return tuple(f(x, *more) if isinstance(x, tuple) else op(x, *more) for x in a)
    return f


def q_max(l):
    inr(l)
    return max(l)


def q_prod(l):
    r = 1
    for x in l:
        r *= x
    return r


def q_mv(m, v):
    inr(v and all(len(r) == len(v) for r in m))
    return tuple(sum(a * b for a, b in zip(r, v)) for r in m)


DIM = {"vec": L1, "matrix": L2, "tensor3d": L3}
CONTRACTS = {
    "reduce_sum": Con([L1], ref=lambda l: SUM(l), py=lambda l: sum(l), measure=LEN),
    "reduce_mul": Con([L1], ref=lambda l: PROD(l), py=q_prod, measure=LEN),
    "reduce_max": Con([L1], ref=lambda l: MAX(l), py=q_max, measure=LEN),
    "matrix_vec_mul": Con([L2, L1], ref=lambda m, v: MV(m, v), py=q_mv, measure=lambda m, v: LEN(m)),
    "vec_map": Con([L1], ref=lambda l: MAPF(l), py=q_each(PYF[1]), measure=LEN),
    "ite_int": Con([BOOL, INT, INT], ref=lambda c, a, b: z3.If(c, a, b), py=lambda c, a, b: a if c else b),
    "selection_two_args": Con([L1, L1], ref=lambda a, b: SEL(a, b), py=q_pair(PYF[2]), measure=lambda a, b: LEN(a)),
    "matrix_selection_two_args": Con([L2, L2], ref=lambda a, b: SEL(a, b), py=q_pair(PYF[2]), measure=lambda a, b: LEN(a)),
    "dissolve_selection_two_args": Con([L1, L1, INT, INT], ref=lambda a, b, o, r: DIS(a, b, o, r), py=q_pair(PYF[4]), measure=lambda a, b, o, r: LEN(a)),
    "dissolve_matrix_selection_two_args": Con([L2, L2, INT, INT], ref=lambda a, b, o, r: DIS(a, b, o, r), py=q_pair(PYF[4]), measure=lambda a, b, o, r: LEN(a)),
    "integer_exp": Con([INT], ref=lambda n: p12.EXPM(n), py=lambda n: pow(3, max(n, 0), 64), measure=lambda n: n),
}
for _k, _s in DIM.items():
    for _n in OPS:
        CONTRACTS[f"{_k}_elemwise_{_n}"] = Con([_s, _s], ref=lambda a, b, f=EW[_n]: f(a, b), py=q_pair(PYOPS[_n]), measure=lambda a, b: LEN(a))
        # the scalar comes first in the arguments
        CONTRACTS[f"{_k}_scalar_{_n}"] = Con([INT, _s], ref=lambda s, l, f=SC[_n]: f(l, s), py=lambda s, l, f=q_each(PYOPS[_n]): f(l, s), measure=lambda s, l: LEN(l))
        CONTRACTS[f"scalar_{_k}_{_n}"] = Con([INT, _s], ref=lambda s, l, f=RS[_n]: f(l, s), py=lambda s, l, f=q_each(lambda h, s, g=PYOPS[_n]: g(s, h)): f(l, s), measure=lambda s, l: LEN(l))
LIB = dict(p12.CONTRACTS)
T3 = {
    "tensor3d_length": Con([L3], ref=LEN, py=len),
    "tensor3d_empty": Con([], ref=lambda: nil(L3), py=lambda: ()),
    "tensor3d_prepend": Con([L2, L3], ref=cons, py=lambda x, l: (x,) + l),
    "tensor3d_append": Con([L3, L2], ref=SNOC, py=lambda l, x: l + (x,)),
    "tensor3d_get": Con([L3, INT], ref=GET, py=p_get),
    "tensor3d_tail": Con([L3, INT], ref=DROP, py=p_tail),
    "tensor3d_take": Con([L3, INT], ref=TAKE, py=p_take),
    "tensor3d_slice": Con([L3, INT, INT], ref=p12.SLICE, py=p_slice),
}
# the library functions Tenspiler declares itself have the library's contracts
ALSO = ["vec_slice", "vec_slice_with_length", "matrix_row_slice", "matrix_row_slice_with_length", "matrix_col_slice", "matrix_col_slice_with_length", "firsts", "rests", "matrix_transpose"]
for _n in ALSO:
    CONTRACTS[_n] = LIB[_n]
PRE = {
    "get": lambda l, i: [0 <= i, i < LEN(l)], "tail": lambda l, n: [0 <= n, n <= LEN(l)], "take": lambda l, n: [0 <= n, n <= LEN(l)],
}


def builtins(names, ranges=True):
    """library functions, to be used in range"""
    out = {}
    for n, c in {**LIB, **T3}.items():
        if n in names:
            continue
        if not ranges:
            out[n] = c
            continue
        pre = PRE.get(n.split("_")[-1]) if n.split("_")[0] in ("list", "matrix", "tensor3d") else None
        out[n] = Con(c.sorts, pre=pre or c.pre_, ref=c.ref, post=c.post_, py=c.py, ret=c.ret)
    return out


# -------------------------------------------------------------------- reading
def sort_of(t):
    from typing import get_args
    from metalift import ir
    try:
        s = t.toSMTType(get_args(t))
    except NotImplementedError:
        raise Unsupported(f"type {t}")
    r = {"Int": INT, "Bool": BOOL, "(MLList Int)": L1, "(MLList (MLList Int))": L2, "(MLList (MLList (MLList Int)))": L3}.get(s)
    if r is None:
        raise Unsupported(f"type {s}")
    return r


PRIM = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "div", "Mod": "mod", "Eq": "=", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=", "And": "and", "Or": "or", "Not": "not", "Implies": "=>"}


def read_expr(e, fparams=()):
    from metalift import ir
    k = type(e).__name__
    g = lambda x: read_expr(x, fparams)
    if k in ("Int", "Bool", "List", "Matrix", "Tensor3D"):
        return g(e.src)
    if k == "Var":
        return ("var", e.args[0])
    if k == "Lit":
        if not isinstance(e.args[0], (int, bool)):
            raise Unsupported("literal")
        return ("const", e.args[0])
    if k in PRIM:
        return ("prim", PRIM[k], [g(x) for x in e.args])
    if k == "Ite":
        return ("ite", *[g(x) for x in e.args])
    if k == "CallValue":
        f = e.args[0]
        n = len(e.args) - 1
        if type(f).__name__ != "Var" or f.args[0] not in fparams or n not in HOF:
            raise Unsupported("call of a function value")
        return ("hcall", n, [g(x) for x in e.args[1:]])
    if k == "Call":
        xs = []
        for x in e.args[1:]:
            if ir.is_fn_decl_type(x.type):
                if fparams and x.args[0] not in fparams:
                    raise Unsupported("another function is passed on")
            else:
                xs.append(g(x))
        if e.args[0] in ("list_eq", "matrix_eq", "tensor3d_eq") and len(xs) == 2:
            return ("prim", "=", xs)
        return ("call", e.args[0], xs)
    raise Unsupported(f"expression {k}")


def read_fn(d):
    from metalift import ir
    name, body, params = d.args[0], d.args[1], d.args[2:]
    fps = {p.args[0] for p in params if ir.is_fn_decl_type(p.type)}
    ps = [(p.args[0], sort_of(p.type)) for p in params if not ir.is_fn_decl_type(p.type)]
    ret = sort_of(body.type) if body is not None else None
    try:
        b = read_expr(body, fps)
    except Unsupported as u:
        b = ("unsupported", str(u))
    return Fun(name, ps, ret, b)


def program():
    import metalift.utils.tenspiler.tenspiler_common as T
    p = Program("smt")
    for n in dir(T):
        d = getattr(T, n)
        if type(d).__name__ in ("FnDecl", "FnDeclRecursive") and d.args[1] is not None:
            p.funs[d.args[0]] = read_fn(d)
    return p


def axioms():
    """every axiom of the library, by name"""
    import metalift.utils.tenspiler.axioms as A
    import metalift.utils.tenspiler.constants as C
    out = {n: getattr(A, n) for n in sorted(dir(A)) if type(getattr(A, n)).__name__ == "Axiom"}
    for f, l in sorted(C.TENSPILER_FN_NAME_TO_AXIOMS.items()):
        for k, a in enumerate(l):
            if not any(a is b for b in out.values()):
                out[f"{f}[{k}]"] = a
    return out


class TGen(Gen):
    """division by 0 has the value SMT-LIB leaves open"""

    def prim(self, op, args, env, path, want):
        n = len(self.obls)
        r = super().prim(op, args, env, path, want)
        if op in ("div", "mod"):
            self.obls = [o for i, o in enumerate(self.obls) if i < n or "divisor" not in o[0]]
        return r


FACTS = []


def facts():
    if not FACTS:
        FACTS.extend(base_facts())
        FACTS.extend(tl(nil(s)) == nil(s) for s in SORTS_USED)
        for n in MINE:
            for s in SORTS_USED:
                try:
                    FACTS.extend(SPECS[n].axioms(s))
                except Wrong:
                    pass
    return list(FACTS)


def runner_builtins(p):
    return {n: c.py for n, c in {**LIB, **T3}.items() if n not in p.funs}


def hof():
    return dict(PYF)


def failing(p, name, con, seed=1, n=600):
    return refute(p, name, con, runner_builtins(p), seed, n, hof=hof())


def unit_of(name):
    def unit(ctx):
        p = program()
        con = CONTRACTS[name]
        if name not in p.funs:
            if name in DECLARED:
                raise Unsupported(f"{name} is not declared")
            UCtx(ctx).obligation(f"{name} is not declared", "discharged", "")
            return
        f = p.funs[name]
        if [s for _, s in f.params] != con.sorts:
            raise Unsupported(f"{name}: parameters {f.params}")
        bi = builtins(p.funs, name not in ALSO)
        c = Checker(UCtx(ctx), p, CONTRACTS, bi, facts(), WHERE, hof=HOF)
        if name == "integer_exp":
            x = z3.Const(f.params[0][0], INT)
            c.prover.facts.append(p12.EXPM(x) == z3.If(x <= 0, 1, 3 * p12.EXPM(x - 1) % 64))
        memo = []

        def cex():
            if not memo:
                memo.append(failing(p, name, con))
            return memo[0] and f"{name}{memo[0][0]}: expected {memo[0][1]}, computes {memo[0][2]}"
        c.ctx.rep.functions.add(f"{WHERE}:{name}")
        vs = [z3.Const(n, s) for n, s in f.params]
        pre = con.pre(*vs)
        # the recursion ends on all arguments (so that the definition adds nothing false)
        if name in calls(f.body):
            g = TGen(p, CONTRACTS, bi, name, con, vs, total=True, hof=HOF)
            g.t(f.body, dict(zip([n for n, _ in f.params], vs)), [], f.ret)
            for k, (n, path, goal) in enumerate(g.obls):
                if "recursion ends" in n:
                    c.discharge(f"{name}: ends on all arguments [{k}]", vs, path + g.assume, goal, cex, induct=False)
        g = TGen(p, CONTRACTS, bi, name, con, vs, hof=HOF)
        r = g.t(f.body, dict(zip([n for n, _ in f.params], vs)), [], f.ret)
        for u in g.used - {name}:
            c.ctx.rep.contracts_used.add(f"{WHERE}:{u}" if u in p.funs else f"list-axioms.smt:{u}")
        for k, (n, path, goal) in enumerate(g.obls):
            c.discharge(f"{name}: {n} [{k}]", vs, pre + path + g.assume, goal, cex, induct=False)
        hyps = pre + g.assume
        if con.ref is None:
            r0 = z3.Const("result", r.sort())
            hyps, r = hyps + [r0 == r], r0
        for k, q in enumerate(con.post(r, *vs)):
            c.discharge(f"{name}: postcondition {k}", vs, hyps, q, cex, induct=con.induct)
    return unit


# --------------------------------------------------------------------- axioms
def consequences(l):
    """lemmas about the specification functions, for the axioms"""
    l = z3.Const("l", L1)
    i, v = z3.Ints("i v")
    return [
        Lemma("sum cat", [l, v], [], SUM(CAT(l, cons(v, nil(L1)))) == SUM(l) + v, [SUM(CAT(l, cons(v, nil(L1))))]),
        Lemma("max cat", [l, v], [LEN(l) > 0], MAX(CAT(l, cons(v, nil(L1)))) == z3.If(v > MAX(l), v, MAX(l)), [MAX(CAT(l, cons(v, nil(L1))))]),
    ]


def total_builtins(p, outside=7):
    """the library's values are settled for all bounds; an element out of range can be anything"""
    cut = lambda l, n: l[:max(n, 0)]
    rest = lambda l, n: l[max(n, 0):]
    sl = lambda l, a, b: rest(cut(l, b), a)

    def get(l, i):
        return l[max(i, 0)] if l and i < len(l) else outside
    b = runner_builtins(p)
    for k in ("list", "matrix", "tensor3d"):
        b.update({f"{k}_take": cut, f"{k}_tail": rest, f"{k}_get": get})
    b.update({n: sl for n in ("vec_slice", "matrix_row_slice", "tensor3d_slice") if n not in p.funs})
    return b


def wide(x):
    return tuple(wide(y) if isinstance(y, tuple) else -37 * y for y in x) if isinstance(x, tuple) else x


def axiom_false(p, a, seed=1, n=1500):
    """values for which the axiom is false of the functions as they are defined"""
    body = read_expr(a.args[0])
    vs = [(v.args[0], sort_of(v.type)) for v in a.args[1:]]
    r = random.Random(seed)
    runs = [Runner(p, total_builtins(p, d), fuel=100000, hof=hof()) for d in (7, -100)]
    for k, args in enumerate(samples([s for _, s in vs], r, n)):
        run = runs[k % 2]
        if k % 3 == 0:
            args = [wide(x) for x in args]
        run.depth = run.steps = 0
        try:
            v = run.ev(body, dict(zip([n for n, _ in vs], args)))
        except (Undef, Diverges, TypeError):
            continue
        if v is not True:
            return dict(zip([n for n, _ in vs], args))
    return None


def axiom_unit(name):
    def unit(ctx):
        p = program()
        table = axioms()
        c = Checker(UCtx(ctx), p, CONTRACTS, builtins(p.funs), facts(), "axioms.py", hof=HOF)
        c.ctx.rep.functions.add(f"axioms.py:{name}")
        if name not in table:
            c.ctx.obligation(f"{name}: not there", "discharged", "")
            return
        a = table[name]
        one(c, p, name, a)
    return unit


def one(c, p, name, a):
    c.prover.facts += [lm.formula() for lm in consequences(None)]
    vs = [z3.Const(v.args[0], sort_of(v.type)) for v in a.args[1:]]

    def cex():
        v = axiom_false(p, a)
        return v and f"false for {v}"
    free = set()
    g = TGen(p, CONTRACTS, builtins(p.funs), total=True, hof=HOF)
    # out of range a library function has some value: preconditions are not required
    f = g.t(read_expr(a.args[0]), {str(v): v for v in vs}, [], BOOL)
    for u in g.used:
        c.ctx.rep.contracts_used.add(f"{WHERE}:{u}" if u in p.funs else f"list-axioms.smt:{u}")
    c.discharge(f"{name} follows from the definitions", vs, g.assume, f, cex)


def other_axioms(ctx):
    """axioms that were not there when this list was written"""
    p = program()
    table = axioms()
    c = Checker(UCtx(ctx), p, CONTRACTS, builtins(p.funs), facts(), "axioms.py", hof=HOF)
    for n, a in table.items():
        if n not in AXIOMS:
            one(c, p, n, a)
    c.ctx.obligation("axioms", "discharged", f"{len(table)}")


def lemma_unit14(ctx):
    u = UCtx(ctx)
    p = Prover(u.rep)
    p.facts = facts()
    prove_lemmas(u, p, consequences(None), "reductions")
    u.obligation("the lemmas are not contradictory", "unknown" if p.query([], z3.BoolVal(False), 5000) else "discharged", "")


def names_now():
    try:
        return sorted(program().funs), sorted(axioms())
    except Exception:
        return [], []


DECLARED = [f"{k}_elemwise_{n}" for k in ("vec", "matrix") for n in OPS] + ["tensor3d_elemwise_add", "tensor3d_elemwise_mul"] + [f"{k}_scalar_{n}" for k in ("vec", "matrix") for n in OPS] \
    + [f"scalar_{k}_{n}" for k in ("vec", "matrix") for n in ("sub", "div")] + ["reduce_sum", "reduce_mul", "reduce_max", "matrix_vec_mul", "vec_map", "ite_int", "selection_two_args",
                                                                             "matrix_selection_two_args", "dissolve_selection_two_args", "dissolve_matrix_selection_two_args", "integer_exp"] + ALSO
AXIOMS = [f"{n}_axiom" for n in ("vec_elemwise_add", "vec_elemwise_sub", "vec_elemwise_mul", "vec_elemwise_div", "vec_scalar_add", "vec_scalar_sub", "vec_scalar_mul", "vec_scalar_div",
                                 "scalar_vec_sub", "scalar_vec_div", "reduce_sum", "reduce_max", "matrix_elemwise_add", "matrix_elemwise_sub", "matrix_elemwise_mul", "matrix_scalar_mul",
                                 "matrix_scalar_div", "matrix_scalar_sub", "matrix_vec_mul", "matrix_selection_two_args", "dissolve_matrix_selection_two_args")]
ASSUMPTIONS = [
    "the list library of the SMT prelude meets its contracts (P12); the prelude has no 3D tensor functions, their contracts are the ones of lists",
    "integer division is SMT-LIB's div; the concrete references use positive divisors only",
    "a function passed as argument is one arbitrary function of integers, the same throughout a call",
    "functions are judged as the IR objects the module builds when it is imported; printing them is P01/P02's subject",
    "integer_sqrt and integer_sqrt_helper have no contract; the search-space builders (get_*_search_space, hole bodies) are not covered",
]
UNITS = {"lemmas": lemma_unit, "lemmas of reductions": lemma_unit14, "other axioms": other_axioms}
for _n in CONTRACTS:
    if _n in DECLARED:
        UNITS[_n] = unit_of(_n)
for _n in AXIOMS:
    UNITS["axiom " + _n] = axiom_unit(_n)
