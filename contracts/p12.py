"""P12: the theory of lists and integers every verification query is given"""
import os
import z3
import env
from pyvc.core import Unsupported
from pyvc.lists import *
from pyvc.il import *
from .listspec import *

PID = "P12"
UTILS = os.path.join(env.REPO, "metalift", "utils")
FILES = ["integer-fn-axioms.smt", "list-axioms.smt"]
SLICE = lambda l, a, b: DROP(TAKE(l, b), a)
EXPM = z3.Function("EXPM", INT, INT)


def lib(pre, s):
    e = elem(s)
    i = lambda l, n: [0 <= n, n < LEN(l)]
    return {
        f"{pre}_length": Con([s], ref=LEN, py=len),
        f"{pre}_empty": Con([], ref=lambda: nil(s), py=lambda: ()),
        f"{pre}_prepend": Con([e, s], ref=cons, py=lambda x, l: (x,) + l),
        f"{pre}_append": Con([s, e], ref=SNOC, py=lambda l, x: l + (x,)),
        f"{pre}_get_helper": Con([s, INT], ref=GET, py=p_get, extra=i),
        f"{pre}_get": Con([s, INT], ref=GET, py=p_get, extra=i),
        f"{pre}_tail": Con([s, INT], ref=DROP, py=p_tail, measure=lambda l, n: n),
        f"{pre}_take": Con([s, INT], ref=TAKE, py=p_take, extra=lambda l, n: [0 <= n, n <= LEN(l)], measure=lambda l, n: n),
        f"{pre}_concat": Con([s, s], ref=CAT, py=lambda a, b: a + b, measure=lambda a, b: LEN(a)),
        f"{pre}_contains": Con([s, e], ref=HAS, py=lambda l, x: x in l, measure=lambda l, x: LEN(l)),
    }


CONTRACTS = {**lib("list", L1), **lib("matrix", L2)}
CONTRACTS.update({
    "vec_slice": Con([L1, INT, INT], ref=SLICE, py=p_slice),
    "vec_slice_with_length": Con([L1, INT, INT], ref=lambda l, a, n: SLICE(l, a, a + n), py=lambda l, a, n: p_slice(l, a, a + n)),
    "matrix_row_slice": Con([L2, INT, INT], ref=SLICE, py=p_slice),
    "matrix_row_slice_with_length": Con([L2, INT, INT], ref=lambda l, a, n: SLICE(l, a, a + n), py=lambda l, a, n: p_slice(l, a, a + n)),
    "matrix_col_slice": Con([L2, INT, INT], ref=COLS, py=p_cols, measure=lambda m, a, b: LEN(m)),
    "matrix_col_slice_with_length": Con([L2, INT, INT], ref=lambda m, a, n: COLS(m, a, a + n), py=lambda m, a, n: p_cols(m, a, a + n), measure=lambda m, a, n: LEN(m)),
    "firsts": Con([L2], ref=FIRSTS, py=p_firsts, measure=LEN),
    "rests": Con([L2], ref=lambda m: z3.If(LEN(m) < 1, nil(L2), COLS(m, 1, LEN(GET(m, 0)))), py=lambda m: (inr(rect(m) and all(m)), tuple(r[1:] for r in m))[1]),
    "matrix_transpose": Con([L2], pre=lambda m: [LEN(m) > 0, RECT(m, LEN(GET(m, 0)))], post=lambda r, m: transposed(r, m), ret=L2, py=p_transpose, induct=False,
                            measure=lambda m: z3.If(LEN(m) > 0, 1 + LEN(GET(m, 0)), 0)),
    "integer_exp": Con([INT], ref=lambda n: EXPM(n), py=lambda n: pow(3, max(n, 0), 64), measure=lambda n: n,
                       extra=lambda n: []),
})
NO_CONTRACT = {"integer_sqrt_helper", "integer_sqrt"}


def program():
    p = read_smt("\n".join(open(os.path.join(UTILS, f)).read() for f in FILES))
    text = open(os.path.join(UTILS, "list-axioms.smt")).read()
    dt = [c for c in sexprs(text) if c[0] == "declare-datatypes"]
    if dt != [["declare-datatypes", [["MLList", "1"]], [["par", ["T"], [["cons", ["head", "T"], ["tail", ["MLList", "T"]]], ["nil"]]]]]]:
        raise Unsupported(f"datatypes {dt}")
    return p


def builtins(p):
    """declared functions as the contracts have them (for running the program)"""
    return {n: c.py for n, c in CONTRACTS.items() if n in p.decls}


def facts(unfold=()):
    f = base_facts()
    n = z3.Int("n")
    # selectors on nil are free in SMT-LIB: this model has tail nil = nil
    f += [tl(nil(s)) == nil(s) for s in SORTS_USED]
    return f + [EXPM(x) == z3.If(x <= 0, 1, 3 * EXPM(x - 1) % 64) for x in unfold]


def checker(ctx, p, unfold=()):
    return Checker(UCtx(ctx), p, CONTRACTS, {}, facts(unfold), "list-axioms.smt")


class SmtGen(Gen):
    """SMT functions are total: no preconditions to check; symbols in raw stay
    uninterpreted"""
    raw = ()

    def callf(self, name, args, env, path, want):
        if name in self.raw:
            d = self.p.decls[name]
            return fun("V_" + name, *[s for _, s in d.params], d.ret)(*[self.t(a, env, path, s) for a, (_, s) in zip(args, d.params)])
        return super().callf(name, args, env, path, want)


def function_unit(name):
    def unit(ctx):
        p = program()
        con = CONTRACTS[name]
        if name in p.decls:
            return declared(ctx, p, name, con)
        if name not in p.funs:
            raise Unsupported(f"{name} is not defined")
        vs = [z3.Const(n, s) for n, s in p.funs[name].params]
        c = checker(ctx, p, vs if name == "integer_exp" else ())
        verify_total(c, p, name, con, lambda: refute(p, name, con, builtins(p)))
    return unit


def verify_total(c, p, name, con, cex):
    f = p.funs[name]
    c.ctx.rep.functions.add(f"{c.where}:{name}")
    if [s for _, s in f.params] != con.sorts:
        raise Unsupported(f"{name}: parameters {f.params}")
    vs = [z3.Const(n, s) for n, s in f.params]
    # the recursion has a solution
    c.terminates(name, con)
    g = SmtGen(p, CONTRACTS, {}, name, con, vs, total=True)
    want = con.ref(*vs).sort() if con.ref else con.ret
    r = g.t(f.body, dict(zip([n for n, _ in f.params], vs)), [], f.ret)
    if r.sort() != want or f.ret != want:
        raise Unsupported(f"{name}: result sort {f.ret}")
    for u in g.used - {name}:
        c.ctx.rep.contracts_used.add(f"{c.where}:{u}")
    c.ctx.rep.contracts_used.discard(name)
    memo = []

    def once():
        if not memo:
            memo.append(cex())
        return memo[0] and f"{name}{memo[0][0]}: expected {memo[0][1]}, computes {memo[0][2]}"
    hyps = con.pre(*vs) + g.assume
    if con.ref is None:
        r0 = z3.Const("result", want)
        hyps, r = hyps + [r0 == r], r0
    for k, q in enumerate(con.post(r, *vs)):
        c.discharge(f"{name}: postcondition {k}", vs, hyps, q, once, induct=con.induct)


def declared(ctx, p, name, con):
    """the axioms that mention a declared function determine it"""
    c = checker(ctx, p)
    c.ctx.rep.functions.add(f"{c.where}:{name}")
    d = p.decls[name]
    if [s for _, s in d.params] != con.sorts:
        raise Unsupported(f"{name}: parameters {d.params}")
    for a in p.asserts:
        if name in calls(a):
            vs, f, g = closed(p, a, raw=(name,))
            c.prover.facts.append(z3.ForAll(vs, f) if vs else f)
    vs = [z3.Const(n, s) for n, s in d.params]
    dom = con.extra(*vs) if con.extra else []
    goal = fun("V_" + name, *[s for _, s in d.params], d.ret)(*vs) == con.ref(*vs)
    lists = [v for v in vs if is_list(v.sort())]
    ok = c.prover.prove(vs, dom, goal, lists, first=True)
    c.ctx.obligation(f"{name}: determined by its axioms", "discharged" if ok else "unknown", "")


def closed(p, a, raw=()):
    vs = []
    body = a
    env_ = {}
    while body[0] == "forall":
        for n, s in body[1]:
            env_[n] = z3.Const(f"{n}", s)
            vs.append(env_[n])
        body = body[2]
    g = SmtGen(p, CONTRACTS, {}, total=True)
    g.raw = raw
    f = g.t(body, env_, [], BOOL)
    return vs, (z3.Implies(conj(g.assume), f) if g.assume else f), g


def false_at(p, a, seed=1, n=1500):
    """values for which an assertion does not hold"""
    import random
    r = random.Random(seed)
    vs, body = [], a
    while body[0] == "forall":
        vs += body[1]
        body = body[2]
    run = Runner(p, builtins(p), fuel=100000)
    for args in samples([s for _, s in vs], r, n):
        run.depth = run.steps = 0
        try:
            v = run.ev(body, dict(zip([n for n, _ in vs], args)))
        except (Undef, Diverges):
            continue
        if v is not True:
            return dict(zip([n for n, _ in vs], args))
    return None


def axiom_unit(k):
    def unit(ctx):
        p = program()
        c = checker(ctx, p)
        if k >= len(p.asserts):
            c.ctx.obligation("no such assertion", "discharged", "")
            return
        last = k == AXIOMS - 1
        for j in range(k, len(p.asserts) if last else k + 1):
            a = p.asserts[j]

            def cex():
                v = false_at(p, a)
                return v and f"false for {v}"
            try:
                vs, f, g = closed(p, a)
                for u in g.used:
                    c.ctx.rep.contracts_used.add(f"{c.where}:{u}")
                lists = [v for v in vs if is_list(v.sort())]
                ok = c.prover.prove(vs, [], f, lists)
            except Unsupported:
                if cex() is None:
                    raise
                ok = False
            v = None if ok else cex()
            c.ctx.obligation(f"assertion {j} holds of lists", "discharged" if ok else "refuted" if v else "unknown", v or "")
    return unit


def defined_unit(ctx):
    """definitions without a contract do not make the theory inconsistent"""
    p = program()
    c = checker(ctx, p)
    n = 0
    for name in p.funs:
        if name not in CONTRACTS:
            c.terminates(name, None)
            n += 1
    for name in p.decls:
        if name not in CONTRACTS:
            raise Unsupported(f"no contract for {name}")
    c.ctx.obligation("definitions without contract", "discharged", f"{n}")


ASSUMPTIONS = [
    "cvc5's integers, datatypes, recursive functions and quantifiers have the meaning SMT-LIB gives them",
    "consistency: every declared function is given an interpretation in which all assertions hold, every defined recursive function is shown to have a solution; "
    "accessors of empty lists and division by 0 keep the arbitrary value SMT-LIB leaves them",
    "integer_sqrt has no contract beyond ending (it is used by its name only)",
    "MLList is the list datatype declared in the prelude; its constructors are read by name",
]
def count_axioms():
    try:
        return len(program().asserts)
    except Exception:
        return 1


AXIOMS = count_axioms()
UNITS = {"lemmas": lemma_unit, "definitions": defined_unit}
for _n in CONTRACTS:
    if _n not in ("matrix_concat", "matrix_contains"):
        UNITS[_n] = function_unit(_n)
for _k in range(AXIOMS):
    UNITS[f"axiom{_k}"] = axiom_unit(_k)
