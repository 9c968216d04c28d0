from .lib import *
import itertools
import metalift.ir as ir

V = {"a": INT, "b": INT, "c": INT, "d": INT, "p": BOOL, "q": BOOL}
DOM = {INT: (0, 1, 2), BOOL: (False, True)}


def iterm(rng, d):
    k = rng.randrange(9) if d > 0 else rng.randrange(2)
    if k in (0, 2, 3):
        return var(rng.choice(["a", "b", "c", "d"]), INT)
    if k == 1:
        return lit(rng.randint(0, 2))
    if k in (4, 5):
        return mk(rng.choice(["Add", "Sub", "Mul"]), iterm(rng, d - 1), iterm(rng, d - 1))
    if k == 6:
        return mk("Ite", bterm(rng, d - 1), iterm(rng, d - 1), iterm(rng, d - 1))
    return call("f", INT, iterm(rng, d - 1))


def eq(rng, d):
    x = rng.random()
    if x < 0.2:
        v = rng.choice(["p", "q"])
        return mk("Eq", *rng.sample([var(v, BOOL), bterm(rng, d - 1)], 2))
    v = var(rng.choice(["a", "b", "c", "d"]), INT)
    e = iterm(rng, d - 1)
    return mk("Eq", v, e) if x < 0.6 else mk("Eq", e, v)


def bterm(rng, d):
    """without implications"""
    if d <= 0:
        k = rng.random()
        return var(rng.choice("pq"), BOOL) if k < 0.5 else lit(rng.random() < 0.5) if k < 0.65 else mk("Lt", var("a", INT), var(rng.choice("bcd"), INT))
    k = rng.randrange(8)
    if k < 3:
        return eq(rng, d)
    if k == 3:
        return mk(rng.choice(CMP), iterm(rng, d - 1), iterm(rng, d - 1))
    if k == 4:
        return mk("Not", bterm(rng, d - 1))
    if k == 5:
        return mk("Ite", bterm(rng, d - 1), bterm(rng, d - 1), bterm(rng, d - 1))
    return mk(rng.choice(["And", "Or"]), *[bterm(rng, d - 1) for _ in range(rng.randint(1, 4))])


def vcond(rng, d):
    """implications only where they help"""
    if d <= 0:
        return bterm(rng, 1)
    k = rng.randrange(6)
    if k < 3:
        n = rng.randint(1, 4)
        ante = mk("And", *[eq(rng, 2) if rng.random() < 0.75 else bterm(rng, 2) for _ in range(n)]) if n > 1 else (eq(rng, 2) if rng.random() < 0.8 else bterm(rng, 2))
        return mk("Implies", ante, vcond(rng, d - 1))
    if k == 3:
        return mk("And", *[vcond(rng, d - 1) for _ in range(rng.randint(1, 3))])
    if k == 4:
        return mk("Or", vcond(rng, d - 1), bterm(rng, 1))
    return mk("Ite", bterm(rng, 1), vcond(rng, d - 1), vcond(rng, d - 1))


def envs_over(names):
    for vals in itertools.product(*[DOM[V[n]] for n in names]):
        yield dict(zip(names, vals))


def names_of(e):
    d = {}
    e.count_variable_uses(d)
    return d


def fixed_vcs():
    a, b, c, p = var("a", INT), var("b", INT), var("c", INT), var("p", BOOL)
    I = lambda x, y: mk("Implies", x, y)
    E = lambda x, y: mk("Eq", x, y)
    lt = lambda x, y: mk("Lt", x, y)
    yield I(mk("And", E(a, lit(1)), E(a, lit(2)), E(a, lit(0))), lt(a, b))
    yield I(mk("And", E(a, b), E(a, c)), lt(a, lit(1)))
    yield I(mk("Or", E(a, lit(1)), p), lt(a, lit(1)))
    yield I(mk("Not", E(a, lit(1))), lt(a, lit(1)))
    yield I(mk("Ite", p, E(a, lit(1)), E(a, lit(2))), E(a, lit(1)))
    yield mk("And", I(E(a, lit(1)), lt(a, b)), I(E(a, lit(2)), lt(a, c)))
    yield I(E(a, mk("Add", a, lit(1))), p)
    yield I(E(a, b), E(b, a))
    yield I(E(a, lit(1)), E(a, a))
    yield I(p, E(a, lit(1)))
    yield I(E(mk("Add", a, lit(1)), b), E(mk("Mul", b, b), lit(4)))
    yield mk("And", E(a, lit(1)), E(b, lit(2)))
    yield I(lt(a, lit(1)), I(E(a, b), I(E(b, c), lt(c, lit(1)))))
    yield I(I(p, lit(True)), lt(a, b)) if False else I(p, p)


def run(R):
    rng = R.rng
    # simplify keeps the value
    n = 2500 if not R.thorough else 30000
    E = envs(rng, 6)
    lits = [mk("And", *ks) for k in (1, 2, 3, 4) for ks in itertools.product([lit(True), lit(False), var("p", BOOL), mk("Lt", var("x", INT), lit(1))], repeat=k)]
    nest = [mk("And", a, mk("And", *b)) for a in (lit(True), var("p", BOOL)) for b in ((lit(True),), (lit(True), lit(True)), (lit(False), var("q", BOOL)), (var("q", BOOL), lit(True)))]
    nest += [mk("Not", mk("And", lit(True), lit(True))), mk("Implies", mk("And", lit(False)), var("p", BOOL)), mk("Or", mk("And", lit(True), var("p", BOOL)), lit(False))]
    for kind, r in itertools.chain((("and", r) for r in lits), (("nest", r) for r in nest), cases(rng, n, 4)):
        if R.over():
            break
        e = build(r)
        R.case("simplify:" + kind, show(r))
        try:
            s = e.simplify()
        except Exception as ex:
            R.violation("simplify:" + kind, "simplify raises", show(r), "an expression", repr(ex))
            continue
        for env in E:
            try:
                want = ev(r, env, "smt")
            except (Skip, TypeError):
                continue
            got = ev_real(s, env)
            R.check(got == want and isinstance(got, bool) == isinstance(want, bool) and s.type == e.type, "simplify:" + kind, "simplify changes the value",
                    f"{show(r)} with {env}", want, f"{s} = {got}")
    negative(R)
    # the optimised condition is no easier than the condition
    RET.update(f=INT)
    N = 2500 if not R.thorough else 60000
    for k, r in enumerate(itertools.chain(fixed_vcs(), (vcond(rng, rng.randint(1, 3)) if rng.random() < 0.8 else bterm(rng, 3) for _ in range(N)))):
        if R.over():
            break
        e = build(r)
        free = not has_op(r, ("Implies",))
        if has_op(r, ("Implies",)) and not positive(r):
            continue
        sig = "optimize:" + (show(r) if k < 14 else r.op + str(k))
        R.case("optimize:" + ("free" if free else "implies") + str(min(len(show(r)) // 20, 9)), show(r))
        counts, new = names_of(e), set()
        before = skel(e)
        try:
            o = e.optimize_useless_equality(counts, new)
        except Exception as ex:
            R.violation(sig, "optimize_useless_equality raises", show(r), "an expression", repr(ex))
            continue
        R.check(skel(e) == before and counts == names_of(e), sig, "optimize_useless_equality changes its arguments", show(r), before, skel(e))
        used = set(names_of(o))
        nn = sorted(v.args[0] for v in new)
        if not (used <= set(counts) | set(nn)) or len(set(nn)) != len(nn) or any(v.type != ir.Bool for v in new) or set(nn) & set(counts):
            R.violation(sig, "new variables are not recorded", show(r), sorted(used - set(counts)), nn)
            continue
        drop = names_of(e)
        if len(counts) > 5 or len(nn) > 4:
            continue
        for env in envs_over(sorted(counts)):
            want = ev(r, env, "smt")
            got = {ev_real(o, {**env, **dict(zip(nn, bs))}) for bs in itertools.product((False, True), repeat=len(nn))}
            if free and want not in got:
                R.violation(sig, "the optimised expression cannot have the value of the expression", f"{show(r)} with {env}", want, o)
                break
            if not want and got == {True}:
                R.violation(sig, "the optimised condition holds where the condition does not", f"{show(r)} with {env}", want, o)
                break
            # an equality is dropped only when one of its sides is a variable used once
        if free:
            once = sum(1 for x in all_nodes(e) if isinstance(x, ir.Eq) and any(isinstance(y, ir.Var) and counts[y.args[0]] == 1 for y in x.args))
            R.check(len(nn) <= once, sig, "equalities about variables used elsewhere were dropped", show(r), once, nn)


def positive(r, pos=True):
    if r.op == "Implies":
        return pos and not has_op(r[2], ("Implies",)) and positive(r[3])
    if r.op == "Ite":
        return not has_op(r[2], ("Implies",)) and positive(r[3]) and positive(r[4])
    if r.op in ("And", "Or"):
        return all(positive(k) for k in kids(r))
    return not any(has_op(k, ("Implies",)) for k in kids(r))


def negative(R):
    """implications below a negation: recorded as a known finding for this one input"""
    a, b = var("a", INT), var("b", INT)
    r = mk("Not", mk("Implies", mk("Eq", a, lit(1)), mk("Lt", a, lit(0))))
    e = build(r)
    o = e.optimize_useless_equality(names_of(e), set())
    for env in envs_over(["a"]):
        want = ev(r, env, "smt")
        if not want and ev_real(o, env):
            R.violation("optimize:negative:" + show(r), "the optimised condition holds where the condition does not (implication below a negation)", f"{show(r)} with {env}", want, o)
