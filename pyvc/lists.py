"""Deductive verification of small functional programs over integers and nested
lists (SMT-LIB prelude, Racket library, IR function declarations).

A program is a set of functions in an intermediate language (IL, below) read
mechanically from the source. Each function is verified against its contract:
callees are replaced by their contracts (precondition becomes an obligation),
recursive calls by the function's own contract once a measure is shown to
decrease. Facts about the specification functions are lemmas, proved by
structural induction. Back end: z3, E-matching only.

IL: ('var',n) ('const',v) ('nil',sort or None) ('ite',c,a,b) ('let',[(n,e)],b)
    ('forall',[(n,sort)],b) ('prim',op,[args]) ('call',name,[args])"""
import itertools
import sys
import time
import z3

sys.setrecursionlimit(20000)
INT, BOOL = z3.IntSort(), z3.BoolSort()
_L = {}


def LIST(s):
    k = s.name()
    if k not in _L:
        d = z3.Datatype("L" + ("1" if k == "Int" else str(int(k[1:]) + 1) if k[:1] == "L" and k[1:].isdigit() else "_" + k))
        d.declare("nil_" + d.name)
        d.declare("cons_" + d.name, ("hd_" + d.name, s), ("tl_" + d.name, d))
        _L[k] = d.create()
    return _L[k]


L1 = LIST(INT)
L2 = LIST(L1)
L3 = LIST(L2)
SORTS = {s.name(): s for s in (INT, BOOL, L1, L2, L3)}


def is_list(s):
    return s.name()[:1] == "L"


def elem(s):
    return s.accessor(1, 0).range()


def nil(s):
    return s.constructor(0)()


def cons(h, t):
    return t.sort().constructor(1)(h, t)


def hd(l):
    return l.sort().accessor(1, 0)(l)


def tl(l):
    return l.sort().accessor(1, 1)(l)


def isnil(l):
    return l.sort().recognizer(0)(l)


def iscons(l):
    return l.sort().recognizer(1)(l)


_F = {}


def fun(name, *sorts):
    k = (name,) + tuple(s.name() for s in sorts)
    if k not in _F:
        _F[k] = z3.Function("!".join(k), *sorts)
    return _F[k]


class Spec:
    """a specification function: sorts by the first list argument; equations on
    constructors of the list at position `on`"""

    def __init__(self, name, sig, on, nilcase, conscase):
        self.name, self.sig, self.on, self.nilcase, self.conscase = name, sig, on, nilcase, conscase

    def __call__(self, *args):
        args = [z3.IntVal(a) if isinstance(a, int) and not isinstance(a, bool) else a for a in args]
        return fun(self.name, *self.sig(args[self.on].sort()))(*args)

    def axioms(self, s):
        sig = self.sig(s)
        f = fun(self.name, *sig)
        xs = [z3.Const(f"x{i}", t) for i, t in enumerate(sig[:-1])]
        h, t = z3.Const("h", elem(s)), z3.Const("t", s)
        rest = xs[:self.on] + xs[self.on + 1:]
        out = []
        for l, rhs, vs in ((nil(s), self.nilcase, rest), (cons(h, t), self.conscase, rest + [h, t])):
            args = xs[:self.on] + [l] + xs[self.on + 1:]
            val = rhs(s, rest) if rhs is self.nilcase else rhs(s, h, t, rest)
            if val is None:
                continue
            lhs = f(*args)
            out.append(z3.ForAll(vs, lhs == val, patterns=[lhs]) if vs else lhs == val)
        return out


SPECS = {}


def spec(name, sig, on, nilcase, conscase):
    SPECS[name] = Spec(name, sig, on, nilcase, conscase)
    return SPECS[name]


LEN = spec("LEN", lambda s: [s, INT], 0, lambda s, r: z3.IntVal(0), lambda s, h, t, r: 1 + LEN(t))
GET = spec("GET", lambda s: [s, INT, elem(s)], 0, lambda s, r: None, lambda s, h, t, r: z3.If(r[0] <= 0, h, GET(t, r[0] - 1)))
DROP = spec("DROP", lambda s: [s, INT, s], 0, lambda s, r: nil(s), lambda s, h, t, r: z3.If(r[0] <= 0, cons(h, t), DROP(t, r[0] - 1)))
TAKE = spec("TAKE", lambda s: [s, INT, s], 0, lambda s, r: nil(s), lambda s, h, t, r: z3.If(r[0] <= 0, nil(s), cons(h, TAKE(t, r[0] - 1))))
CAT = spec("CAT", lambda s: [s, s, s], 0, lambda s, r: r[0], lambda s, h, t, r: cons(h, CAT(t, r[0])))
HAS = spec("HAS", lambda s: [s, elem(s), BOOL], 0, lambda s, r: z3.BoolVal(False), lambda s, h, t, r: z3.Or(h == r[0], HAS(t, r[0])))
# the element replaced at a position
SETAT = spec("SETAT", lambda s: [s, INT, elem(s), s], 0, lambda s, r: nil(s),
             lambda s, h, t, r: z3.If(r[0] <= 0, cons(r[1], t), cons(h, SETAT(t, r[0] - 1, r[1]))))


def SNOC(l, x):
    return CAT(l, cons(x, nil(l.sort())))


def spec_axioms(sorts, names=None):
    out = []
    for s in sorts:
        for n, sp in SPECS.items():
            if names is None or n in names:
                try:
                    out += sp.axioms(s)
                except Wrong:
                    pass
    return out


class Wrong(Exception):
    """a specification function that does not exist at this sort"""


# ------------------------------------------------------------------ proving
class Prover:
    def __init__(self, rep=None, timeout=3000):
        self.rep, self.timeout = rep, timeout
        self.facts = []     # quantified formulas: definitions and proved lemmas
        self.time = 0.0
        self.queries = 0

    def query(self, hyps, goal, timeout=None):
        t0 = time.time()
        s = z3.SimpleSolver()
        s.set("auto_config", False)
        s.set("mbqi", False)
        s.set("timeout", timeout or self.timeout)
        s.set("random_seed", 1)
        s.add(*self.facts, *hyps, z3.Not(goal))
        r = s.check()
        self.time += time.time() - t0
        self.queries += 1
        if self.rep is not None:
            self.rep.solver_time += time.time() - t0
            self.rep.queries += 1
        return r == z3.unsat

    def split(self, hyps, goal, todo, timeout=None):
        """case analysis on the constructors of the variables in todo"""
        if self.query(hyps, goal, timeout):
            return True
        if not todo:
            return False
        v, rest = todo[0], todo[1:]
        s = v.sort()
        h, t = z3.FreshConst(elem(s), "h"), z3.FreshConst(s, "t")
        for l in (nil(s), cons(h, t)):
            sub = lambda e: z3.substitute(e, (v, l))
            if not self.split([sub(x) for x in hyps], sub(goal), rest, timeout):
                return False
        return True

    def direct(self, hyps, goal, lists):
        return self.query(hyps, goal, 700) or bool(lists) and self.split(hyps, goal, lists[:3], 700)

    def prove(self, vs, hyps, goal, induct=(), deep=2, first=False):
        """hyps |- goal for all values of the constants vs; induct: list
        variables to try structural induction on, in this order"""
        lists = [v for v in vs if is_list(v.sort())]
        if not first and self.direct(hyps, goal, lists):
            return True
        for v in induct:
            s = v.sort()
            h, t = z3.Const(f"h_{v}", elem(s)), z3.Const(f"t_{v}", s)
            others = [x for x in vs if not x.eq(v)]
            whole = z3.Implies(z3.And(*hyps), goal) if hyps else goal
            ih = z3.substitute(whole, (v, t))
            if others:
                ih = z3.ForAll(others, ih)
            fresh = [(x, z3.FreshConst(x.sort(), str(x))) for x in others]
            sub = lambda e, l: z3.substitute(z3.substitute(e, (v, l)), *fresh)
            ol = [y for x, y in fresh if is_list(x.sort())]
            base = self.split([sub(x, nil(s)) for x in hyps], sub(goal, nil(s)), ol[:deep])
            if base and self.split([ih] + [sub(x, cons(h, t)) for x in hyps], sub(goal, cons(h, t)), ol[:deep] + [t]):
                return True
        return first and self.direct(hyps, goal, lists)


class Lemma:
    def __init__(self, name, vs, hyps, goal, pats=None, induct=None):
        self.name, self.vs, self.hyps, self.goal, self.pats, self.induct = name, vs, hyps, goal, pats, induct

    def formula(self):
        f = z3.Implies(z3.And(*self.hyps), self.goal) if self.hyps else self.goal
        if self.pats:
            return z3.ForAll(self.vs, f, patterns=[z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in self.pats])
        return z3.ForAll(self.vs, f)


def list_lemmas(s):
    """facts about the specification functions at list sort s"""
    l, m, k = (z3.Const(n, s) for n in "lmk")
    i, j, n = z3.Ints("i j n")
    x = z3.Const("x", elem(s))
    out = [
        Lemma("len>=0", [l], [], LEN(l) >= 0, [LEN(l)]),
        Lemma("len=0", [l], [], (LEN(l) == 0) == (l == nil(s)), [LEN(l)]),
        Lemma("len take", [l, n], [], LEN(TAKE(l, n)) == z3.If(n <= 0, 0, z3.If(n <= LEN(l), n, LEN(l))), [TAKE(l, n)]),
        Lemma("len drop", [l, n], [], LEN(DROP(l, n)) == z3.If(n <= 0, LEN(l), z3.If(n <= LEN(l), LEN(l) - n, 0)), [DROP(l, n)]),
        Lemma("drop 0", [l, n], [n <= 0], DROP(l, n) == l, [DROP(l, n)]),
        Lemma("take 0", [l, n], [n <= 0], TAKE(l, n) == nil(s), [TAKE(l, n)]),
        Lemma("drop all", [l, n], [n >= LEN(l)], DROP(l, n) == nil(s), [DROP(l, n)]),
        Lemma("take all", [l, n], [n >= LEN(l)], TAKE(l, n) == l, [TAKE(l, n)]),
        Lemma("get drop", [l, n, i], [n >= 0, i >= 0, n + i < LEN(l)], GET(DROP(l, n), i) == GET(l, n + i), [GET(DROP(l, n), i)]),
        Lemma("get take", [l, n, i], [0 <= i, i < n, i < LEN(l)], GET(TAKE(l, n), i) == GET(l, i), [GET(TAKE(l, n), i)]),
        Lemma("drop step", [l, n], [0 <= n, n < LEN(l)], DROP(l, n) == cons(GET(l, n), DROP(l, n + 1)), [[DROP(l, n), GET(l, n)]]),
        Lemma("len cat", [l, m], [], LEN(CAT(l, m)) == LEN(l) + LEN(m), [CAT(l, m)]),
        Lemma("cat nil", [l], [], CAT(l, nil(s)) == l, [CAT(l, nil(s))]),
        Lemma("cat cat", [l, m, k], [], CAT(CAT(l, m), k) == CAT(l, CAT(m, k)), [CAT(CAT(l, m), k)]),
        Lemma("get cat", [l, m, i], [0 <= i, i < LEN(l) + LEN(m)], GET(CAT(l, m), i) == z3.If(i < LEN(l), GET(l, i), GET(m, i - LEN(l))), [GET(CAT(l, m), i)]),
        Lemma("has cat", [l, m, x], [], HAS(CAT(l, m), x) == z3.Or(HAS(l, x), HAS(m, x)), [HAS(CAT(l, m), x)]),
        Lemma("take step", [l, n], [0 <= n, n < LEN(l)], TAKE(l, n + 1) == CAT(TAKE(l, n), cons(GET(l, n), nil(s))), [[TAKE(l, n), GET(l, n)]]),
        Lemma("drop 1", [l], [LEN(l) > 0], l == cons(GET(l, 0), DROP(l, 1)), [DROP(l, 1)]),
        Lemma("get 0", [l], [LEN(l) > 0], l == cons(GET(l, 0), tl(l)), [GET(l, 0)]),
    ]
    return out


def prove_lemmas(ctx, prover, lemmas, tag):
    for lm in lemmas:
        ok = prover.prove(lm.vs, lm.hyps, lm.goal, lm.induct or [v for v in lm.vs if is_list(v.sort())], first=True)
        ctx.report(f"lemma {lm.name} ({tag})", "discharged" if ok else "unknown")
        prover.facts.append(lm.formula())
