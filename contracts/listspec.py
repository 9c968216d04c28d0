"""contracts of the list library (shared by the SMT prelude, the Racket library
and the tensor functions): what each operation computes"""
import z3
from pyvc.core import Obligation
from pyvc.lists import *
from pyvc.lists import spec
from pyvc.il import *

# further specification functions, on lists of lists
COLS = spec("COLS", lambda s: [s, INT, INT, s], 0, lambda s, r: nil(s),
            lambda s, h, t, r: cons(DROP(TAKE(h, r[1]), r[0]), COLS(t, r[0], r[1])) if is_list(elem(s)) else bad())
FIRSTS = spec("FIRSTS", lambda s: [s, elem(s)] if is_list(elem(s)) else bad(), 0, lambda s, r: nil(elem(s)),
              lambda s, h, t, r: cons(GET(h, 0), FIRSTS(t)))
RECT = spec("RECT", lambda s: [s, INT, BOOL], 0, lambda s, r: z3.BoolVal(True),
            lambda s, h, t, r: z3.And(LEN(h) == r[0], RECT(t, r[0])) if is_list(elem(s)) else bad())
ROWS = spec("ROWS", lambda s: [s, BOOL], 0, lambda s, r: z3.BoolVal(True),
            lambda s, h, t, r: z3.And(LEN(h) > 0, ROWS(t)) if is_list(elem(s)) else bad())


def bad():
    raise Wrong()


def matrix_lemmas():
    m = z3.Const("m", L2)
    w, i, a, b, n = z3.Ints("w i a b n")
    return [
        Lemma("len cols", [m, a, b], [], LEN(COLS(m, a, b)) == LEN(m), [COLS(m, a, b)]),
        Lemma("get cols", [m, a, b, i], [0 <= i, i < LEN(m)], GET(COLS(m, a, b), i) == DROP(TAKE(GET(m, i), b), a), [GET(COLS(m, a, b), i)]),
        Lemma("len firsts", [m], [], LEN(FIRSTS(m)) == LEN(m), [FIRSTS(m)]),
        Lemma("get firsts", [m, i], [0 <= i, i < LEN(m)], GET(FIRSTS(m), i) == GET(GET(m, i), 0), [GET(FIRSTS(m), i)]),
        Lemma("rect get", [m, w, i], [RECT(m, w), 0 <= i, i < LEN(m)], LEN(GET(m, i)) == w, [[RECT(m, w), GET(m, i)]]),
        Lemma("rect cols", [m, w, a, b], [RECT(m, w), 0 <= a, a <= b, b <= w], RECT(COLS(m, a, b), b - a), [[RECT(m, w), COLS(m, a, b)]]),
        Lemma("rows drop", [m, n], [ROWS(m), 0 <= n], ROWS(DROP(m, n)), [[ROWS(m), DROP(m, n)]]),
        Lemma("rows get", [m, i], [ROWS(m), 0 <= i, i < LEN(m)], LEN(GET(m, i)) > 0, [[ROWS(m), GET(m, i)]]),
        Lemma("rows rect", [m, w], [RECT(m, w), w > 0], ROWS(m), [RECT(m, w)]),
        Lemma("rect drop", [m, w, n], [RECT(m, w)], RECT(DROP(m, n), w), [[RECT(m, w), DROP(m, n)]]),
    ]


SORTS_USED = [L1, L2, L3]


def all_lemmas():
    return [(s.name(), list_lemmas(s)) for s in SORTS_USED] + [("matrices", matrix_lemmas())]


def base_facts():
    return spec_axioms(SORTS_USED) + [lm.formula() for _, ls in all_lemmas() for lm in ls]


class UCtx:
    """adapter between the list verifier and the unit runner"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.rep = ctx.report
        self.rep.covered += 1

    def obligation(self, name, status, detail):
        self.rep.obls.append(Obligation(f"{self.ctx.unit}: {name}", status, 0.0, str(detail)))
        self.rep.paths += 1

    def report(self, name, status):
        self.obligation(name, status, "")


def lemma_unit(ctx):
    u = UCtx(ctx)
    p = Prover(u.rep)
    p.facts = spec_axioms(SORTS_USED)
    for tag, ls in all_lemmas():
        prove_lemmas(u, p, ls, tag)
    u.obligation("the lemmas are not contradictory", "unknown" if p.query([], z3.BoolVal(False), 5000) else "discharged", "")


# ------------------------------------------------------------- Python reference
def inr(c):
    if not c:
        raise Undef()


def p_get(l, i):
    inr(0 <= i < len(l))
    return l[i]


def p_tail(l, n):
    inr(0 <= n <= len(l))
    return l[n:]


def p_take(l, n):
    inr(0 <= n <= len(l))
    return l[:n]


def p_slice(l, a, b):
    inr(0 <= a <= b <= len(l))
    return l[a:b]


def rect(m):
    return len({len(r) for r in m}) <= 1


def p_cols(m, a, b):
    inr(rect(m) and m and 0 <= a <= b <= len(m[0]) or not m and 0 <= a <= b)
    return tuple(r[a:b] for r in m)


def p_firsts(m):
    inr(all(m))
    return tuple(r[0] for r in m)


def p_transpose(m):
    inr(m and rect(m))
    return tuple(zip(*m))


def transposed(r, m):
    i, j = z3.Ints("ti tj")
    w = LEN(GET(m, 0))
    return [LEN(r) == w,
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < w), LEN(GET(r, j)) == LEN(m)), patterns=[GET(r, j)]),
            z3.ForAll([i, j], z3.Implies(z3.And(0 <= j, j < w, 0 <= i, i < LEN(m)), GET(GET(r, j), i) == GET(GET(m, i), j)), patterns=[GET(GET(r, j), i)])]
