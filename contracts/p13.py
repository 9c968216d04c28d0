"""P13: the library the synthesizer runs (utils.rkt) computes what the
verifier's theory says"""
import os
import z3
import env
from pyvc.core import Unsupported
from pyvc.lists import *
from pyvc.lists import spec
from pyvc.il import *
from .listspec import *
from .p12 import EXPM, SLICE

PID = "P13"
FILE = os.path.join(env.REPO, "metalift", "utils", "utils.rkt")

ALLGT = spec("ALLGT", lambda s: [s, INT, BOOL], 0, lambda s, r: z3.BoolVal(True), lambda s, h, t, r: z3.And(h > r[0], ALLGT(t, r[0])) if elem(s) == INT else bad())
SORTED = spec("SORTED", lambda s: [s, BOOL], 0, lambda s, r: z3.BoolVal(True), lambda s, h, t, r: z3.And(ALLGT(t, h), SORTED(t)) if elem(s) == INT else bad())
SUBSET = spec("SUBSET", lambda s: [s, s, BOOL], 0, lambda s, r: z3.BoolVal(True), lambda s, h, t, r: z3.And(HAS(r[0], h), SUBSET(t, r[0])) if elem(s) == INT else bad())
ENTRIES = spec("ENTRIES", lambda s: [s, BOOL], 0, lambda s, r: z3.BoolVal(True), lambda s, h, t, r: z3.And(LEN(h) == 2, ENTRIES(t)) if s.eq(L2) else bad())
LOOKUP = spec("LOOKUP", lambda s: [s, INT, INT], 0, lambda s, r: z3.IntVal(0), lambda s, h, t, r: z3.If(GET(h, 0) == r[0], GET(h, 1), LOOKUP(t, r[0])) if s.eq(L2) else bad())
KEY = spec("KEY", lambda s: [s, INT, BOOL], 0, lambda s, r: z3.BoolVal(False), lambda s, h, t, r: z3.Or(GET(h, 0) == r[0], KEY(t, r[0])) if s.eq(L2) else bad())
INDEX = spec("INDEX", lambda s: [s, INT, INT], 0, lambda s, r: z3.IntVal(0), lambda s, h, t, r: z3.If(GET(h, 0) == r[0], 0, 1 + INDEX(t, r[0])) if s.eq(L2) else bad())


def set_lemmas():
    l, m = z3.Consts("l m", L1)
    a, b, v = z3.Ints("a b v")
    d, e = z3.Consts("d e", L2)
    x = z3.Const("x", L1)
    i, k = z3.Ints("i k")
    two = [LEN(x) == 2]
    return [
        Lemma("allgt has", [l, a, v], [ALLGT(l, a), HAS(l, v)], v > a, [[ALLGT(l, a), HAS(l, v)]]),
        Lemma("allgt mono", [l, a, b], [ALLGT(l, a), b <= a], ALLGT(l, b), [[ALLGT(l, a), ALLGT(l, b)]]),
        Lemma("subset has", [l, m, v], [SUBSET(l, m), HAS(l, v)], HAS(m, v), [[SUBSET(l, m), HAS(l, v)]]),
        Lemma("subset cons", [l, m, a], [ALLGT(l, a)], SUBSET(l, cons(a, m)) == SUBSET(l, m), [SUBSET(l, cons(a, m))]),
        Lemma("entries drop", [d, i], [ENTRIES(d), i >= 0], ENTRIES(DROP(d, i)), [[ENTRIES(d), DROP(d, i)]]),
        Lemma("entries get", [d, i], [ENTRIES(d), 0 <= i, i < LEN(d)], LEN(GET(d, i)) == 2, [[ENTRIES(d), GET(d, i)]]),
        Lemma("index", [d, k], [KEY(d, k)], z3.And(INDEX(d, k) >= 0, INDEX(d, k) < LEN(d)), [INDEX(d, k)]),
        Lemma("entries snoc", [d, x], [ENTRIES(d)] + two, ENTRIES(SNOC(d, x)), [SNOC(d, x)]),
        Lemma("lookup of no key", [d, k], [z3.Not(KEY(d, k))], LOOKUP(d, k) == 0, [LOOKUP(d, k)]),
        Lemma("lookup snoc", [d, x, k], [ENTRIES(d)] + two, LOOKUP(SNOC(d, x), k) == z3.If(KEY(d, k), LOOKUP(d, k), z3.If(GET(x, 0) == k, GET(x, 1), 0)), [LOOKUP(SNOC(d, x), k)]),
        Lemma("key snoc", [d, x, k], [], KEY(SNOC(d, x), k) == z3.Or(KEY(d, k), GET(x, 0) == k), [KEY(SNOC(d, x), k)]),
        Lemma("entries set", [d, x, i], [ENTRIES(d), 0 <= i, i < LEN(d)] + two, ENTRIES(SETAT(d, i, x)), [SETAT(d, i, x)]),
        Lemma("lookup set", [d, x, k, a], [ENTRIES(d), KEY(d, a), GET(x, 0) == a] + two,
              LOOKUP(SETAT(d, INDEX(d, a), x), k) == z3.If(k == a, GET(x, 1), LOOKUP(d, k)), [LOOKUP(SETAT(d, INDEX(d, a), x), k)]),
        Lemma("key set", [d, x, k, a], [ENTRIES(d), KEY(d, a), GET(x, 0) == a] + two, KEY(SETAT(d, INDEX(d, a), x), k) == KEY(d, k), [KEY(SETAT(d, INDEX(d, a), x), k)]),
    ]


def facts():
    return base_facts() + [a for n in ("ALLGT", "SORTED", "SUBSET") for a in SPECS[n].axioms(L1)] + [a for n in ("ENTRIES", "LOOKUP", "KEY", "INDEX") for a in SPECS[n].axioms(L2)] \
        + [lm.formula() for lm in set_lemmas()]


def trunc(a, b):
    ab = lambda v: z3.If(v >= 0, v, -v)
    return z3.If((a >= 0) == (b > 0), ab(a) / ab(b), -(ab(a) / ab(b)))


def tup(x, *kinds):
    if not isinstance(x, tuple):
        raise TypeError(f"a list is needed, not {x!r}")
    return x


def rng_(ok, v):
    if not ok:
        raise ValueError("index out of range")
    return v()


IN = lambda l, i: [0 <= i, i < LEN(l)]
UPTO = lambda l, n: [0 <= n, n <= LEN(l)]
# Racket's own functions
BUILTINS = {
    "length": Con([None], ref=lambda l: LEN(l), py=lambda l: len(tup(l))),
    "list-ref": Con([None, INT], pre=IN, ref=lambda l, i: GET(l, i), py=lambda l, i: rng_(0 <= i < len(tup(l)), lambda: l[i])),
    "list-tail": Con([None, INT], pre=UPTO, ref=lambda l, n: DROP(l, n), py=lambda l, n: rng_(0 <= n <= len(tup(l)), lambda: l[n:])),
    "take": Con([None, INT], pre=UPTO, ref=lambda l, n: TAKE(l, n), py=lambda l, n: rng_(0 <= n <= len(tup(l)), lambda: l[:n])),
    "append": Con([None, None], ref=lambda a, b: CAT(a, b), py=lambda a, b: tup(a) + tup(b)),
    "list-set": Con([None, INT, None], pre=lambda l, i, x: IN(l, i), ref=lambda l, i, x: SETAT(l, i, x), py=lambda l, i, x: rng_(0 <= i < len(tup(l)), lambda: l[:i] + (x,) + l[i + 1:])),
    "list?": Con([None], ref=lambda x: z3.BoolVal(is_list(x.sort())), py=lambda x: isinstance(x, tuple)),
}
PYB = {n: c.py for n, c in BUILTINS.items()}


def slice_pre(l, a, b):
    return [0 <= a, a <= b, b <= LEN(l)]


def srt(l):
    inr(all(a < b for a, b in zip(l, l[1:])))
    return l


def sset(*ls):
    return [set(srt(l)) for l in ls]


def s2(x):
    return tuple(sorted(x))


def members(r, f, *ls):
    v, x = z3.Ints("sv sx")
    return [SORTED(r), z3.ForAll([v], HAS(r, v) == f(v), patterns=[HAS(r, v)]),
            z3.ForAll([x], z3.Implies(conj([ALLGT(l, x) for l in ls]), ALLGT(r, x)), patterns=[ALLGT(r, x)])]


def kv(m):
    inr(all(len(e) == 2 for e in m) and len({e[0] for e in m}) == len(m))
    return dict(m)


def width(m):
    return LEN(GET(m, 0))


def colpre(m, a, b):
    return [0 <= a, a <= b, z3.Or(LEN(m) == 0, z3.And(RECT(m, width(m)), b <= width(m)))]


def p_cols2(m, a, b):
    inr(a < b)
    return p_cols(m, a, b)


def p_rests(m):
    inr(rect(m) and all(len(r) > 1 for r in m))
    return tuple(r[1:] for r in m)


def p_transp(m):
    inr(m and rect(m) and m[0])
    return tuple(zip(*m))


def access(pre, s, names):
    out = {
        "ref": Con([s, INT], pre=IN, ref=lambda l, i: GET(l, i), py=p_get),
        "tail": Con([s, INT], pre=UPTO, ref=lambda l, n: DROP(l, n), py=p_tail),
        "take": Con([s, INT], pre=UPTO, ref=lambda l, n: TAKE(l, n), py=p_take),
        "append": Con([s, elem(s)], ref=SNOC, py=lambda l, x: l + (x,)),
        "empty": Con([], ref=lambda: nil(s), py=lambda: ()),
        "prepend": Con([elem(s), s], ref=lambda x, l: cons(x, l), py=lambda x, l: (x,) + l),
        "length": Con([s], ref=lambda l: LEN(l), py=len),
    }
    return {f"{pre}-{n}" + ("-noerr" if n in ("ref", "tail", "take") else ""): out[n] for n in names}


def nonempty_row(con):
    """an empty row is not prepended"""
    return Con(con.sorts, ref=lambda x, l: z3.If(LEN(x) > 0, cons(x, l), l), py=lambda x, l: (inr(len(x) > 0), con.py(x, l))[1])


CONTRACTS = {
    **access("list", L1, ["ref", "tail", "take", "append", "empty", "prepend"]),
    **access("matrix", L2, ["ref", "tail", "take", "append", "empty", "length", "prepend"]),
    **access("tensor3d", L3, ["ref", "tail", "take", "append", "empty", "length", "prepend"]),
    **access("list-tuple", L2, ["ref", "tail", "take", "append", "empty", "length", "prepend"]),
    "list-concat": Con([L1, L1], ref=lambda a, b: CAT(a, b), py=lambda a, b: a + b),
    "vec-slice-noerr": Con([L1, INT, INT], pre=slice_pre, ref=SLICE, py=p_slice),
    "vec-slice-with-length-noerr": Con([L1, INT, INT], pre=lambda l, a, n: slice_pre(l, a, a + n), ref=lambda l, a, n: SLICE(l, a, a + n), py=lambda l, a, n: p_slice(l, a, a + n)),
    "matrix-row-slice-noerr": Con([L2, INT, INT], pre=slice_pre, ref=SLICE, py=p_slice),
    "matrix-row-slice-with-length-noerr": Con([L2, INT, INT], pre=lambda l, a, n: slice_pre(l, a, a + n), ref=lambda l, a, n: SLICE(l, a, a + n), py=lambda l, a, n: p_slice(l, a, a + n)),
    "tensor3d-slice-noerr": Con([L3, INT, INT], pre=slice_pre, ref=SLICE, py=p_slice),
    "tensor3d-slice-with-length-noerr": Con([L3, INT, INT], pre=lambda l, a, n: slice_pre(l, a, a + n), ref=lambda l, a, n: SLICE(l, a, a + n), py=lambda l, a, n: p_slice(l, a, a + n)),
    # rows without elements are dropped
    "matrix-col-slice-noerr": Con([L2, INT, INT], pre=colpre, ref=lambda m, a, b: z3.If(a < b, COLS(m, a, b), nil(L2)), py=p_cols2, measure=lambda m, a, b: LEN(m)),
    "matrix-col-slice-with-length-noerr": Con([L2, INT, INT], pre=lambda m, a, n: colpre(m, a, a + n), ref=lambda m, a, n: z3.If(n > 0, COLS(m, a, a + n), nil(L2)),
                                              py=lambda m, a, n: p_cols2(m, a, a + n)),
    "firsts": Con([L2], pre=lambda m: [ROWS(m)], ref=lambda m: FIRSTS(m), py=p_firsts, measure=lambda m: LEN(m)),
    "rests": Con([L2], pre=lambda m: [z3.Or(LEN(m) == 0, z3.And(RECT(m, width(m)), width(m) > 0))],
                 ref=lambda m: z3.If(z3.And(LEN(m) > 0, width(m) > 1), COLS(m, 1, width(m)), nil(L2)), py=p_rests),
    "matrix-transpose-noerr": Con([L2], pre=lambda m: [z3.Or(LEN(m) == 0, z3.And(RECT(m, width(m)), width(m) > 0))],
                                  post=lambda r, m: [z3.Implies(LEN(m) == 0, LEN(r) == 0)] + [z3.Implies(LEN(m) > 0, q) for q in transposed(r, m)], ret=L2, py=p_transp, induct=False,
                                  measure=lambda m: z3.If(LEN(m) > 0, 1 + width(m), 0)),
    "integer-exp-noerr": Con([INT], ref=lambda n: EXPM(n), post=lambda r, n: [0 <= r, r < 64], py=lambda n: pow(3, max(n, 0), 64), measure=lambda n: n),
    "quotient-noerr": Con([INT, INT], pre=lambda x, y: [y != 0], ref=trunc, py=lambda x, y: (inr(y != 0), quo(x, y))[1]),
    "make-tuple": Con([INT, L1], ref=lambda x, r: cons(x, r), py=lambda x, r: (x,) + r),
    "tupleGet": Con([L1, INT], pre=IN, ref=lambda l, i: GET(l, i), py=p_get),
    "set-create": Con([], ref=lambda: nil(L1), py=lambda: ()),
    "set-singleton": Con([INT], ref=lambda v: cons(v, nil(L1)), py=lambda v: (v,)),
    "set-eq": Con([L1, L1], pre=lambda a, b: [SORTED(a), SORTED(b)], ref=lambda a, b: a == b, py=lambda a, b: (sset(a, b), a == b)[1]),
    "set-member": Con([INT, L1], ref=lambda v, s: HAS(s, v), py=lambda v, s: v in s),
    "set-union": Con([L1, L1], pre=lambda a, b: [SORTED(a), SORTED(b)], post=lambda r, a, b: members(r, lambda v: z3.Or(HAS(a, v), HAS(b, v)), a, b), ret=L1, induct=False,
                     measure=lambda a, b: LEN(a) + LEN(b), py=lambda a, b: s2(set.union(*sset(a, b)))),
    "set-insert": Con([INT, L1], pre=lambda v, s: [SORTED(s)], post=lambda r, v, s: members(r, lambda x: z3.Or(x == v, HAS(s, x)), s, cons(v, nil(L1))), ret=L1, induct=False,
                      py=lambda v, s: s2(sset(s)[0] | {v})),
    "set-minus": Con([L1, L1], pre=lambda a, b: [SORTED(a), SORTED(b)], post=lambda r, a, b: members(r, lambda v: z3.And(HAS(a, v), z3.Not(HAS(b, v))), a), ret=L1, induct=False,
                     measure=lambda a, b: LEN(a) + LEN(b), py=lambda a, b: s2(sset(a)[0] - sset(b)[0])),
    "set-subset": Con([L1, L1], pre=lambda a, b: [SORTED(a), SORTED(b)], ref=lambda a, b: SUBSET(a, b), induct=False, measure=lambda a, b: LEN(a) + LEN(b),
                      py=lambda a, b: sset(a)[0] <= sset(b)[0]),
    "map-create": Con([], ref=lambda: nil(L2), py=lambda: ()),
    "map-eq": Con([L2, L2], ref=lambda a, b: a == b, py=lambda a, b: a == b),
    "getIdx": Con([L2, INT], pre=lambda m, k: [ENTRIES(m)], ref=lambda m, k: INDEX(m, k), measure=lambda m, k: LEN(m),
                  py=lambda m, k: (kv(m), inr(k in kv(m)), [e[0] for e in m].index(k))[2]),
    "map-contains": Con([L2, INT], pre=lambda m, k: [ENTRIES(m)], ref=lambda m, k: z3.If(KEY(m, k), 1, 0), measure=lambda m, k: LEN(m), py=lambda m, k: int(k in kv(m))),
    "map-get": Con([L2, INT], pre=lambda m, k: [ENTRIES(m)], ref=lambda m, k: LOOKUP(m, k), measure=lambda m, k: LEN(m), py=lambda m, k: kv(m).get(k, 0)),
    "map-insert": Con([L2, INT, INT], pre=lambda m, k, v: [ENTRIES(m)], ret=L2, induct=False,
                      post=lambda r, m, k, v: inserted(r, m, k, v)),
}
CONTRACTS["matrix-prepend"] = nonempty_row(CONTRACTS["matrix-prepend"])
CONTRACTS["tensor3d-prepend"] = nonempty_row(CONTRACTS["tensor3d-prepend"])
# used on lists of several kinds
VARIANTS = {"list-tail-noerr": [L2, INT], "list-take-noerr": [L2, INT], "list-append": [L2, L1], "list-concat": [L2, L2]}


def inserted(r, m, k, v):
    q = z3.Int("mq")
    return [ENTRIES(r), z3.ForAll([q], LOOKUP(r, q) == z3.If(q == k, v, LOOKUP(m, q)), patterns=[LOOKUP(r, q)]),
            z3.ForAll([q], KEY(r, q) == z3.Or(q == k, KEY(m, q)), patterns=[KEY(r, q)])]


def program():
    return read_racket(open(FILE).read())


def check_map_insert(prog, seed, n):
    """map-insert has no order to compare: look the result up"""
    import random
    r = random.Random(seed)
    run = Runner(prog, PYB)
    for _ in range(n):
        ks = r.sample(range(-2, 5), r.randrange(0, 4))
        m = tuple((k, r.randrange(-3, 4)) for k in ks)
        k, v = r.randrange(-2, 5), r.randrange(-3, 4)
        want = {**dict(m), k: v}
        try:
            got = run.start("map-insert", [m, k, v])
            ok = isinstance(got, tuple) and all(isinstance(e, tuple) and len(e) == 2 for e in got) and dict(got) == want and len(got) == len(want)
        except Unsupported:
            return None
        except Exception as ex:
            got, ok = repr(ex), False
        if not ok:
            return (m, k, v), want, got
    return None


def failing(prog, name, con, seed=1, n=600):
    if name == "map-insert":
        return check_map_insert(prog, seed, n)
    return refute(prog, name, con, PYB, seed, n)


def unit_of(name, con):
    def unit(ctx):
        p = program()
        if name not in p.funs:
            raise Unsupported(f"{name} is not defined")
        c = Checker(UCtx(ctx), p, CONTRACTS, BUILTINS, facts(), "utils.rkt")
        if name == "integer-exp-noerr":
            x = z3.Const(p.funs[name].params[0][0], INT)
            c.prover.facts.append(EXPM(x) == z3.If(x <= 0, 1, 3 * EXPM(x - 1) % 64))
        memo = []

        def cex():
            if not memo:
                memo.append(failing(p, name, con))
            return memo[0] and f"({name} {memo[0][0]}): expected {memo[0][1]}, computes {memo[0][2]}"
        c.function(name, con, cex)
    return unit


def lemma_unit13(ctx):
    u = UCtx(ctx)
    p = Prover(u.rep)
    p.facts = [f for f in facts()][:-len(set_lemmas())]
    prove_lemmas(u, p, set_lemmas(), "sets and maps")
    a, b = z3.Consts("sa sb", L1)
    u.obligation("the lemmas are not contradictory", "unknown" if p.query([], z3.BoolVal(False), 5000) else "discharged", "")


def variant(name, sorts):
    c = CONTRACTS[name]
    return Con(sorts, pre=c.pre_, ref=c.ref, py=c.py)


ASSUMPTIONS = [
    "Racket's own functions (length, list-ref, list-tail, take, append, list-set, car, cdr, match patterns) behave as their documentation says",
    "define-bounded (recursion cut at the fuel of a synthesis run) is read as define: the recursion of a run within the fuel",
    "integers are unbounded here; Rosette runs them with the bitwidth of the synthesis file",
    "symbolic evaluation by Rosette is not modelled: the functions are judged on concrete values",
    "integer-sqrt-noerr and map-normalize have no contract (the first is a placeholder, the second is not used)",
    "rows of a matrix without elements: matrix-prepend drops them, which is taken as specified",
]
UNITS = {"lemmas": lemma_unit, "lemmas of sets and maps": lemma_unit13}
for _n, _c in CONTRACTS.items():
    UNITS[_n] = unit_of(_n, _c)
for _n, _s in VARIANTS.items():
    UNITS[f"{_n} on lists of lists"] = unit_of(_n, variant(_n, _s))
