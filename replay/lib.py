"""Concrete inputs for the real code: recipes of expressions (a representation
independent of metalift's classes), their meaning, and readers of the texts
metalift prints."""
import itertools
import random
import re
import time
import metalift.ir as ir

INT, BOOL, LINT, LLINT, SINT, T2, T3 = "Int", "Bool", "LInt", "LLInt", "SInt", "T2", "T3"


def ty(t):
    return {INT: ir.Int, BOOL: ir.Bool, LINT: ir.List[ir.Int], LLINT: ir.Matrix[ir.Int], SINT: ir.Set[ir.Int],
            T2: ir.Tuple[tuple[ir.Int, ir.Int]], T3: ir.Tuple[tuple[ir.Int, ir.Bool, ir.Int]]}[t]


class Skip(Exception):
    """the case has no defined meaning"""


class Bad(Exception):
    """the text is not what it should be"""


class Recorder:
    def __init__(self, pid, tier, seed, deadline):
        self.pid, self.tier, self.seed, self.deadline = pid, tier, seed, deadline
        self.found, self.evals, self.kinds, self.samples = [], 0, set(), []
        self.rng = random.Random(seed)
        self.thorough = tier == "thorough"
        self.sigs = set()

    def case(self, kind, sample=None):
        self.evals += 1
        if kind not in self.kinds:
            self.kinds.add(kind)
            if len(self.samples) < 12:
                self.samples.append(str(sample if sample is not None else kind)[:300])

    def over(self):
        return time.time() > self.deadline

    def violation(self, signature, what, input, expected, got):
        if signature in self.sigs or len(self.found) > 200:
            return
        self.sigs.add(signature)
        self.found.append({"signature": signature, "what": what, "input": str(input), "expected": str(expected), "got": str(got)[:2000]})

    def check(self, cond, signature, what, input, expected, got):
        if not cond:
            self.violation(signature, what, input, expected, got)

    def stats(self):
        return {"evaluations": self.evals, "distinct_nontrivial": len(self.kinds),
                "rule": "cases are distinct when their kind (function and shape of the input) differs", "samples": self.samples}


# ------------------------------------------------------------------- recipes
class R(tuple):
    """recipe: (op, type, *payload)"""
    @property
    def op(self):
        return self[0]

    @property
    def t(self):
        return self[1]


def var(n, t):
    return R(("Var", t, n))


def lit(v):
    return R(("Lit", BOOL if isinstance(v, bool) else INT, v))


NARY_I = ("Add", "Mul")
BIN_I = ("Sub", "Div", "Mod")
CMP = ("Lt", "Le", "Gt", "Ge")


def mk(op, *kids):
    t = INT if op in NARY_I + BIN_I else kids[1].t if op == "Ite" else BOOL
    return R((op, t) + kids)


def call(name, t, *kids):
    return R(("Call", t, name) + kids)


def callv(name, t, *kids):
    return R(("CallValue", t, name) + kids)


def let(name, e, body):
    return R(("Let", body.t, name, e, body))


def tup(*kids):
    return R(("TupleExpr", T2 if len(kids) == 2 else T3, *kids))


def kids(r):
    return [k for k in r[2:] if isinstance(k, R)]


def show(r):
    if r.op in ("Var", "Lit"):
        return str(r[2])
    if r.op in ("Call", "CallValue"):
        return f"{'*' if r.op == 'CallValue' else ''}{r[2]}({', '.join(map(show, r[3:]))})"
    if r.op == "Let":
        return f"Let({r[2]}={show(r[3])}, {show(r[4])})"
    return f"{r.op}({', '.join(show(k) for k in kids(r))})"


def build(r, share=None):
    """the metalift expression of a recipe, through the public constructors"""
    if r.op == "Var":
        return ir.Var(r[2], ty(r.t))
    if r.op == "Lit":
        return ir.Lit(r[2], ty(r.t))
    if r.op == "Call":
        return ir.Call(r[2], ty(r.t), *[build(k) for k in r[3:]])
    if r.op == "CallValue":
        ks = [build(k) for k in r[3:]]
        return ir.CallValue(ir.Var(r[2], ir.Fn[tuple[(ty(r.t),) + tuple(ty(k.t) for k in r[3:])]]), *ks)
    if r.op == "Let":
        return ir.Let(ir.Var(r[2], ty(r[3].t)), build(r[3]), build(r[4]))
    return getattr(ir, r.op)(*[build(k) for k in kids(r)])


# ------------------------------------------------------------------- meaning
def euclid(a, b):
    if b == 0:
        raise Skip()
    q = a // b if b > 0 else -(a // -b)
    return q, a - b * q


def trunc(a, b):
    if b == 0:
        raise Skip()
    q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
    return q, a - b * q


def floor(a, b):
    if b == 0:
        raise Skip()
    return a // b, a % b


DIV = {"smt": euclid, "ros": trunc, "py": floor}


def is_list(x):
    return isinstance(x, tuple) and x[:1] != ("T",)


def _slice(l, a, b):
    if not 0 <= a <= b <= len(l):
        raise Skip()
    return l[a:b]


def _get(l, i):
    if not 0 <= i < len(l):
        raise Skip()
    return l[i]


LISTF = {
    "length": lambda l: len(l), "get": _get, "append": lambda l, x: l + (x,), "prepend": lambda x, l: (x,) + l,
    "empty": lambda: (), "tail": lambda l, n: _slice(l, n, len(l)), "take": lambda l, n: _slice(l, 0, n),
    "concat": lambda a, b: a + b,
}
FN = {}
for _p in ("list", "matrix", "tensor3d"):
    for _k, _v in LISTF.items():
        FN[f"{_p}_{_k}"] = _v
for _n in ("vec_slice", "matrix_row_slice", "tensor3d_slice"):
    FN[_n] = _slice
    FN[_n + "_with_length"] = lambda l, a, n: _slice(l, a, a + n)
FN["list_eq"] = lambda a, b: a == b
FN["ite"] = lambda c, a, b: a if c else b
# result types of the uninterpreted names the generator uses
RET = {}


STRICT = [False]


def apply(name, args, t=None):
    if name == "list_eq":
        return args[0] == args[1]
    if name in FN:
        if any(isinstance(a, tuple) and a[:1] == ("O",) for a in args):
            return ("O", name) + tuple(args)
        try:
            return FN[name](*args)
        except Skip:
            if STRICT[0]:
                raise
            return ("O", name) + tuple(args)  # outside its range: some value that depends on the arguments
    t = RET.get(name, t)
    h = 0
    for ch in repr((name, args)):
        h = (h * 31 + ord(ch)) % 1000003
    if t == INT:
        return h % 11 - 5
    if t == BOOL:
        return h % 2 == 0
    if t in (LINT,):
        return tuple((h >> k) % 5 for k in range(h % 4))
    if t == T2:
        return ("T", h % 7, h % 5)
    if t == T3:
        return ("T", h % 7, h % 2 == 0, h % 5)
    return ("O", name) + tuple(args)


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def ev(r, env, mode):
    op = r.op
    if op == "Var":
        return env[r[2]]
    if op == "Lit":
        return r[2]
    if op == "Let":
        e2 = dict(env)
        e2[r[2]] = ev(r[3], env, mode)
        return ev(r[4], e2, mode)
    if op == "Ite":
        if isinstance(ev(r[2], env, mode), tuple):
            raise Skip()
        return ev(r[3], env, mode) if ev(r[2], env, mode) else ev(r[4], env, mode)
    xs = [ev(k, env, mode) for k in kids(r)]
    if op in ("Call", "CallValue"):
        return special(r[2], xs, r.t)
    return opval(op, xs, mode)


def special(name, xs, t):
    if name == "make-tuple":
        return ("T", *xs)
    if name == "tupleGet":
        return xs[0][1 + xs[1]]
    return apply(name, xs, t)


def opval(op, xs, mode):
    if op not in ("Eq", "Ite", "TupleExpr") and any(isinstance(x, tuple) for x in xs) or op == "Ite" and isinstance(xs[0], tuple):
        raise Skip()
    if op == "Add":
        return sum(xs)
    if op == "Sub":
        return xs[0] - xs[1]
    if op == "Mul":
        return prod(xs)
    if op == "Div":
        return DIV[mode](*xs)[0]
    if op == "Mod":
        return DIV[mode](*xs)[1]
    if op == "Eq":
        return xs[0] == xs[1] and isinstance(xs[0], bool) == isinstance(xs[1], bool)
    if op == "Lt":
        return xs[0] < xs[1]
    if op == "Le":
        return xs[0] <= xs[1]
    if op == "Gt":
        return xs[0] > xs[1]
    if op == "Ge":
        return xs[0] >= xs[1]
    if op == "And":
        return all(xs)
    if op == "Or":
        return any(xs)
    if op == "Not":
        return not xs[0]
    if op == "Implies":
        return (not xs[0]) or xs[1]
    if op == "Ite":
        return xs[1] if xs[0] else xs[2]
    if op == "TupleExpr":
        return ("T", *xs)
    raise Skip()


def ev_expr(e, env, mode, depth=0):
    """meaning of a metalift expression object (read structurally)"""
    n = type(e).__name__
    if depth > 60:
        raise Skip()
    if isinstance(e, ir.Object):
        return ev_expr(e.src, env, mode, depth + 1)
    if n in ("Var", "NonTerm"):
        return env[e.args[0]]
    if n == "Lit":
        return e.args[0]
    g = lambda x: ev_expr(x, env, mode, depth + 1)
    if n == "Let":
        e2 = dict(env)
        e2[e.args[0].args[0]] = g(e.args[1])
        return ev_expr(e.args[2], e2, mode, depth + 1)
    if n == "Ite":
        return g(e.args[1]) if g(e.args[0]) else g(e.args[2])
    if n == "Call":
        return special(e.args[0], [g(a) for a in e.args[1:]], None)
    if n == "CallValue":
        return special(e.args[0].args[0], [g(a) for a in e.args[1:]], None)
    return opval(n, [g(a) for a in e.args], mode)


# ---------------------------------------------------------------- generation
IVARS = ["x", "y", "z"]
BVARS = ["p", "q"]
RET.update({"f": INT, "g": BOOL, "inv0": BOOL, "integer_sqrt": INT, "uf_l": LINT, "uf_s": SINT, "uf_t": T2, "uf_t3": T3,
            "set-member": BOOL, "set-insert": SINT, "set-union": SINT, "map-get": INT, "hv": INT, "ps_f": BOOL, "listy": INT, "mat_sum": INT})


def leaves(t):
    if t == INT:
        return [var(n, INT) for n in IVARS] + [lit(v) for v in (0, 1, 2, -3)]
    if t == BOOL:
        return [var(n, BOOL) for n in BVARS] + [lit(True), lit(False)]
    if t == LINT:
        return [var("l", LINT), var("m", LINT)]
    if t == SINT:
        return [var("s", SINT)]
    if t == T2:
        return [var("t2", T2)]
    if t == T3:
        return [var("t3", T3)]
    if t == LLINT:
        return [var("mm", LLINT)]
    return []


def forms(calls=True):
    """(name, arg types, builder)"""
    F = []
    for o in NARY_I:
        F += [(o, [INT, INT], lambda *k, o=o: mk(o, *k)), (o + "3", [INT, INT, INT], lambda *k, o=o: mk(o, *k))]
    for o in BIN_I:
        F.append((o, [INT, INT], lambda *k, o=o: mk(o, *k)))
    for o in CMP:
        F.append((o, [INT, INT], lambda *k, o=o: mk(o, *k)))
    F.append(("EqI", [INT, INT], lambda *k: mk("Eq", *k)))
    F.append(("EqB", [BOOL, BOOL], lambda *k: mk("Eq", *k)))
    F.append(("EqL", [LINT, LINT], lambda *k: mk("Eq", *k)))
    for o in ("And", "Or"):
        F += [(o + "1", [BOOL], lambda *k, o=o: mk(o, *k)), (o, [BOOL, BOOL], lambda *k, o=o: mk(o, *k)), (o + "3", [BOOL, BOOL, BOOL], lambda *k, o=o: mk(o, *k))]
    F.append(("Not", [BOOL], lambda *k: mk("Not", *k)))
    F.append(("Implies", [BOOL, BOOL], lambda *k: mk("Implies", *k)))
    F.append(("IteI", [BOOL, INT, INT], lambda *k: mk("Ite", *k)))
    F.append(("IteB", [BOOL, BOOL, BOOL], lambda *k: mk("Ite", *k)))
    F.append(("IteL", [BOOL, LINT, LINT], lambda *k: mk("Ite", *k)))
    F.append(("LetI", [INT, INT], lambda e, b: let("w", e, subst_leaf(b))))
    F.append(("LetX", [INT, BOOL], lambda e, b: let("x", e, b)))
    if calls:
        C = [("f", INT, [INT]), ("f", INT, [INT, INT]), ("g", BOOL, [INT]), ("inv0", BOOL, [INT, BOOL]), ("ps_f", BOOL, [INT]), ("f", INT, []), ("listy", INT, [INT]), ("mat_sum", INT, [LINT, INT]),
             ("list_length", INT, [LINT]), ("list_get", INT, [LINT, INT]), ("list_append", LINT, [LINT, INT]),
             ("list_prepend", LINT, [INT, LINT]), ("list_tail", LINT, [LINT, INT]), ("list_take", LINT, [LINT, INT]),
             ("list_concat", LINT, [LINT, LINT]), ("list_empty", LINT, []), ("list_eq", BOOL, [LINT, LINT]),
             ("vec_slice", LINT, [LINT, INT, INT]), ("vec_slice_with_length", LINT, [LINT, INT, INT]),
             ("set-member", BOOL, [INT, SINT]), ("set-insert", SINT, [INT, SINT]), ("set-union", SINT, [SINT, SINT]), ("map-get", INT, [SINT, INT]),
             ("make-tuple", T2, [INT, INT]), ("uf_t", T2, [INT]), ("make-tuple", T3, [INT, BOOL, INT]), ("uf_t3", T3, [INT])]
        for n, t, a in C:
            F.append((f"{n}/{len(a)}", a, lambda *k, n=n, t=t: call(n, t, *k)))
        F.append(("TupleExpr", [INT, INT], lambda *k: tup(*k)))
        F.append(("TupleExpr3", [INT, BOOL, INT], lambda *k: tup(*k)))
        for i in (0, 1):
            F.append((f"tupleGet{i}", [T2], lambda k, i=i: call("tupleGet", INT, k, lit(i))))
        for i in (0, 1, 2):
            F.append((f"tuple3Get{i}", [T3], lambda k, i=i: call("tupleGet", (INT, BOOL, INT)[i], k, lit(i))))
        F.append(("IteT", [BOOL, T2, T2], lambda *k: mk("Ite", *k)))
        F.append(("CallValue", [INT, INT], lambda *k: callv("hv", INT, *k)))
        F.append(("CallValue1", [INT], lambda *k: callv("hv", INT, *k)))
    return F


def subst_leaf(b):
    return mk("Add", b, var("w", INT))


def rtype(form):
    ks = [leaves(t)[0] for t in form[1]]
    return form[2](*ks).t


def gen(rng, t, depth, F):
    ok = [f for f in F if f[3] == t]
    if depth <= 0 or not ok or rng.random() < 0.12:
        ls = leaves(t)
        if ls:
            return rng.choice(ls)
    f = rng.choice(ok)
    return f[2](*[gen(rng, a, depth - 1, F) for a in f[1]])


def cases(rng, n_random, depth=3, calls=True, drop=(), pairs=True):
    """systematic: every form over leaves, every form with every form as one
    operand; then random deeper trees"""
    F = [f + (rtype(f),) for f in forms(calls) if f[0] not in drop]
    for t in (INT, BOOL, LINT):
        for l in leaves(t):
            yield "leaf", l
    for f in F:
        for c in itertools.islice(itertools.product(*[leaves(a)[:4] for a in f[1]]), 24):
            yield f[0], f[2](*c)
    if pairs:
        for f in F:
            for i, a in enumerate(f[1]):
                for g in F:
                    if g[3] != a:
                        continue
                    ks = [leaves(b)[min(j, len(leaves(b)) - 1)] for j, b in enumerate(f[1])]
                    ks[i] = g[2](*[leaves(b)[min(j + 1, len(leaves(b)) - 1)] for j, b in enumerate(g[1])])
                    yield f"{f[0]}({g[0]}@{i})", f[2](*ks)
    for k in range(n_random):
        t = rng.choice([INT, BOOL, BOOL, INT, LINT])
        r = gen(rng, t, rng.randint(2, depth), F)
        yield f"rnd{k}", r


def envs(rng, n):
    out = []
    for k in range(n):
        e = {v: rng.randint(-4, 6) for v in IVARS + ["w"]}
        e.update({v: rng.random() < 0.5 for v in BVARS})
        e.update({v: tuple(rng.randint(-2, 4) for _ in range(rng.randint(0, 4))) for v in ("l", "m")})
        e["s"] = ("O", "s", rng.randint(0, 9))
        e["t3"] = ("T", rng.randint(-3, 3), rng.random() < 0.5, rng.randint(-3, 3))
        e["t2"] = ("T", rng.randint(-3, 3), rng.randint(-3, 3))
        e["mm"] = tuple(tuple(rng.randint(0, 4) for _ in range(2)) for _ in range(rng.randint(0, 3)))
        e["tuple0"] = ("T",)
        out.append(e)
    return out


# ------------------------------------------------------------- s-expressions
def tokens(text):
    return re.findall(r"\(|\)|\[|\]|\"[^\"]*\"|[^\s()\[\]]+", re.sub(r";[^\n]*", "", text))


def sexprs(text):
    stack = [[]]
    for t in tokens(text):
        if t in "([":
            stack.append([])
        elif t in ")]":
            if len(stack) == 1:
                raise Bad("unbalanced )")
            x = stack.pop()
            stack[-1].append(x)
        else:
            stack[-1].append(t)
    if len(stack) != 1:
        raise Bad("unbalanced (")
    return stack[0]


def one_sexpr(text):
    x = sexprs(text)
    if len(x) != 1:
        raise Bad(f"{len(x)} s-expressions instead of one")
    return x[0]


SMTOPS = {"+": "Add", "*": "Mul", "-": "Sub", "div": "Div", "mod": "Mod", "=": "Eq", "<": "Lt", "<=": "Le", ">": "Gt", ">=": "Ge",
          "and": "And", "or": "Or", "not": "Not", "=>": "Implies", "ite": "Ite"}


def ev_smt(x, env):
    if isinstance(x, str):
        if re.fullmatch(r"[0-9]+", x):
            return int(x)
        if x in ("true", "false"):
            return x == "true"
        if x in env:
            return env[x]
        if re.fullmatch(r"-[0-9]+", x):
            raise Bad(f"{x} is a symbol in SMT-LIB, not a number")
        return call_smt(x, [])
    if not x:
        raise Bad("()")
    h = x[0]
    if h == "let":
        if len(x) != 3 or len(x[1]) != 1 or len(x[1][0]) != 2:
            raise Bad("let")
        e2 = dict(env)
        e2[x[1][0][0]] = ev_smt(x[1][0][1], env)
        return ev_smt(x[2], e2)
    if h == "as":
        return ("O", "as", str(x[1:]))
    if not isinstance(h, str):
        raise Bad("application of a compound term")
    if len(x) == 1:
        raise Bad("application without arguments")
    if h == "ite":
        return ev_smt(x[2], env) if ev_smt(x[1], env) else ev_smt(x[3], env)
    xs = [ev_smt(a, env) for a in x[1:]]
    if h in SMTOPS:
        return chk_op(SMTOPS[h], xs, "smt", h)
    return call_smt(h, xs)


ARITY = {"Sub": (2,), "Div": (2,), "Mod": (2,), "Eq": (2,), "Lt": (2,), "Le": (2,), "Gt": (2,), "Ge": (2,), "Not": (1,), "Implies": (2,), "Ite": (3,)}


def chk_op(op, xs, mode, h):
    if op == "Sub" and len(xs) == 1:
        return -xs[0]
    if op in ARITY and len(xs) not in ARITY[op]:
        raise Bad(f"{h} with {len(xs)} operands")
    if op in ("Add", "Mul") and len(xs) < 2:
        raise Bad(f"{h} with {len(xs)} operands")
    want = int if op in ("Add", "Sub", "Mul", "Div", "Mod", "Lt", "Le", "Gt", "Ge") else bool if op in ("And", "Or", "Not", "Implies") else None
    if want and any(type(v) is not want for v in xs):
        raise Bad(f"{h} applied to {xs}")
    return opval(op, xs, mode)


def call_smt(h, xs):
    m = re.fullmatch(r"tuple(\d+)_get(\d+)", h)
    if m:
        t = xs[0]
        if not (isinstance(t, tuple) and t[:1] == ("T",)):
            raise Skip()
        if len(t) - 1 != int(m.group(1)):
            raise Bad(f"{h} applied to a {len(t) - 1}-tuple")
        return t[1 + int(m.group(2))]
    m = re.fullmatch(r"tuple(\d+)", h)
    if m:
        if int(m.group(1)) != len(xs):
            raise Bad(f"{h} with {len(xs)} components")
        return ("T", *xs)
    if h.startswith("set."):
        h = "set-" + h[4:]
    elif h.startswith("map_"):
        h = "map-" + h[4:]
    return apply(h, xs)


# ------------------------------------------------------------------- Rosette
ROSOPS = {"+": "Add", "*": "Mul", "-": "Sub", "quotient-noerr": "Div", "quotient": "Div", "remainder": "Mod", "equal?": "Eq", "set-eq": "Eq", "<": "Lt",
          "<=": "Le", ">": "Gt", ">=": "Ge", "&&": "And", "and": "And", "||": "Or", "or": "Or", "!": "Not", "not": "Not", "=>": "Implies"}
ROSLIB = {
    "list-ref-noerr": "list_get", "list-append": "list_append", "list-empty": "list_empty", "list-tail-noerr": "list_tail",
    "length": "list_length", "list-take-noerr": "list_take", "list-prepend": "list_prepend", "list-concat": "list_concat",
    "matrix-ref-noerr": "matrix_get", "matrix-append": "matrix_append", "matrix-empty": "matrix_empty", "matrix-tail-noerr": "matrix_tail",
    "matrix-length": "matrix_length", "matrix-take-noerr": "matrix_take", "matrix-prepend": "matrix_prepend",
    "matrix-transpose-noerr": "matrix_transpose", "matrix-row-slice-noerr": "matrix_row_slice",
    "matrix-row-slice-with-length-noerr": "matrix_row_slice_with_length", "matrix-col-slice-noerr": "matrix_col_slice",
    "matrix-col-slice-with-length-noerr": "matrix_col_slice_with_length", "tensor3d-ref-noerr": "tensor3d_get",
    "tensor3d-append": "tensor3d_append", "tensor3d-empty": "tensor3d_empty", "tensor3d-tail-noerr": "tensor3d_tail",
    "tensor3d-length": "tensor3d_length", "tensor3d-take-noerr": "tensor3d_take", "tensor3d-prepend": "tensor3d_prepend",
    "tensor3d-slice-noerr": "tensor3d_slice", "tensor3d-slice-with-length-noerr": "tensor3d_slice_with_length",
    "vec-slice-noerr": "vec_slice", "vec-slice-with-length-noerr": "vec_slice_with_length",
    "integer-sqrt-noerr": "integer_sqrt", "integer-exp-noerr": "integer_exp",
}


def ev_ros(x, env):
    if isinstance(x, str):
        if re.fullmatch(r"-?[0-9]+", x):
            return int(x)
        if x in ("true", "false", "#t", "#f"):
            return x in ("true", "#t")
        if x in env:
            return env[x]
        raise Bad(f"unbound identifier {x}")
    if not x:
        raise Bad("()")
    h = x[0]
    if h == "let":
        if len(x) != 3 or len(x[1]) != 1 or len(x[1][0]) != 2:
            raise Bad("let")
        e2 = dict(env)
        e2[x[1][0][0]] = ev_ros(x[1][0][1], env)
        return ev_ros(x[2], e2)
    if not isinstance(h, str):
        raise Bad("application of a compound term")
    if h == "if":
        if len(x) != 4:
            raise Bad("if")
        return ev_ros(x[2], env) if ev_ros(x[1], env) else ev_ros(x[3], env)
    xs = [ev_ros(a, env) for a in x[1:]]
    if h in ROSOPS:
        if h in ("+", "*", "&&", "||", "and", "or") and len(xs) == 1:
            return xs[0]
        return chk_op(ROSOPS[h], xs, "ros", h)
    if h == "make-tuple":
        return ("T", *xs)
    if h == "tupleGet":
        if not isinstance(xs[0], tuple):
            raise Skip()
        return xs[0][1 + xs[1]]
    if h in FN:
        raise Bad(f"{h} is not a Rosette function")
    return apply(ROSLIB.get(h, h), xs)


# ---------------------------------------------------- structure of real expressions
def skel(e):
    """structure of a metalift expression as nested tuples (independent of Expr.__eq__)"""
    if isinstance(e, ir.Object):
        e = e.src
    if isinstance(e, ir.Expr):
        return (type(e).__name__, str(e.type)) + tuple(skel(a) for a in e.args)
    return (type(e).__name__, str(e) if not isinstance(e, (int, bool, str, type(None))) else e)


def recipe_kinds(r):
    yield r.op
    for k in kids(r):
        yield from recipe_kinds(k)


def has_op(r, ops):
    return any(o in ops for o in recipe_kinds(r))


def all_nodes(e):
    yield e
    for a in e.args:
        if isinstance(a, ir.Expr):
            yield from all_nodes(a)


def ev_real(e, env, mode="smt"):
    """meaning of a real metalift expression"""
    n = type(e).__name__
    if isinstance(e, ir.Object):
        return ev_real(e.src, env, mode)
    if n == "Var":
        return env[e.args[0]]
    if n == "Lit":
        return e.args[0]
    if n == "Let":
        e2 = dict(env)
        e2[e.args[0].args[0]] = ev_real(e.args[1], env, mode)
        return ev_real(e.args[2], e2, mode)
    if n == "Ite":
        return ev_real(e.args[1], env, mode) if ev_real(e.args[0], env, mode) else ev_real(e.args[2], env, mode)
    back = {"Int": INT, "Bool": BOOL}
    if n == "Call":
        return special(e.args[0], [ev_real(a, env, mode) for a in e.args[1:]], back.get(getattr(e.type, "__name__", "")))
    if n == "CallValue":
        return special(e.args[0].args[0], [ev_real(a, env, mode) for a in e.args[1:]], back.get(getattr(e.type, "__name__", "")))
    xs = [ev_real(a, env, mode) for a in e.args]
    if n == "TupleExpr":
        return ("T", *xs)
    return opval(n, xs, mode)
