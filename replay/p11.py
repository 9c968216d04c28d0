"""the verification condition of Python functions, decided by z3 with the
predicates interpreted as finite sets of states of real executions"""
import contextlib
import io
import itertools
import os
import z3
import env
import metalift.ir as ir
import metalift.frontend.python as fp

DOMS = {"int": [-1, 0, 1, 2], "List[int]": [(), (1,), (2, -1)], "Set[int]": [frozenset(), frozenset({1})]}
IRT = {"int": ir.Int, "List[int]": ir.List[ir.Int], "Set[int]": ir.Set[ir.Int]}
FUEL = 60


# ---- programs: statements as tuples ------------------------------------------
class Gen:
    def __init__(self, r):
        self.r = r
        self.args = [("x", "int"), ("y", "int")][: r.choice([1, 2, 2])]
        if r.random() < .3:
            self.args.append(("l", "List[int]"))
        if r.random() < .12:
            self.args.append(("s", "Set[int]"))
        self.loops = 0
        self.touch_args = r.random() < .4
        self.size = 0
        self.ret = r.choice(["int", "int", "int", "int"] + [t for _, t in self.args if t != "int"])

    def ints(self, sc):
        return [v for v, t in sc.items() if t == "int"]

    def iexpr(self, sc, d=2):
        r = self.r
        k = r.random()
        vs = self.ints(sc)
        if d == 0 or k < .35:
            return ("var", r.choice(vs)) if vs and r.random() < .7 else ("int", r.randrange(0, 4))
        if k < .8:
            return (r.choice(["+", "-", "+", "-", "*"]), self.iexpr(sc, d - 1), self.iexpr(sc, d - 1))
        if k < .85:
            return ("neg", self.iexpr(sc, d - 1))
        if k < .88:
            return ("//", self.iexpr(sc, d - 1), ("int", 2))
        ls = [v for v, t in sc.items() if t == "List[int]"]
        if ls:
            return ("len", r.choice(ls))
        if k < .95:
            n = r.choice([2, 3])
            return ("tup", r.randrange(n), [self.iexpr(sc, d - 1) for _ in range(n)])
        return ("uni", self.iexpr(sc, d - 1), self.iexpr(sc, d - 1))

    def cond(self, sc, d=2):
        r = self.r
        k = r.random()
        if d == 0 or k < .6:
            n = 2 if r.random() < .7 else r.choice([3, 3, 4])
            ops = [r.choice(["<", "<=", ">", ">=", "=="]) for _ in range(n - 1)]
            return ("cmp", ops, [self.iexpr(sc, 1) for _ in range(n)])
        return (r.choice(["and", "or"]), self.cond(sc, d - 1), self.cond(sc, d - 1))

    def block(self, sc, d, n=None, inloop=False):
        out = []
        for _ in range(n or self.r.choice([1, 1, 2, 3])):
            if self.size > 9:
                break
            out += self.stmt(sc, d, inloop)
            if out and out[-1][0] == "return":
                break
        return out or [self.assign(sc)]

    def assign(self, sc):
        vs = ["a", "b", "c"] + (["x"] if self.touch_args else [])
        v = self.r.choice(vs)
        if sc.get(v, "int") != "int":
            v = "a"
        e = self.iexpr(sc)
        sc[v] = "int"
        return ("=", v, e)

    def stmt(self, sc, d, inloop):
        r = self.r
        self.size += 1
        k = r.random()
        if k < .4 or d == 0:
            ls = [v for v, t in sc.items() if t == "List[int]"]
            ss = [v for v, t in sc.items() if t == "Set[int]"]
            if ls and r.random() < .35:
                return [("append", r.choice(ls), self.iexpr(sc, 1))]
            if ss and r.random() < .5:
                return [(r.choice(["add", "remove"]), r.choice(ss), self.iexpr(sc, 1))]
            if r.random() < .12 and "m" not in sc and not inloop and d == 2:
                sc["m"] = "List[int]"
                return [("new", "m")]
            return [self.assign(sc)]
        if k < .72:
            c = self.cond(sc, r.choice([0, 1]))
            s1, s2 = dict(sc), dict(sc)
            b1 = self.block(s1, d - 1, None, inloop)
            b2 = self.block(s2, d - 1, None, inloop) if r.random() < .6 else []
            if r.random() < .25:
                b1.append(("return", self.retval(s1))) if b1[-1][0] != "return" else None
            if b2 and r.random() < .25:
                b2.append(("return", self.retval(s2))) if b2[-1][0] != "return" else None
            done1, done2 = b1[-1][0] == "return", bool(b2) and b2[-1][0] == "return"
            pre = []
            keep = s2 if done1 else s1 if done2 else None
            if keep is not None:
                sc.update(keep)
            else:
                # variables set in one branch only are set before
                for v in sorted(set(s1) ^ set(s2)):
                    if v not in sc:
                        pre.append(("new", v) if v == "m" else ("=", v, ("int", r.randrange(3))))
                for v in set(s1) | set(s2):
                    sc.setdefault(v, s1.get(v) or s2.get(v))
            out = pre + [("if", c, b1, b2)]
            if done1 and done2:
                out.append(("return", self.retval(sc)))
            return out
        if self.loops >= 2:
            return [self.assign(sc)]
        i = f"i{self.loops}"
        self.loops += 1
        ls = [v for v, t in sc.items() if t == "List[int]"]
        bound = ("int", r.randrange(0, 3)) if r.random() < .5 or not self.ints(sc) else ("var", r.choice(self.ints(sc)))
        if ls and r.random() < .3:
            bound = ("len", r.choice(ls))
        init = ("=", i, ("int", r.choice([0, 0, 0, 1])))
        sc[i] = "int"
        c = ("cmp", [r.choice(["<", "<", "<="])], [("var", i), bound])
        if r.random() < .25:
            c = ("and", c, self.cond(sc, 0))
        pre = []
        if r.random() < .7:
            for v in "abc":
                if v not in sc:
                    pre.append(("=", v, ("int", r.randrange(3))))
                    sc[v] = "int"
        s1 = dict(sc)
        body = self.block(s1, d - 1, r.choice([1, 1, 2]), True)
        step = ("=", i, ("+", ("var", i), ("int", 1)))
        if body[-1][0] == "return":
            body = [("if", self.cond(sc, 0), body, [])]
        if ls and r.random() < .5:
            # list elements are read where the index is in range
            l = r.choice(ls)
            t = r.choice(self.ints(sc))
            body.insert(0, ("if", ("cmp", ["<=", "<"], [("int", 0), ("var", i), ("len", l)]), [("=", t if t != i and t not in "xy" else "a", ("get", l, ("var", i)))], []))
            if "a" not in sc:
                pre.append(("=", "a", ("int", 0)))
                sc["a"] = "int"
        other = self.block(sc, 0, 1) if r.random() < .12 else []
        return pre + [init, ("while", c, body + [step], other)]

    def retval(self, sc):
        if self.ret == "int":
            return self.iexpr(sc)
        return ("var", self.r.choice([v for v, t in sc.items() if t == self.ret]))

    def program(self):
        sc = {v: t for v, t in self.args}
        b = self.block(sc, 2, self.r.choice([1, 2, 3, 4]))
        if b[-1][0] != "return":
            b.append(("return", self.retval(sc)))
        return b


def pe(e):
    k = e[0]
    if k in ("var",):
        return e[1]
    if k == "int":
        return str(e[1])
    if k == "neg":
        return f"(-{pe(e[1])})"
    if k == "len":
        return f"len({e[1]})"
    if k == "get":
        return f"{e[1]}[{pe(e[2])}]"
    if k == "tup":
        return f"({', '.join(map(pe, e[2]))})[{e[1]}]"
    if k == "uni":
        return f"uni({pe(e[1])}, {pe(e[2])})"
    if k == "cmp":
        return "(" + " ".join([pe(e[2][0])] + [f"{o} {pe(x)}" for o, x in zip(e[1], e[2][1:])]) + ")"
    return f"({pe(e[1])} {k} {pe(e[2])})"


class Src:
    """prints a program and numbers its loops by line"""

    def __init__(self, first):
        self.lines, self.base, self.loop_line = [], first, {}

    def emit(self, ind, t):
        self.lines.append("    " * ind + t)
        return self.base + len(self.lines) - 1

    def block(self, b, ind):
        for s in b or [None]:
            k = s[0]
            if k == "=":
                self.emit(ind, f"{s[1]} = {pe(s[2])}")
            elif k == "new":
                self.emit(ind, f"{s[1]}: List[int] = []")
            elif k in ("append", "add", "remove"):
                self.emit(ind, f"{s[1]}.{k}({pe(s[2])})")
            elif k == "return":
                self.emit(ind, f"return {pe(s[1])}")
            elif k == "if":
                self.emit(ind, f"if {pe(s[1])}:")
                self.block(s[2], ind + 1)
                if s[3]:
                    self.emit(ind, "else:")
                    self.block(s[3], ind + 1)
            elif k == "while":
                self.loop_line[id(s)] = self.emit(ind, f"while {pe(s[1])}:")
                self.block(s[2], ind + 1)
                if s[3]:
                    self.emit(ind, "else:")
                    self.block(s[3], ind + 1)


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class OutOfFuel(Exception):
    pass


def uni(a, b):
    return 2 * a + b


class Run:
    def __init__(self, lines):
        self.heads, self.lines, self.fuel = {}, lines, FUEL

    def ev(self, e, s):
        k = e[0]
        if k == "var":
            return s[e[1]]
        if k == "int":
            return e[1]
        if k == "neg":
            return -self.ev(e[1], s)
        if k == "len":
            return len(s[e[1]])
        if k == "get":
            return s[e[1]][self.ev(e[2], s)]
        if k == "tup":
            return [self.ev(x, s) for x in e[2]][e[1]]
        if k == "uni":
            return uni(self.ev(e[1], s), self.ev(e[2], s))
        if k == "cmp":
            v = [self.ev(x, s) for x in e[2]]
            return all({"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b}[o] for o, a, b in zip(e[1], v, v[1:]))
        a, b = self.ev(e[1], s), self.ev(e[2], s)
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b, "and": lambda: a and b, "or": lambda: a or b}[k]()

    def block(self, b, s):
        for st in b:
            k = st[0]
            if k == "=":
                s[st[1]] = self.ev(st[2], s)
            elif k == "new":
                s[st[1]] = ()
            elif k == "append":
                s[st[1]] = s[st[1]] + (self.ev(st[2], s),)
            elif k == "add":
                s[st[1]] = s[st[1]] | {self.ev(st[2], s)}
            elif k == "remove":
                s[st[1]] = s[st[1]] - {self.ev(st[2], s)}
            elif k == "return":
                raise Ret(self.ev(st[1], s))
            elif k == "if":
                self.block(st[2] if self.ev(st[1], s) else st[3], s)
            else:
                while True:
                    self.fuel -= 1
                    if self.fuel < 0:
                        raise OutOfFuel()
                    self.heads.setdefault(self.lines[id(st)], []).append(dict(s))
                    if not self.ev(st[1], s):
                        break
                    self.block(st[2], s)
                self.block(st[3], s)


# ---- z3 reading of metalift expressions ----------------------------------------
ARR = z3.ArraySort(z3.IntSort(), z3.IntSort())
SETS = z3.SetSort(z3.IntSort())


class L:
    """a list: its length and its elements (z3's sequences are not reliable enough to raise alarms)"""

    def __init__(self, n, a):
        self.n, self.a = n, a

    def append(self, x):
        return L(self.n + 1, z3.Store(self.a, self.n, x))

    def eq(self, o):
        # longer lists than those of the predicates: undecided
        return z3.And([self.n == o.n, z3.Or(self.n <= 12, z3.FreshBool())] + [z3.Or(self.n <= i, self.a[i] == o.a[i]) for i in range(12)])


def equal(a, v):
    """an argument is a constant"""
    if isinstance(a, L):
        return z3.And([a.n == len(v)] + [a.a[i] == x for i, x in enumerate(v)])
    return a == const(v)


def const(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, tuple):
        r = L(z3.IntVal(0), z3.K(z3.IntSort(), z3.IntVal(0)))
        for x in v:
            r = r.append(z3.IntVal(x))
        return r
    r = z3.EmptySet(z3.IntSort())
    for x in sorted(v):
        r = z3.SetAdd(r, z3.IntVal(x))
    return r


def mkite(c, a, b):
    if isinstance(a, L):
        return L(z3.If(c, a.n, b.n), z3.If(c, a.a, b.a))
    if isinstance(a, tuple):
        return tuple(mkite(c, x, y) for x, y in zip(a, b))
    return z3.If(c, a, b)


_atoms = {}


class Z:
    def __init__(self, preds):
        self.ors, self.side = {}, {}
        self.preds = preds       # name -> list of tuples

    def member(self, name, args):
        # None: the variable does not exist yet
        ps, sub = [], []
        for i, a in enumerate(args):
            if isinstance(a, L):
                ps.append(L(z3.Int(f"?{i}n"), z3.Const(f"?{i}a", ARR)))
                sub += [(ps[-1].n, a.n), (ps[-1].a, a.a)]
            else:
                ps.append(z3.Const(f"?{i}", a.sort()))
                sub.append((ps[-1], a))
        key = tuple(str(p.sort()) if not isinstance(p, L) else "list" for p in ps)
        if (name, key) not in self.ors:
            alts = []
            for t in dict.fromkeys(self.preds[name]):
                k = (key, t, tuple(map(type, t)))
                if k not in _atoms:
                    _atoms[k] = z3.And([equal(p, v) for p, v in zip(ps, t) if v is not None])
                alts.append(_atoms[k])
            self.ors[name, key] = z3.Or(alts)
        return z3.substitute(self.ors[name, key], *sub) if sub else self.ors[name, key]

    def list(self, n):
        self.side[n] = z3.Int(n + "#") >= 0
        return L(z3.Int(n + "#"), z3.Const(n + "@", ARR))

    def ev(self, e):
        c = type(e).__name__
        if c == "Var":
            n = e.args[0]
            t = e.type
            return z3.Int(n) if t == ir.Int else z3.Bool(n) if t == ir.Bool else self.list(n) if ir.get_origin(t) is ir.List else z3.Const(n, SETS)
        if c == "Lit":
            return const(e.args[0])
        if c == "Call":
            a = [self.ev(x) for x in e.arguments()]
            n = e.name()
            if n in self.preds:
                return self.member(n, a)
            return {"list_get": lambda: a[0].a[a[1]], "list_append": lambda: a[0].append(a[1]), "list_length": lambda: a[0].n,
                    "list_empty": lambda: const(()), "list_eq": lambda: a[0].eq(a[1]), "set-create": lambda: z3.EmptySet(z3.IntSort()),
                    "set-singleton": lambda: z3.SetAdd(z3.EmptySet(z3.IntSort()), a[0]), "set-union": lambda: z3.SetUnion(a[0], a[1]),
                    "set-member": lambda: z3.IsMember(a[0], a[1]), "set-minus": lambda: z3.SetDifference(a[0], a[1]), "set-insert": lambda: z3.SetAdd(a[1], a[0]),
                    "tupleGet": lambda: a[0][z3.simplify(a[1]).as_long()], "make-tuple": lambda: tuple(a), "uni": lambda: 2 * a[0] + a[1]}[n]()
        if c == "TupleExpr":
            return tuple(self.ev(x) for x in e.args)
        a = [self.ev(x) for x in e.args]
        return {"Add": lambda: z3.Sum(a), "Sub": lambda: a[0] - a[1], "Mul": lambda: z3.Product(a), "Div": lambda: a[0] / a[1], "Mod": lambda: a[0] % a[1], "Eq": lambda: a[0] == a[1],
                "Lt": lambda: a[0] < a[1], "Le": lambda: a[0] <= a[1], "Gt": lambda: a[0] > a[1], "Ge": lambda: a[0] >= a[1], "And": lambda: z3.And(a),
                "Or": lambda: z3.Or(a), "Not": lambda: z3.Not(a[0]), "Implies": lambda: z3.Implies(a[0], a[1]), "Ite": lambda: mkite(a[0], a[1], a[2])}[c]()


def valid(asserts, preds, declared):
    z = Z(preds)
    known = True
    for a in asserts:
        s = z3.Solver()
        s.set("timeout", 150)
        s.add(z3.Not(z.ev(a.src)))
        s.add(*z.side.values())
        r = s.check()
        if r == z3.sat:
            return False
        known = known and r == z3.unsat
    return True if known else None


def names(e, out):
    if isinstance(e, ir.Var):
        out.add(e.args[0])
    elif isinstance(e, ir.Expr):
        for a in e.args:
            names(a, out)


# ---- the front end on a module of many functions --------------------------------
def modules(R, count, first=0):
    """random functions, as one type-checked module"""
    r = R.rng
    progs = []
    text = ["from typing import List, Set", "def uni(a: int, b: int) -> int:", "    return 2 * a + b"]
    k = first
    while len(progs) < count:
        g = Gen(r)
        b = g.program()
        head = f"def f{k}({', '.join(f'{v}: {t}' for v, t in g.args)}) -> {g.ret}:"
        src = Src(len(text) + 2)
        src.block(b, 1)
        runs, good = [], True
        for vals in itertools.product(*[DOMS[t] for _, t in g.args]):
            run = Run(src.loop_line)
            try:
                run.block(b, dict(zip([v for v, _ in g.args], vals)))
                good = False
            except Ret as x:
                runs.append((vals, x.v, run.heads))
            except (OutOfFuel, KeyError, IndexError):
                good = False
            if not good:
                break
        if not good:
            continue
        text += [head] + src.lines
        progs.append((f"f{k}", g, b, runs, "\n".join([head] + src.lines)))
        k += 1
    return "\n".join(text) + "\n", progs


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


class Func:
    """fp.MetaliftFunc of one function of a module that is parsed once"""
    cache = {}

    @staticmethod
    def make(driver, path, name):
        real = fp.parse
        fp.parse = lambda p, m: Func.cache[p] if p in Func.cache else Func.cache.setdefault(p, real(p, m))
        try:
            return driver.analyze(path, name, lambda: [], lambda *a: ir.Bool(True), lambda *a: ir.Bool(True), ["uni"])
        finally:
            fp.parse = real


def analyse(path, name, g):
    d = fp.Driver()
    f = Func.make(d, path, name)
    args = [ir.create_object(IRT[t], v) for v, t in g.args]
    d.add_var_objects(args)
    d.add_precondition(ir.call("pre", ir.Bool, *args))
    rv = f(*args)
    return d, f, args, rv


def returns(s):
    return s[0] == "return" or s[0] == "if" and any(map(returns, s[2])) and any(map(returns, s[3]))


def dead_in_loop(b, loop=False):
    """mypy has no types for code that is never reached, loops are then refused"""
    return any(loop and returns(s) and s is not b[-1] or s[0] == "if" and (dead_in_loop(s[2], loop) or dead_in_loop(s[3], loop)) or
               s[0] == "while" and (dead_in_loop(s[2], True) or dead_in_loop(s[3], True)) for s in b)


def late(b, sc):
    """a loop that assigns a variable for the first time: its invariant does not know it, later ones do"""
    for s in b:
        if s[0] in ("=", "new"):
            sc.add(s[1])
        elif s[0] == "if":
            x, y = set(sc), set(sc)
            if late(s[2], x) or late(s[3], y):
                return True
            sc |= x & y
        elif s[0] == "while":
            x = set(sc)
            if late(s[2], x) or x != sc:
                return True
            if late(s[3], sc):
                return True
    return False


def one(R, path, prog):
    name, g, b, runs, src = prog
    if dead_in_loop(b):
        return
    kind = f"{'/'.join(sorted({k for k in ('while', 'if', 'append', 'add', 'remove', 'and', 'or', 'tup', 'uni', 'return', 'else', 'new', 'get', '//') if k in src}))}"
    R.case(kind, src)
    try:
        d, f, args, rv = quiet(analyse, path, name, g)
    except Exception as ex:
        if "only in one of the branches" in str(ex):
            return
        R.violation("frontend:refused", "a function of the supported subset is refused", src, "a verification condition", repr(ex))
        return
    preds = {"pre": [vals for vals, _, _ in runs], f"{name}_ps": [vals + (ret,) for vals, ret, _ in runs]}
    heads = {}
    for _, _, h in runs:
        for line, states in h.items():
            heads.setdefault(line, []).extend(states)
    invs = {}
    for node, p in d.inv_tracker.predicates.items():
        if type(node).__name__ == "WhileStmt":
            ns = [a.var_name() for a in p.args]
            invs[p.name] = [tuple(s.get(n) for n in ns) for s in heads.get(node.line, [])]
            invs[p.name] = list(dict.fromkeys(invs[p.name]))
    preds.update(invs)
    used = set()
    for a in d.asserts:
        names(a.src, used)
    known = {v.args[0] for v in d.var_tracker.all()}
    R.check(used <= known, "frontend:declared", "a variable of the verification condition is not declared", src, sorted(used), sorted(known))
    if not g.touch_args and not late(b, {v for v, _ in g.args}) and not ({"append", "add", "remove"} & {w for w in ("append", "add", "remove") if w in src}):
        try:
            v = valid(d.asserts, preds, known)
        except Exception as ex:
            R.violation("frontend:vc", "the verification condition cannot be read", src, "a formula", repr(ex))
            return
        R.check(v is not False, "frontend:complete", "the verification condition fails for the exact invariants and the exact postcondition", src, "valid", [str(a) for a in d.asserts])
    for n, ts in list(preds.items()):
        if n == "pre" or not ts:
            continue
        picks = R.rng.sample(ts, min(len(ts), 6 if R.thorough else 2))
        for t in picks:
            v = valid(d.asserts, {**preds, n: [u for u in ts if u != t]}, known)
            if v is True:
                R.violation(f"frontend:sound:{'ps' if n.endswith('_ps') else 'inv'}",
                            f"the verification condition holds although {n} excludes {t}, which an execution reaches", src, "not valid", [str(a) for a in d.asserts])
                break
    # assumed after the call
    post = d.postconditions[-1].src
    R.check(post.name() == f"{name}_ps" and [str(a) for a in post.arguments()] == [str(a.src) for a in args] + [str(rv.src)], "frontend:post",
            "the postcondition assumed for later calls", src, f"{name}_ps(arguments, result)", post)
    R.check([a.src.args[0] for a in args] == [v for v, _ in g.args], "frontend:args", "the arguments of the caller are changed", src, g.args, args)


FIXED = '''
from typing import List, Set
def g1(x: int) -> int:
    return x + 1
def g2(x: int) -> int:
    if x > 1:
        return 0
    return x * 2
def g3(n: int) -> int:
    i = 0
    while i < n:
        i = i + 1
    return i
'''


def calls(R, path):
    """results of analysed functions passed on to others"""
    for fs in (["g1", "g2"], ["g2", "g1"], ["g1", "g1"], ["g2", "g2"], ["g2", "g2", "g1"]):
        R.case(f"calls/{fs}")
        try:
            def go():
                d = fp.Driver()
                x = ir.Int("x")
                d.add_var_object(x)
                vals, objs = [-1, 0, 1, 2, 3], [x]
                for f in dict.fromkeys(fs):
                    pass
                made = {f: Func.make(d, path, f) for f in dict.fromkeys(fs)}
                for f in fs:
                    objs.append(made[f](objs[-1]))
                return d, objs
            d, objs = quiet(go)
        except Exception as ex:
            R.violation("frontend:calls:refused", "a sequence of calls is refused", fs, "a verification condition", repr(ex))
            continue
        names_ = [o.var_name() for o in objs]
        try:
            calls_check(R, fs, d, objs, names_)
        except Exception as ex:
            R.violation("frontend:calls:vc", "the verification condition of a sequence of calls cannot be read", fs, "a formula", repr(ex))
    state(R, path)


def calls_check(R, fs, d, objs, names_):
        sem = {"g1": lambda v: v + 1, "g2": lambda v: 0 if v > 1 else 2 * v}
        dom = range(-20, 21)
        exact = {f"{f}_ps": [(v, sem[f](v)) for v in dom] for f in sem}
        R.check(len(set(names_)) == len(names_), "frontend:calls:names", "two results share a variable", fs, "distinct", names_)
        # what is assumed about the results is satisfiable and determines them
        s = z3.Solver()
        z = Z(exact)
        for p in d.postconditions:
            s.add(z.ev(p.src))
        v, want = 3, [3]
        for f in fs:
            want.append(sem[f](want[-1]))
        s.add(z3.Int(names_[0]) == 3)
        ok = s.check() == z3.sat and s.model().eval(z3.Int(names_[-1])).as_long() == want[-1]
        R.check(ok, "frontend:calls:post", "the assumed postconditions do not give the results", fs, want, d.postconditions)
        # a wrong postcondition is rejected
        for f in set(fs):
            bad = {**exact, f"{f}_ps": [(a, b + 1) for a, b in exact[f"{f}_ps"]]}
            s = z3.Solver()
            z = Z(bad)
            s.add(z3.Not(z3.And([z.ev(a.src) for a in d.asserts])))
            R.check(s.check() == z3.sat, "frontend:calls:sound", "a wrong postcondition is accepted", (fs, f), "not valid", d.asserts)


def state(R, path):
    # two functions analysed by one driver do not see each other's variables
    R.case("calls/state")
    def two():
        d = fp.Driver()
        x = ir.Int("n")
        d.add_var_object(x)
        Func.make(d, path, "g3")(x)
        n = len(d.asserts)
        d2 = fp.Driver()
        y = ir.Int("x")
        d2.add_var_object(y)
        Func.make(d2, path, "g1")(y)
        return d, n, d2
    try:
        d, n, d2 = quiet(two)
        R.check(len(d2.asserts) == 1 and len(d.asserts) == n, "frontend:state", "state is shared between drivers", "g3 then g1 with another driver", 1, d2.asserts)
        used = set()
        for a in d2.asserts:
            names(a.src, used)
        R.check(used == {"x"}, "frontend:state", "assertions depend on another function", "g1", {"x"}, used)
    except Exception as ex:
        R.violation("frontend:state", "analysing two functions fails", "g3, g1", "a verification condition", repr(ex))


def run(R):
    with open("fixed.py", "w") as f:
        f.write(FIXED)
    calls(R, os.path.abspath("fixed.py"))
    for rnd in range(1 if not R.thorough else 6):
        text, progs = modules(R, 80 if not R.thorough else 400)
        path = os.path.abspath(f"mod{rnd}.py")
        with open(path, "w") as f:
            f.write(text)
        Func.cache.clear()
        for p in progs:
            if R.over():
                return
            try:
                one(R, path, p)
            except Exception as ex:
                R.violation("frontend:vc", "the verification condition cannot be read", p[4], "a formula over the declared predicates", repr(ex))
