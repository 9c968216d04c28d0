"""the verification condition of LLVM functions: random programs compiled the way
clang -O0 and the empty-block pass leave them, decided by z3 with the predicates
interpreted as finite sets of states of real executions"""
import itertools
import os
import subprocess
import env
import metalift.ir as ir
import metalift.frontend.llvm as fl
from replay import p11
from replay.p11 import DOMS, IRT, Run, Ret, OutOfFuel, pe, quiet, names, valid

LT = {"int": "i32", "List[int]": "%struct.list*", "Set[int]": "%struct.set*"}
VEC = '%"class.std::__1::vector"'
V = "_ZNSt3__16vectorIiNS_9allocatorIiEEE"
VF = {"ctor": V + "C1Ev", "push": V + "9push_backERKi", "size": "_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv", "get": V + "ixEm"}
DECLS = """%struct.list = type opaque
%struct.set = type opaque
%struct.tup = type opaque
%struct.tup.2 = type opaque
%"class.std::__1::vector" = type { i32 }
declare i32 @uni(i32, i32)
declare %struct.list* @newList()
declare %struct.list* @listAppend(%struct.list*, i32)
declare i32 @listGet(%struct.list*, i32)
declare i32 @listLength(%struct.list*)
declare %struct.set* @set_create()
declare %struct.set* @set_add(%struct.set*, i32)
declare %struct.set* @set_remove(%struct.set*, i32)
declare i32 @set_contains(%struct.set*, i32)
declare %struct.tup* @MakeTuple(i32, i32)
declare i32 @tupleGet(%struct.tup*, i32)
""" + f"""declare void @{VF['ctor']}({VEC}*)
declare void @{VF['push']}({VEC}*, i32*)
declare i64 @{VF['size']}({VEC}*)
declare i32* @{VF['get']}({VEC}*, i64)
"""


class Gen(p11.Gen):
    """programs of the C subset"""

    def __init__(self, r):
        super().__init__(r)
        self.vec = self.sret = False
        if r.random() < .35 and not any(t == "Set[int]" for _, t in self.args):
            self.vec = True
            self.sret = self.ret == "List[int]" or r.random() < .3
            if self.sret:
                self.ret = "List[int]"

    def iexpr(self, sc, d=2):
        e = super().iexpr(sc, d)
        if e[0] == "//":
            # of numbers that are not negative
            ls = [v for v, t in sc.items() if t == "List[int]"]
            x = ("len", self.r.choice(ls)) if ls else ("int", self.r.randrange(9))
            return self.r.choice([("//", x, ("int", 2)), ("%", x, ("int", 3)), ("%", ("int", 7), x if x[0] == "int" and x[1] else ("int", 4))])
        if e[0] == "tup":
            return ("tup", e[1] % 2, e[2][:2]) if not self.vec else e[2][0]
        sets = [v for v, t in sc.items() if t == "Set[int]"]
        if sets and d and self.r.random() < .2:
            return ("in", self.r.choice(sets), e)
        return e

    def cond(self, sc, d=2):
        r = self.r
        k = r.random()
        if d == 0 or k < .6:
            sets = [v for v, t in sc.items() if t == "Set[int]"]
            if sets and r.random() < .4:
                return ("cmp", [r.choice(["==", "!="])], [("in", r.choice(sets), self.iexpr(sc, 0)), ("int", r.choice([0, 1]))])
            return ("cmp", [r.choice(["<", "<=", ">", ">=", "==", "!="])], [self.iexpr(sc, 1) for _ in range(2)])
        return (r.choice(["and", "or"]), self.cond(sc, d - 1), self.cond(sc, d - 1))

    def stmt(self, sc, d, inloop):
        out = super().stmt(sc, d, inloop)
        return [self.fix(self.other(s, sc)) for s in out]

    def other(self, s, sc):
        """listAppend gives a new list: it may be stored elsewhere, or nowhere"""
        if s[0] == "append" and not self.vec and self.r.random() < .3:
            return ("appendto", self.r.choice([v for v, t in sc.items() if t == "List[int]"] + [None]), s[1], s[2])
        return s

    def retval(self, sc):
        return ("var", "m") if self.sret else super().retval(sc)

    def program(self):
        if not self.sret:
            return super().program()
        sc = {v: t for v, t in self.args}
        # a vector returned is the caller's: agg.result
        sc["m"] = "List[int]"
        b = self.block(sc, 2, self.r.choice([1, 2, 3, 4]))
        if self.r.random() < .6:
            b.insert(0, ("append", "m", self.iexpr({v: t for v, t in self.args}, 1)))
        b.insert(0, ("new", "m"))
        if b[-1][0] != "return":
            b.append(("return", self.retval(sc)))
        return b

    def fix(self, s):
        if s[0] == "while":
            c = s[1]
            while c[0] == "and":
                c = c[1]
            body = s[2]
            if self.r.random() < .15:
                # leaves the loop early
                body = body[:-1] + [("if", self.cond({"a": "int", **{v: "int" for v, t in self.args if t == "int"}} if False else self.safe(body, c), 0), [("break",)], [])] + body[-1:]
            return ("while", c, body, [], self.r.random() < .3)
        return s

    def safe(self, body, c):
        return {x[1]: "int" for x in c[2] if x[0] == "var"} or {v: "int" for v, t in self.args if t == "int"}


class LRun(Run):
    def ev(self, e, s):
        if e[0] == "%":
            return self.ev(e[1], s) % self.ev(e[2], s)
        if e[0] == "in":
            return int(self.ev(e[2], s) in s[e[1]])
        if e[0] == "cmp" and e[1] == ["!="]:
            return self.ev(e[2][0], s) != self.ev(e[2][1], s)
        return super().ev(e, s)

    def block(self, b, s):
        for st in b:
            if st[0] == "break":
                raise Break()
            if st[0] == "appendto":
                if st[1] is not None:
                    s[st[1]] = s[st[2]] + (self.ev(st[3], s),)
                else:
                    s[st[2]], self.ev(st[3], s)
                continue
            if st[0] == "if":
                self.block(st[2] if self.ev(st[1], s) else st[3], s)
            elif st[0] == "while":
                while True:
                    self.fuel -= 1
                    if self.fuel < 0:
                        raise OutOfFuel()
                    self.heads.setdefault(id(st), []).append(dict(s))
                    if not self.ev(st[1], s):
                        break
                    try:
                        self.block(st[2], s)
                    except Break:
                        break
            else:
                super().block([st], s)


class Break(Exception):
    pass


class Comp:
    """program -> blocks of LLVM instructions"""

    def __init__(self, name, g, b, r):
        self.g, self.r, self.fn = g, r, name
        self.n = 0
        self.blocks = {}
        self.headers = []           # (statement, header block)
        self.brk = []
        self.cur = None
        self.types = {}             # program variable -> program type
        self.single = r.random() < .4   # one return block
        for v, t in g.args:
            self.types[v] = t
        self.collect(b)
        self.begin("entry")
        for v, t in sorted(self.types.items()):
            if not (self.vec(t) and (v in dict(g.args) or g.sret and v == "m")):
                self.emit(f"%{self.slot(v)} = alloca {self.lt(t)}, align 4")
        if self.single and not g.sret:
            self.emit(f"%retval = alloca {self.lt(g.ret)}, align 4")
        for v, t in g.args:
            if not self.vec(t):
                self.emit(f"store {self.lt(t)} %{v}, {self.lt(t)}* %{self.slot(v)}, align 4")
        self.stmts(b)
        if self.single:
            self.begin("return")
            if g.sret:
                self.term(("ret", ""))
                return
            x = self.reg()
            self.emit(f"%{x} = load {self.lt(g.ret)}, {self.lt(g.ret)}* %retval, align 4")
            self.term(("ret", f"%{x}"))

    def vec(self, t):
        return self.g.vec and t == "List[int]"

    def lt(self, t):
        return VEC if self.vec(t) else LT[t]

    def slot(self, v):
        if self.g.sret and v == "m":
            return "agg.result"
        return v + ".addr" if v in dict(self.g.args) and not self.vec(self.types[v]) else v

    def collect(self, b):
        for s in b:
            if s[0] == "=":
                self.types.setdefault(s[1], "int")
            elif s[0] == "new":
                self.types.setdefault(s[1], "List[int]")
            elif s[0] == "if":
                self.collect(s[2])
                self.collect(s[3])
            elif s[0] == "while":
                self.collect(s[2])

    def reg(self):
        self.n += 1
        return f"t{self.n}"

    def lab(self, s):
        self.n += 1
        return f"{s}{self.n}"

    def emit(self, t):
        if self.cur is not None:
            self.blocks[self.cur][0].append(t)

    def begin(self, l):
        self.cur = l
        self.blocks[l] = ([], None)

    def term(self, t):
        if self.cur is not None:
            self.blocks[self.cur] = (self.blocks[self.cur][0], t)
        self.cur = None

    def load(self, v):
        x = self.reg()
        t = self.lt(self.types[v])
        self.emit(f"%{x} = load {t}, {t}* %{self.slot(v)}, align 4")
        return f"%{x}"

    def listop(self, v):
        return f"%{self.slot(v)}" if self.vec(self.types[v]) else self.load(v)

    def ev(self, e):
        k = e[0]
        if k == "var":
            return self.load(e[1])
        if k == "int":
            return str(e[1])
        x = "%" + self.reg()
        if k == "neg":
            self.emit(f"{x} = sub nsw i32 0, {self.ev(e[1])}")
        elif k in "+-*":
            a, b = self.ev(e[1]), self.ev(e[2])
            self.emit(f"{x} = {dict(zip('+-*', ['add', 'sub', 'mul']))[k]} nsw i32 {a}, {b}")
        elif k in ("//", "%"):
            a, b = self.ev(e[1]), self.ev(e[2])
            self.emit(f"{x} = {'sdiv' if k == '//' else 'srem'} i32 {a}, {b}")
        elif k == "len":
            if self.vec(self.types[e[1]]):
                y = "%" + self.reg()
                self.emit(f"{y} = call i64 @{VF['size']}({VEC}* %{self.slot(e[1])})")
                self.emit(f"{x} = trunc i64 {y} to i32")
            else:
                self.emit(f"{x} = call i32 @listLength(%struct.list* {self.load(e[1])})")
        elif k == "get":
            if self.vec(self.types[e[1]]):
                i, y, z = self.ev(e[2]), "%" + self.reg(), "%" + self.reg()
                self.emit(f"{y} = sext i32 {i} to i64")
                self.emit(f"{z} = call i32* @{VF['get']}({VEC}* %{self.slot(e[1])}, i64 {y})")
                self.emit(f"{x} = load i32, i32* {z}, align 4")
            else:
                l = self.load(e[1])
                self.emit(f"{x} = call i32 @listGet(%struct.list* {l}, i32 {self.ev(e[2])})")
        elif k == "in":
            l = self.load(e[1])
            self.emit(f"{x} = call i32 @set_contains(%struct.set* {l}, i32 {self.ev(e[2])})")
        elif k == "uni":
            a, b = self.ev(e[1]), self.ev(e[2])
            self.emit(f"{x} = call i32 @uni(i32 {a}, i32 {b})")
        elif k == "tup":
            a, b = self.ev(e[2][0]), self.ev(e[2][1])
            y = "%" + self.reg()
            self.emit(f"{y} = call %struct.tup* @MakeTuple(i32 {a}, i32 {b})")
            self.emit(f"{x} = call i32 @tupleGet(%struct.tup* {y}, i32 {e[1]})")
        else:
            raise ValueError(k)
        return x

    def cond(self, c, t, f):
        if self.cur is None:
            return
        if c[0] == "cmp" and len(c[1]) > 1:
            self.cond(("and", ("cmp", c[1][:1], c[2][:2]), ("cmp", c[1][1:], c[2][1:])), t, f)
        elif c[0] == "cmp":
            a, b = self.ev(c[2][0]), self.ev(c[2][1])
            x = "%" + self.reg()
            op = {"<": "slt", "<=": "sle", ">": "sgt", ">=": "sge", "==": "eq", "!=": "ne"}[c[1][0]]
            self.emit(f"{x} = icmp {op} i32 {a}, {b}")
            self.term(("cbr", x, t, f))
        elif c[0] == "and":
            m = self.lab("land")
            self.cond(c[1], m, f)
            self.begin(m)
            self.cond(c[2], t, f)
        else:
            m = self.lab("lor")
            self.cond(c[1], t, m)
            self.begin(m)
            self.cond(c[2], t, f)

    def stmts(self, b):
        for s in b:
            k = s[0]
            if self.cur is None:
                return
            if k == "=":
                x = self.ev(s[2])
                self.emit(f"store i32 {x}, i32* %{self.slot(s[1])}, align 4")
            elif k == "new":
                if self.g.vec:
                    self.emit(f"call void @{VF['ctor']}({VEC}* %{self.slot(s[1])})")
                else:
                    x = "%" + self.reg()
                    self.emit(f"{x} = call %struct.list* @newList()")
                    self.emit(f"store %struct.list* {x}, %struct.list** %{self.slot(s[1])}, align 8")
            elif k == "append" and self.g.vec:
                x, y = self.ev(s[2]), "%" + self.reg()
                self.blocks["entry"][0].insert(0, f"{y} = alloca i32, align 4")
                self.emit(f"store i32 {x}, i32* {y}, align 4")
                self.emit(f"call void @{VF['push']}({VEC}* %{self.slot(s[1])}, i32* {y})")
            elif k in ("append", "add", "remove"):
                fn, t = {"append": ("listAppend", "%struct.list*"), "add": ("set_add", "%struct.set*"), "remove": ("set_remove", "%struct.set*")}[k]
                l = self.load(s[1])
                e = self.ev(s[2])
                x = "%" + self.reg()
                self.emit(f"{x} = call {t} @{fn}({t} {l}, i32 {e})")
                if len(s) == 3:
                    self.emit(f"store {t} {x}, {t}* %{self.slot(s[1])}, align 8")
            elif k == "appendto":
                l = self.load(s[2])
                e, x = self.ev(s[3]), "%" + self.reg()
                self.emit(f"{x} = call %struct.list* @listAppend(%struct.list* {l}, i32 {e})")
                if s[1] is not None:
                    self.emit(f"store %struct.list* {x}, %struct.list** %{self.slot(s[1])}, align 8")
            elif k == "return" and self.g.sret:
                self.term(("br", "return") if self.single else ("ret", ""))
            elif k == "return":
                e = self.ev(s[1])
                if self.single:
                    self.emit(f"store {self.lt(self.g.ret)} {e}, {self.lt(self.g.ret)}* %retval, align 4")
                    self.term(("br", "return"))
                else:
                    self.term(("ret", e))
            elif k == "break":
                self.term(("br", self.brk[-1]))
            elif k == "if":
                t, f, e = self.lab("if.then"), self.lab("if.else"), self.lab("if.end")
                self.cond(s[1], t, f if s[3] else e)
                live = not s[3]
                self.begin(t)
                self.stmts(s[2])
                live = live or self.cur is not None
                self.term(("br", e))
                if s[3]:
                    self.begin(f)
                    self.stmts(s[3])
                    live = live or self.cur is not None
                    self.term(("br", e))
                if not live:
                    return
                self.begin(e)
            elif k == "while":
                h, bd, e = self.lab("while.cond"), self.lab("while.body"), self.lab("while.end")
                self.term(("br", h))
                self.begin(h)
                self.headers.append((s, h))
                self.cond(s[1], bd, e)
                self.begin(bd)
                self.brk.append(e)
                if s[4]:
                    # for loop: the step has a block of its own
                    inc = self.lab("for.inc")
                    self.stmts(s[2][:-1])
                    self.term(("br", inc))
                    self.begin(inc)
                    self.stmts(s[2][-1:])
                else:
                    self.stmts(s[2])
                self.brk.pop()
                self.term(("br", h))
                self.begin(e)

    def finish(self):
        """unreachable blocks removed, then the empty-block pass"""
        seen, todo = set(), ["entry"]
        while todo:
            l = todo.pop()
            if l not in seen:
                seen.add(l)
                todo += self.succ(l)
        self.blocks = {l: x for l, x in self.blocks.items() if l in seen}
        if self.r.random() < .6:
            # a block that only passes control on is left out
            for l in list(self.blocks)[1:]:
                ins, t = self.blocks[l]
                if not ins and t[0] == "br" and t[1] != l:
                    del self.blocks[l]
                    for k, (i, u) in self.blocks.items():
                        self.blocks[k] = (i, tuple([u[0]] + [t[1] if x == l else x for x in u[1:]]))
                    self.headers = [(a, t[1] if h == l else h) for a, h in self.headers]
        for l, (ins, t) in list(self.blocks.items()):
            if t[0] == "cbr":
                a, b = self.lab("e"), self.lab("e")
                self.blocks[a], self.blocks[b] = ([], ("br", t[2])), ([], ("br", t[3]))
                self.blocks[l] = (ins, ("cbr", t[1], a, b))
        order = list(self.blocks)
        if self.r.random() < .3:
            rest = order[1:]
            self.r.shuffle(rest)
            order = order[:1] + rest
        ret = "void" if self.g.sret else self.lt(self.g.ret)
        out = [f"define {ret} @{self.fn}(" + ", ".join(([f"{VEC}* noalias sret %agg.result"] if self.g.sret else []) + [(f"{VEC}* %{v}" if self.vec(t) else f"{self.lt(t)} %{v}") for v, t in self.g.args]) + ") {"]
        for l in order:
            ins, t = self.blocks[l]
            out.append(f"{l}:")
            out += ["  " + i for i in ins]
            out.append("  " + {"br": lambda: f"br label %{t[1]}", "cbr": lambda: f"br i1 {t[1]}, label %{t[2]}, label %{t[3]}",
                               "ret": lambda: f"ret {ret} {t[1]}"}[t[0]]())
        out.append("}")
        return "\n".join(out)

    def succ(self, l):
        t = self.blocks[l][1]
        return {"br": lambda: [t[1]], "cbr": lambda: [t[2], t[3]], "ret": lambda: []}[t[0]]()

    def loops(self):
        """(header, statement, line of opt -analyze -loops), outer loops first"""
        preds = {l: [p for p in self.blocks if l in self.succ(p)] for l in self.blocks}
        res = []
        for s, h in self.headers:
            if h not in self.blocks:
                continue
            # the latches come from inside: blocks the header reaches
            reach, todo = set(), [h]
            while todo:
                l = todo.pop()
                if l not in reach:
                    reach.add(l)
                    todo += self.succ(l)
            latches = [p for p in preds[h] if p in reach and self.inside(p, h)]
            if not latches:
                continue
            body, todo = {h}, list(latches)
            while todo:
                l = todo.pop()
                if l not in body:
                    body.add(l)
                    todo += preds[l]
            parts = []
            for l in [h] + [x for x in self.blocks if x in body and x != h]:
                parts.append(f"%{l}" + ("<header>" if l == h else "") + ("<latch>" if l in latches else "") +
                             ("<exiting>" if any(x not in body for x in self.succ(l)) else ""))
            res.append((len(body), s, h, ",".join(parts)))
        if self.r.random() < .5:
            res.reverse()
        res.sort(key=lambda x: -x[0])
        return res

    def inside(self, p, h):
        """h dominates p"""
        seen, todo = set(), ["entry"]
        while todo:
            l = todo.pop()
            if l not in seen and l != h:
                seen.add(l)
                todo += self.succ(l)
        return p not in seen


_cache = {}
_run = subprocess.run


def cached_run(cmd, *a, **k):
    if cmd[0] == "c++filt":
        key = tuple(cmd)
        if key not in _cache:
            _cache[key] = _run(cmd, *a, **k)
        return _cache[key]
    return _run(cmd, *a, **k)


def irtype(g, t):
    return IRT[t]


def analyse(path, name, g, scopes):
    d = fl.Driver()
    f = d.analyze(path, path + ".loops", name, lambda: [], {f"{name}_inv{i}": fl.InvGrammar(None, sc) for i, sc in enumerate(scopes)}, lambda *a, **k: ir.Bool(True))
    args = [ir.create_object(IRT[t], v) for v, t in g.args]
    d.add_var_objects(args)
    d.add_precondition(ir.call("pre", ir.Bool, *args))
    f(*args, uninterp_fns=["uni"])
    return d, f, args


def executions(g, b):
    runs = []
    for vals in itertools.product(*[DOMS[t] for _, t in g.args]):
        run = LRun({})
        try:
            run.block(b, dict(zip([v for v, _ in g.args], vals)))
            return None
        except Ret as x:
            runs.append((vals, x.v, run.heads))
        except (OutOfFuel, KeyError, IndexError, Break):
            return None
    return runs


def has_break(b):
    return any(s[0] == "break" or s[0] == "if" and (has_break(s[2]) or has_break(s[3])) or s[0] == "while" and has_break(s[2]) for s in b)


def one(R, k):
    r = R.rng
    g = Gen(r)
    b = g.program()
    runs = executions(g, b)
    if not runs:
        return
    name = f"f{k}"
    c = Comp(name, g, b, r)
    try:
        text = c.finish()
    except KeyError:
        return
    loops = c.loops()
    check(R, name, g, b, runs, c, text, loops)


def check(R, name, g, b, runs, c, text, loops):
    path = os.path.abspath(f"{name}.ll")
    with open(path, "w") as f:
        f.write(DECLS + text + "\n")
    with open(path + ".loops", "w") as f:
        f.write(f"Printing analysis 'Natural Loop Information' for function '{name}':\n" + "".join(f"Loop at depth 1 containing: {l[3]}\n" for l in loops))
    src = text + "\n" + "\n".join(l[3] for l in loops)
    kinds = {"while", "add", "remove", "contains", "sdiv", "srem", "listAppend", "push_back", "MakeTuple", "uni", "size", "listGet"}
    R.case("/".join(sorted(k for k in kinds if k in text)), src)
    slots = [c.slot(v) for v in c.types]
    try:
        d, f, args = quiet(analyse, path, name, g, [slots] * len(loops))
    except Exception as ex:
        R.violation("llvm:refused", "a function of the supported subset is refused", src, "a verification condition", repr(ex))
        return
    finally:
        os.unlink(path)
        os.unlink(path + ".loops")
    # the state of a predicate's argument: the slot of a variable, or an argument as given
    def at(state, vals, n):
        for v in c.types:
            if c.slot(v) == n and (n not in dict(g.args) or c.vec(c.types[v])):
                return state.get(v)
        return vals[[v for v, _ in g.args].index(n)] if n in dict(g.args) else None
    order = sorted(range(len(g.args)), key=lambda i: g.args[i][0])
    preds = {"pre": [vals for vals, _, _ in runs], f"{name}_ps": [tuple(vals[i] for i in order) + (ret,) for vals, ret, _ in runs]}
    for i, (_, s, h, _) in enumerate(loops):
        n = f"{name}_inv{i}"
        p = d.pred_tracker.predicates.get(n)
        if p is None:
            R.violation("llvm:invariant", "a loop has no invariant", src, n, sorted(d.pred_tracker.predicates))
            return
        ns = [a.var_name() for a in p.args]
        preds[n] = list(dict.fromkeys(tuple(at(st, vals, x) for x in ns) for vals, _, heads in runs for st in heads.get(id(s), [])))
    used = set()
    for a in d.asserts:
        names(a.src, used)
    known = {v.args[0] for v in d.var_tracker.all()}
    R.check(used <= known, "llvm:declared", "a variable of the verification condition is not declared", src, sorted(used), sorted(known))
    try:
        v = valid(d.asserts, preds, known)
    except Exception as ex:
        R.violation("llvm:vc", "the verification condition cannot be read", src, "a formula", repr(ex))
        return
    # of a vector argument that grows in a loop, the invariant has the current value only
    if not (loops and any(c.vec(t) and ("push_back" in i and f"* %{v}," in i) for v, t in g.args for i in text.split("\n"))):
        R.check(v is not False, "llvm:complete", "the verification condition fails for the exact invariants and the exact postcondition", src, "valid", [str(a) for a in d.asserts])
    for n, ts in list(preds.items()):
        if n == "pre" or not ts:
            continue
        picks = R.rng.sample(ts, min(len(ts), 6 if R.thorough else 2))
        for t in picks:
            v = valid(d.asserts, {**preds, n: [u for u in ts if u != t]}, known)
            if v is True:
                R.violation(f"llvm:sound:{'ps' if n.endswith('_ps') else 'inv'}",
                            f"the verification condition holds although {n} excludes {t}, which an execution reaches", src, "not valid", [str(a) for a in d.asserts])
                break
    if d.pred_tracker.predicates.get(name) is not None:
        p = d.pred_tracker.predicates[name]
        R.check([a.var_name() for a in p.args[:-1]] == [g.args[i][0] for i in order], "llvm:post", "the parameters of the postcondition", src, g.args, p.args)
    R.check([(a.src.args[0], a.type) for a in args] == [(v, irtype(g, t)) for v, t in g.args], "llvm:args", "the arguments of the caller are changed", src, g.args, args)


_parse = fl.llvm.parse_assembly
_keep = []


def parse(text):
    c = fl.llvm.create_context()
    m = _parse(text, c)
    _keep.append((c, m))
    return m


def run(R):
    fl.subprocess.run = cached_run
    # a context of its own per module: type names stay as written
    fl.llvm.parse_assembly = parse
    try:
        for k in range(300 if not R.thorough else 4000):
            if R.over():
                return
            one(R, k)
    finally:
        fl.subprocess.run = _run
        fl.llvm.parse_assembly = _parse
