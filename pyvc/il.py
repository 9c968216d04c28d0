"""IL programs: readers (SMT-LIB, Racket, metalift IR), verification conditions
against contracts, and an interpreter"""
import itertools
import random
import time
import z3
from .core import Unsupported
from .lists import *


class Fun:
    def __init__(self, name, params, ret, body, rest=None):
        self.name, self.params, self.ret, self.body, self.rest = name, params, ret, body, rest


class Program:
    def __init__(self, lang):
        self.lang = lang
        self.funs, self.decls, self.asserts = {}, {}, []


# ------------------------------------------------------------------- reading
def sexprs(text, racket=False):
    toks, i, n = [], 0, len(text)
    while i < n:
        ch = text[i]
        if ch == ";":
            while i < n and text[i] != "\n":
                i += 1
        elif ch in "()[]":
            toks.append(")" if ch == "]" else "(" if ch == "[" else ch)
            i += 1
        elif ch.isspace():
            i += 1
        elif ch == "'":
            toks.append("'")
            i += 1
        elif ch == '"':
            j = text.index('"', i + 1)
            toks.append(text[i:j + 1])
            i = j + 1
        else:
            j = i
            while j < n and not text[j].isspace() and text[j] not in "()[];":
                j += 1
            toks.append(text[i:j])
            i = j
    out = [[]]
    for t in toks:
        if t == "(":
            out.append([])
        elif t == ")":
            if len(out) == 1:
                raise Unsupported("unbalanced parentheses")
            x = out.pop()
            out[-1].append(x)
        else:
            out[-1].append(t)
    if len(out) != 1:
        raise Unsupported("unbalanced parentheses")
    return out[0]


def numeral(t):
    return isinstance(t, str) and t.lstrip("-").isdigit() and t != "-"


SMT_PRIM = {"and", "or", "not", "=>", "=", "distinct", "<", "<=", ">", ">=", "+", "-", "*", "div", "mod", "abs"}


def read_smt(text, ctors=None):
    """the commands of an SMT-LIB file; ctors collects tuple constructors"""
    p = Program("smt")
    aliases = {}

    def sort(s):
        if isinstance(s, str):
            if s in aliases:
                return aliases[s]
            if s in SORTS:
                return SORTS[s]
        elif len(s) == 2 and s[0] == "MLList":
            return LIST(sort(s[1]))
        raise Unsupported(f"sort {s}")

    def ex(e, bound):
        if isinstance(e, str):
            if e in bound:
                return ("var", e)
            if numeral(e):
                return ("const", int(e))
            if e in ("true", "false"):
                return ("const", e == "true")
            if e == "nil":
                return ("nil", None)
            return ("call", e, [])
        h = e[0]
        g = lambda x: ex(x, bound)
        if isinstance(h, list):
            if h[:2] == ["_", "is"]:
                return ("prim", "iscons" if h[2] == "cons" else "isnil", [g(e[1])])
            raise Unsupported(f"head {h}")
        if h in bound:
            raise Unsupported(f"application of {h}")
        if h == "as":
            if e[1] == "nil":
                return ("nil", sort(e[2]))
            return g(e[1])
        if h == "ite":
            return ("ite", g(e[1]), g(e[2]), g(e[3]))
        if h == "let":
            bs = [(n, g(x)) for n, x in e[1]]
            return ("let", bs, ex(e[2], bound | {n for n, _ in bs}))
        if h in ("forall", "exists"):
            vs = [(n, sort(s)) for n, s in e[1]]
            return (h, vs, ex(e[2], bound | {n for n, _ in vs}))
        if h == "!":
            return g(e[1])
        if h in ("head", "tail", "cons"):
            return ("prim", {"head": "hd", "tail": "tl", "cons": "cons"}[h], [g(x) for x in e[1:]])
        if h in ("is-cons", "is-nil"):
            return ("prim", h.replace("-", ""), [g(e[1])])
        if h in SMT_PRIM:
            if h == "-" and len(e) == 2 and numeral(e[1]):
                return ("const", -int(e[1]))
            return ("prim", h, [g(x) for x in e[1:]])
        return ("call", h, [g(x) for x in e[1:]])

    for c in sexprs(text):
        if c[0] == "define-sort":
            aliases[c[1]] = sort(c[3])
        elif c[0] == "declare-datatypes":
            pass
        elif c[0] in ("define-fun", "define-fun-rec"):
            ps = [(n, sort(s)) for n, s in c[2]]
            p.funs[c[1]] = Fun(c[1], ps, sort(c[3]), ex(c[4], {n for n, _ in ps}))
        elif c[0] == "declare-fun":
            p.decls[c[1]] = Fun(c[1], [(f"a{i}", sort(s)) for i, s in enumerate(c[2])], sort(c[3]), None)
        elif c[0] == "assert":
            p.asserts.append(ex(c[1], set()))
        elif c[0] in ("set-logic", "set-option", "set-info"):
            pass
        else:
            raise Unsupported(f"command {c[0]}")
    return p


RKT_PRIM = {"&&": "and", "||": "or", "!": "not", "not": "not", "=": "=", "equal?": "=", "<": "<", "<=": "<=", ">": ">", ">=": ">=", "+": "+", "-": "-", "*": "*",
            "quotient": "quotient", "remainder": "remainder", "and": "and", "or": "or", "=>": "=>", "null?": "isnil", "empty?": "isnil", "add1": None, "sub1": None}


def read_racket(text):
    p = Program("racket")
    text = "\n".join(l for l in text.split("\n") if not l.startswith("#lang"))

    def ex(e, bound):
        if isinstance(e, str):
            if e in bound:
                return ("var", e)
            if numeral(e):
                return ("const", int(e))
            if e in ("#t", "#f", "true", "false"):
                return ("const", e in ("#t", "true"))
            if e in ("null", "empty"):
                return ("nil", None)
            raise Unsupported(f"name {e}")
        h = e[0]
        g = lambda x: ex(x, bound)
        if isinstance(h, list):
            raise Unsupported(f"head {h}")
        if h in bound:
            raise Unsupported(f"application of {h}")
        if h == "if":
            return ("ite", g(e[1]), g(e[2]), g(e[3]))
        if h == "cond":
            out = ("fail",)
            for cl in reversed(e[1:]):
                out = g(cl[1]) if cl[0] == "else" else ("ite", g(cl[0]), g(cl[1]), out)
            return out
        if h in ("let", "let*"):
            if h == "let*":
                if not e[1]:
                    return g(e[2])
                return ex(["let", e[1][:1], ["let*", e[1][1:], e[2]]], bound)
            bs = [(n, g(x)) for n, x in e[1]]
            return ("let", bs, ex(e[2], bound | {n for n, _ in bs}))
        if h == "list":
            out = ("nil", None)
            for x in reversed(e[1:]):
                out = ("prim", "cons", [g(x), out])
            return out
        if h in ("add1", "sub1"):
            return ("prim", "+" if h == "add1" else "-", [g(e[1]), ("const", 1)])
        if h == "match*":
            return match(e[1], e[2:], bound)
        if h == "match":
            return match([e[1]], [[[c[0]]] + c[1:] for c in e[2:]], bound)
        if h in ("ormap", "andmap", "map") and isinstance(e[1], list) and e[1][0] == "lambda" and len(e[1][1]) == 1:
            v = e[1][1][0]
            return (h, v, ex(e[1][2], bound | {v}), g(e[2]))
        if h in RKT_PRIM:
            return ("prim", RKT_PRIM[h], [g(x) for x in e[1:]])
        if h in ("cons", "car", "cdr", "first", "rest"):
            return ("prim", {"cons": "cons", "car": "hd", "cdr": "tl", "first": "hd", "rest": "tl"}[h], [g(x) for x in e[1:]])
        return ("call", h, [g(x) for x in e[1:]])

    def match(subjects, clauses, bound):
        names = []
        lets = []
        for k, s in enumerate(subjects):
            if isinstance(s, str) and s in bound:
                names.append(("var", s))
            else:
                n = f"%m{len(bound)}_{k}"
                lets.append((n, ex(s, bound)))
                names.append(("var", n))
                bound = bound | {n}
        out = ("fail",)
        for cl in reversed(clauses):
            if len(cl) != 2:
                raise Unsupported("match clause")
            conds, bs = [], []
            for pat, subj in zip(cl[0], names):
                pattern(pat, subj, conds, bs)
            body = ex(cl[1], bound | {n for n, _ in bs})
            if bs:
                body = ("let", bs, body)
            c = None
            for x in reversed(conds):
                c = x if c is None else ("prim", "and", [x, c])
            out = body if c is None else ("ite", c, body, out)
        return ("let", lets, out) if lets else out

    def pattern(pat, subj, conds, bs):
        if isinstance(pat, str):
            if pat == "_":
                return
            if numeral(pat):
                conds.append(("prim", "=", [subj, ("const", int(pat))]))
            else:
                bs.append((pat, subj))
            return
        if pat[0] == "list":
            if len(pat) == 1:
                conds.append(("prim", "isnil", [subj]))
                return
            if len(pat) >= 3 and pat[2] == "..." and len(pat) == 3 and isinstance(pat[1], str):
                bs.append((pat[1], subj))
                return
            conds.append(("prim", "iscons", [subj]))
            pattern(pat[1], ("prim", "hd", [subj]), conds, bs)
            pattern(["list"] + pat[2:], ("prim", "tl", [subj]), conds, bs)
            return
        if pat[0] in ("cons", "list-rest", "list*") and len(pat) == 3:
            conds.append(("prim", "iscons", [subj]))
            pattern(pat[1], ("prim", "hd", [subj]), conds, bs)
            pattern(pat[2], ("prim", "tl", [subj]), conds, bs)
            return
        raise Unsupported(f"pattern {pat}")

    for c in sexprs(text, True):
        if not isinstance(c, list) or c[0] in ("require", "provide", "define-syntax-rule"):
            continue
        if c[0] in ("define", "define-bounded"):
            if isinstance(c[1], str):
                continue
            ps = c[1][1:]
            rest = None
            if "." in ps:
                rest = ps[ps.index(".") + 1]
                ps = ps[:ps.index(".")]
            if len(c) != 3:
                raise Unsupported(f"body of {c[1][0]}")
            try:
                body = ex(c[2], set(ps) | ({rest} if rest else set()))
            except Unsupported as u:
                body = ("unsupported", str(u))
            p.funs[c[1][0]] = Fun(c[1][0], [(n, None) for n in ps], None, body, rest)
        else:
            raise Unsupported(f"form {c[0]}")
    return p


# -------------------------------------------------------------------- meaning
class Undef(Exception):
    """the value is not specified"""


class Diverges(Exception):
    pass


def quo(a, b):
    return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)


def edivmod(a, b):
    q = a // b if b > 0 else -(a // -b)
    return q, a - b * q


class Runner:
    """runs IL programs; lists are tuples"""

    def __init__(self, prog, builtins, strict=False, fuel=4000, hof=None):
        self.p, self.b, self.strict, self.fuel = prog, builtins, strict, fuel
        self.hof = hof or {}
        self.depth = 0

    def call(self, name, args):
        f = self.p.funs.get(name)
        if f is None:
            if name in self.b:
                return self.b[name](*args)
            raise Unsupported(f"function {name}")
        if f.rest is not None:
            k = len(f.params)
            env = dict(zip([n for n, _ in f.params], args[:k]))
            env[f.rest] = tuple(args[k:])
        else:
            if len(args) != len(f.params):
                raise TypeError(f"{name} takes {len(f.params)} arguments")
            env = dict(zip([n for n, _ in f.params], args))
        self.depth += 1
        self.steps += 1
        if self.depth > 200 or self.steps > self.fuel:
            raise Diverges(name)
        try:
            return self.ev(f.body, env)
        finally:
            self.depth -= 1

    def start(self, name, args):
        self.depth = self.steps = 0
        return self.call(name, args)

    def truth(self, e, env):
        v = self.ev(e, env)
        if self.p.lang == "racket":
            return v is not False
        if not isinstance(v, bool):
            raise TypeError(f"condition {v!r}")
        return v

    def ev(self, e, env):
        k = e[0]
        if k == "var":
            return env[e[1]]
        if k == "const":
            return e[1]
        if k == "nil":
            return ()
        if k == "ite":
            return self.ev(e[2] if self.truth(e[1], env) else e[3], env)
        if k == "let":
            new = dict(env)
            for n, x in e[1]:
                new[n] = self.ev(x, env)
            return self.ev(e[2], new)
        if k == "call":
            return self.call(e[1], [self.ev(x, env) for x in e[2]])
        if k == "hcall":
            return self.hof[e[1]](*[self.ev(x, env) for x in e[2]])
        if k in ("ormap", "andmap", "map"):
            l = self.ev(e[3], env)
            vs = [self.ev(e[2], {**env, e[1]: x}) for x in l]
            return tuple(vs) if k == "map" else any(v is not False for v in vs) if k == "ormap" else all(v is not False for v in vs)
        if k == "fail":
            raise ValueError("no matching clause")
        if k == "unsupported":
            raise Unsupported(e[1])
        if k == "prim":
            return self.prim(e[1], e[2], env)
        raise Unsupported(k)

    def prim(self, op, args, env):
        if op in ("and", "or", "=>"):
            return self.bools(op, args, env)
        xs = [self.ev(x, env) for x in args]
        if op in ("+", "*", "-", "<", "<=", ">", ">=", "div", "mod", "quotient", "remainder") and not all(isinstance(x, int) and not isinstance(x, bool) for x in xs):
            raise TypeError(f"{op} of {xs}")
        if op == "not":
            if not isinstance(xs[0], bool):
                raise TypeError(f"not {xs}")
            return not xs[0]
        if op == "=":
            if any(type(a) is not type(b) for a, b in zip(xs, xs[1:])):
                if self.p.lang == "smt":
                    raise TypeError(f"= of {xs}")
                return False
            return all(a == b for a, b in zip(xs, xs[1:]))
        if op == "distinct":
            return all(a != b for a, b in itertools.combinations(xs, 2))
        if op in ("<", "<=", ">", ">="):
            f = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}[op]
            return all(f(a, b) for a, b in zip(xs, xs[1:]))
        if op == "+":
            return sum(xs)
        if op == "*":
            r = 1
            for x in xs:
                r *= x
            return r
        if op == "-":
            return -xs[0] if len(xs) == 1 else xs[0] - sum(xs[1:])
        if op in ("div", "mod", "quotient", "remainder"):
            if xs[1] == 0:
                if self.p.lang == "racket":
                    raise ZeroDivisionError()
                raise Undef("division by zero")
            if op in ("div", "mod"):
                return edivmod(*xs)[op == "mod"]
            return quo(*xs) if op == "quotient" else xs[0] - xs[1] * quo(*xs)
        if op == "abs":
            return abs(xs[0])
        if op == "cons":
            if not isinstance(xs[1], tuple):
                raise TypeError(f"cons onto {xs[1]!r}")
            return (xs[0],) + xs[1]
        if op in ("hd", "tl"):
            if not isinstance(xs[0], tuple):
                raise TypeError(f"{op} of {xs[0]!r}")
            if not xs[0]:
                raise Undef(op) if self.p.lang == "smt" else ValueError(op)
            return xs[0][0] if op == "hd" else xs[0][1:]
        if op in ("isnil", "iscons"):
            return (xs[0] == ()) == (op == "isnil")
        raise Unsupported(f"operator {op}")

    def bools(self, op, args, env):
        """three-valued for SMT: an unspecified operand matters only when the
        others do not decide"""
        n = len(args)
        undef = None
        for i, x in enumerate(args):
            try:
                v = self.truth(x, env)
            except Undef as u:
                if self.p.lang != "smt":
                    raise
                undef = u
                continue
            if op == "and" and not v:
                return False
            if op == "or" and v:
                return True
            if op == "=>":
                if i < n - 1 and not v or i == n - 1 and v:
                    return True
        if undef is not None:
            raise undef
        return op == "and"


# ------------------------------------------------------------------- contracts
class Con:
    """pre(*args) -> list of formulas; ref(*args) -> term | post(r, *args) -> formulas;
    measure(*args) -> integer term or tuple (lexicographic); py(*args): the value
    as Python computes it, Undef outside the precondition"""

    def __init__(self, sorts, pre=None, ref=None, post=None, measure=None, py=None, ret=None, induct=True, extra=None, generic=False):
        self.sorts, self.pre_, self.ref, self.post_, self.measure, self.py, self.ret, self.induct = sorts, pre, ref, post, measure, py, ret, induct
        self.extra = extra

    def pre(self, *a):
        return list(self.pre_(*a)) if self.pre_ else []

    def post(self, r, *a):
        out = []
        if self.ref:
            out.append(r == self.ref(*a))
        if self.post_:
            out += list(self.post_(r, *a))
        return out


def conj(l):
    return z3.And(*l) if l else z3.BoolVal(True)


class Gen:
    """verification conditions of one function body or formula"""

    def __init__(self, prog, contracts, builtins, self_name=None, self_con=None, self_args=None, total=False, hof=None):
        self.p, self.cons, self.bi = prog, contracts, builtins
        self.name, self.con, self.args = self_name, self_con, self_args
        self.obls, self.assume, self.axioms = [], [], []
        self.used = set()
        self.total = total     # preconditions of callees are not obligations
        self.inlining = []
        self.hof = hof or {}
        self.rec = 0
        self.measure_only = False

    def t(self, e, env, path, want=None):
        k = e[0]
        if k == "var":
            return env[e[1]]
        if k == "const":
            return z3.BoolVal(e[1]) if isinstance(e[1], bool) else z3.IntVal(e[1])
        if k == "nil":
            s = e[1] if e[1] is not None else want
            if s is None:
                raise NeedSort()
            if not is_list(s):
                raise Unsupported("a list where none can be")
            return nil(s)
        if k == "ite":
            c = self.t(e[1], env, path, BOOL)
            if not z3.is_bool(c):
                raise Unsupported("condition is not boolean")
            a, b = self.both(lambda w: self.t(e[2], env, path + [c], w), lambda w: self.t(e[3], env, path + [z3.Not(c)], w), want)
            if a is None or b is None:
                return a if b is None else b
            if a.sort() != b.sort():
                raise Unsupported(f"branches of sorts {a.sort()} and {b.sort()}")
            return z3.If(c, a, b)
        if k == "let":
            new = dict(env)
            for n, x in e[1]:
                new[n] = self.t(x, env, path)
            return self.t(e[2], new, path, want)
        if k == "fail":
            self.obls.append(("a clause matches", path, z3.BoolVal(False)))
            return None
        if k == "prim":
            return self.prim(e[1], e[2], env, path, want)
        if k == "call":
            return self.callf(e[1], e[2], env, path, want)
        if k == "hcall":
            f = self.hof[e[1]]
            return f(*[self.t(x, env, path, INT) for x in e[2]])
        if k in ("ormap", "andmap", "map"):
            l = self.t(e[3], env, path)
            s = l.sort()
            h, tt = z3.FreshConst(elem(s), "h"), z3.FreshConst(s, "t")
            b = self.t(e[2], {**env, e[1]: h}, path)
            fv = [v for v in env.values() if v is not None and not v.eq(l) and z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED]
            r = LIST(b.sort()) if k == "map" else BOOL
            f = z3.Function(f"{k}!{len(self.axioms)}", s, *[v.sort() for v in fv], r)
            if k == "map":
                n0, step = nil(r), cons(b, f(tt, *fv))
            else:
                n0, step = (z3.BoolVal(False), z3.Or(b, f(tt, *fv))) if k == "ormap" else (z3.BoolVal(True), z3.And(b, f(tt, *fv)))
            self.axioms.append(z3.ForAll(fv, f(nil(s), *fv) == n0, patterns=[f(nil(s), *fv)]) if fv else f(nil(s)) == n0)
            self.axioms.append(z3.ForAll(fv + [h, tt], f(cons(h, tt), *fv) == step, patterns=[f(cons(h, tt), *fv)]))
            return f(l, *fv)
        if k == "forall":
            raise Unsupported("nested quantifier")
        raise Unsupported(e[1] if k == "unsupported" else k)

    def both(self, f, g, want):
        try:
            a = f(want)
        except NeedSort:
            n = len(self.obls)
            b = g(want)
            if b is None:
                raise
            return f(b.sort()), b
        return a, g(want if want is not None else a.sort() if a is not None else None)

    def prim(self, op, args, env, path, want):
        if op in ("and", "or", "=>"):
            out, p = [], list(path)
            for i, x in enumerate(args):
                v = self.t(x, env, p, BOOL)
                if not z3.is_bool(v):
                    raise Unsupported(f"{op} of something not boolean")
                out.append(v)
                p = p + [z3.Not(v) if op == "or" else v]
            if op == "=>":
                r = out[-1]
                for x in reversed(out[:-1]):
                    r = z3.Implies(x, r)
                return r
            return (z3.And if op == "and" else z3.Or)(*out)
        if op in ("=", "distinct"):
            if len(args) == 2:
                a, b = self.both(lambda w: self.t(args[0], env, path, w), lambda w: self.t(args[1], env, path, w), None)
                if a.sort() != b.sort():
                    raise Unsupported("equation between two sorts")
                return a == b if op == "=" else a != b
            xs = [self.t(x, env, path) for x in args]
            return z3.And(*[a == b for a, b in zip(xs, xs[1:])]) if op == "=" else z3.Distinct(*xs)
        if op == "cons":
            try:
                h = self.t(args[0], env, path, elem(want) if want is not None and is_list(want) else None)
                l = self.t(args[1], env, path, LIST(h.sort()))
            except NeedSort:
                l = self.t(args[1], env, path, want)
                h = self.t(args[0], env, path, elem(l.sort()))
            if l.sort() != LIST(h.sort()):
                raise Unsupported("list of mixed sorts")
            return cons(h, l)
        if op in ("hd", "tl", "isnil", "iscons"):
            l = self.t(args[0], env, path)
            if not is_list(l.sort()):
                raise Unsupported(f"{op} of an integer")
            if op in ("hd", "tl"):
                if not self.total:
                    self.obls.append((f"{op} of a non-empty list", path, iscons(l)))
                return hd(l) if op == "hd" else tl(l)
            return isnil(l) if op == "isnil" else iscons(l)
        xs = [self.t(x, env, path, BOOL if op == "not" else INT) for x in args]
        if any(x.sort() != (BOOL if op == "not" else INT) for x in xs):
            raise Unsupported(f"{op} of other sorts")
        if op == "not":
            return z3.Not(xs[0])
        if op in ("<", "<=", ">", ">="):
            f = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}[op]
            return conj([f(a, b) for a, b in zip(xs, xs[1:])]) if len(xs) > 2 else f(*xs)
        if op in ("+", "*"):
            r = xs[0]
            for x in xs[1:]:
                r = r + x if op == "+" else r * x
            return r
        if op == "-":
            if len(xs) == 1:
                return -xs[0]
            r = xs[0]
            for x in xs[1:]:
                r = r - x
            return r
        if op in ("div", "mod", "quotient", "remainder"):
            a, b = xs
            if not self.total:
                self.obls.append((f"{op}: divisor is not 0", path, b != 0))
            if op == "div":
                return a / b
            if op == "mod":
                return a % b
            ab = lambda v: z3.If(v >= 0, v, -v)
            q = z3.If((a >= 0) == (b > 0), ab(a) / ab(b), -(ab(a) / ab(b)))
            return q if op == "quotient" else a - b * q
        if op == "abs":
            return z3.If(xs[0] >= 0, xs[0], -xs[0])
        raise Unsupported(f"operator {op}")

    def callf(self, name, args, env, path, want):
        recursive = name == self.name and not self.inlining
        con = self.con if recursive else self.cons.get(name) or self.bi.get(name)
        if con is None:
            f = self.p.funs.get(name)
            if f is None:
                raise Unsupported(f"no contract for {name}")
            if name in self.inlining or name == self.name:
                raise Unsupported(f"no contract for the recursive function {name}")
            sorts = [s for _, s in f.params]
            xs = [self.t(a, env, path, s) for a, s in zip(args, sorts)]
            self.inlining.append(name)
            try:
                return self.t(f.body, dict(zip([n for n, _ in f.params], xs)), path, f.ret or want)
            finally:
                self.inlining.pop()
        f = self.p.funs.get(name)
        if f is not None and f.rest is not None:
            k = len(f.params)
            packed = ("nil", None)
            for x in reversed(args[k:]):
                packed = ("prim", "cons", [x, packed])
            args = args[:k] + [packed]
        if con.sorts is not None and len(args) != len(con.sorts):
            raise Unsupported(f"{name} takes {len(con.sorts)} arguments")
        self.used.add(name)
        xs = []
        for i, a in enumerate(args):
            try:
                xs.append(self.t(a, env, path, None))
            except NeedSort:
                s = con.sorts[i]
                if s is None:
                    # list of the other operand's sort
                    s = next((self.t(b, env, path).sort() for j, b in enumerate(args) if j != i and b[0] != "nil"), want)
                if s is None:
                    raise
                xs.append(self.t(a, env, path, s))
        if con.ret is not None and con.ref is None and con.post_ is None:
            pass
        if name == "append" and name in self.bi and len(xs) == 2 and is_list(xs[0].sort()) and is_list(xs[1].sort()) and xs[0].sort() != xs[1].sort():
            # lists of two kinds: one of them is empty
            k = 0 if want is not None and xs[1].sort() == want else 1
            self.obls.append(("append to a list of the same kind", path, isnil(xs[k])))
            return xs[1 - k]
        pre = con.pre(*xs)
        if recursive:
            self.rec += 1
            m0, m1 = con.measure(*self.args) if con.measure else None, con.measure(*xs) if con.measure else None
            if m0 is None:
                raise Unsupported(f"no measure for the recursion of {name}")
            self.obls.append((f"{name}: recursion ends", path, decreases(m0, m1)))
        if not self.total and pre:
            self.obls.append((f"{name}: precondition", path, conj(pre)))
        if con.ref is not None:
            r = con.ref(*xs)
            if self.total and pre:
                f = fun("U_" + name, *[x.sort() for x in xs], r.sort())
                r = z3.If(conj(pre), r, f(*xs))
            extra = con.post_(r, *xs) if con.post_ else []
            if extra:
                self.assume.append(z3.Implies(conj(path + (pre if self.total else [])), conj(extra)))
            return r
        ret = con.ret(*xs) if callable(con.ret) else con.ret
        f = fun("R_" + name, *[x.sort() for x in xs], ret)
        r = z3.FreshConst(ret, "r_" + name)
        self.assume.append(r == f(*xs))
        self.assume.append(z3.Implies(conj(path + (pre if self.total else [])), conj(con.post(r, *xs))))
        return r


class NeedSort(Exception):
    pass


def decreases(m0, m1):
    if not isinstance(m0, tuple):
        m0, m1 = (m0,), (m1,)
    ok, eq = [], []
    for a, b in zip(m0, m1):
        ok.append(z3.And(*eq, b < a, a >= 0))
        eq.append(a == b)
    return z3.Or(*ok)


def tail_recursive(e, name, tail=True):
    """every call of name is in tail position"""
    k = e[0]
    if k == "ite":
        return tail_recursive(e[1], name, False) and all(tail_recursive(x, name, tail) for x in e[2:])
    if k == "let":
        return all(tail_recursive(x, name, False) for _, x in e[1]) and tail_recursive(e[2], name, tail)
    if k in ("prim", "call", "hcall"):
        if k == "call" and e[1] == name and not tail:
            return False
        return all(tail_recursive(x, name, False) for x in e[2])
    if k in ("ormap", "andmap", "map"):
        return tail_recursive(e[2], name, False) and tail_recursive(e[3], name, False)
    return True


def calls(e, out=None):
    out = set() if out is None else out
    k = e[0]
    if k == "call":
        out.add(e[1])
    if k in ("prim", "call", "hcall"):
        for x in e[2]:
            calls(x, out)
    elif k == "ite":
        for x in e[1:]:
            calls(x, out)
    elif k == "let":
        for _, x in e[1]:
            calls(x, out)
        calls(e[2], out)
    elif k in ("ormap", "andmap", "map"):
        calls(e[2], out)
        calls(e[3], out)
    elif k in ("forall", "exists"):
        calls(e[2], out)
    return out


# ------------------------------------------------------------------- checking
class Checker:
    def __init__(self, ctx, prog, contracts, builtins, facts, where, hof=None, timeout=3000):
        self.ctx, self.p, self.cons, self.bi, self.where = ctx, prog, contracts, builtins, where
        self.prover = Prover(ctx.rep, timeout)
        self.prover.facts = list(facts)
        self.hof = hof or {}

    def discharge(self, name, vs, hyps, goal, cex=None, induct=True):
        """cex(): a concrete failing input or None"""
        lists = [v for v in vs if is_list(v.sort())]
        ok = self.prover.prove(vs, hyps, goal, lists if induct else ())
        if ok:
            self.ctx.obligation(name, "discharged", "")
            return True
        c = cex() if cex else None
        if c is not None:
            self.ctx.obligation(name, "refuted", c)
        else:
            self.ctx.obligation(name, "unknown", "not proved, no failing input found")
        return False

    def function(self, name, con, cex=None):
        f = self.p.funs[name]
        self.ctx.rep.functions.add(f"{self.where}:{name}")
        names = [n for n, _ in f.params] + ([f.rest] if f.rest else [])
        if len(names) != len(con.sorts):
            raise Unsupported(f"{name} has {len(names)} parameters")
        vs = [z3.Const(f"{n}", con.sorts[i]) for i, n in enumerate(names)]
        for (n, s), v in zip(f.params, vs):
            if s is not None and s != v.sort():
                raise Unsupported(f"{name}: parameter {n} has sort {s}")
        g = Gen(self.p, self.cons, self.bi, name, con, vs, hof=self.hof)
        pre = con.pre(*vs)
        want = con.ref(*vs).sort() if con.ref else con.ret(*vs) if callable(con.ret) else con.ret
        r = g.t(f.body, dict(zip(names, vs)), [], want)
        self.prover.facts += g.axioms
        for u in g.used:
            self.ctx.rep.contracts_used.add(f"{self.where}:{u}")
        for k, (n, path, goal) in enumerate(g.obls):
            self.discharge(f"{name}: {n} [{k}]", vs, pre + path + g.assume, goal, cex, induct=False)
        hyps = pre + g.assume
        if con.ref is None:
            r0 = z3.Const("result", want)
            hyps, r = hyps + [r0 == r], r0
        for k, q in enumerate(con.post(r, *vs)):
            self.discharge(f"{name}: postcondition {k}", vs, hyps, q, cex, induct=con.induct)

    def terminates(self, name, con):
        """for all arguments, so that the definition has a solution"""
        f = self.p.funs[name]
        if name not in calls(f.body):
            return
        if tail_recursive(f.body, name):
            self.ctx.obligation(f"{name}: defined for all arguments", "discharged", "tail recursion")
            return
        if con is None or con.measure is None:
            raise Unsupported(f"no measure for the recursion of {name}")
        vs = [z3.Const(n, s) for (n, s) in f.params]
        g = Gen(self.p, self.cons, self.bi, name, con, vs, total=True)
        g.t(f.body, dict(zip([n for n, _ in f.params], vs)), [], f.ret)
        for k, (n, path, goal) in enumerate(g.obls):
            if "recursion ends" in n:
                self.discharge(f"{name}: defined for all arguments [{k}]", vs, path + g.assume, goal, None, induct=False)


# ----------------------------------------------------------------- small values
def small(sort, size=3):
    if sort == INT:
        return [0, 1, 2, 3, -1, 5]
    if sort == BOOL:
        return [False, True]
    if sort == L1:
        return [(), (1,), (0,), (2, 1), (1, 2), (3, 3, 0), (-1, 4, 2), (0, 1, 2, 3)]
    if sort == L2:
        return [(), ((1,),), ((),), ((1, 2),), ((1, 2), (3, 4)), ((1,), (2,), (5,)), ((1, 2, 3), (4, 5, 6)), ((), ()), ((1, 2), (3,)), ((0, 7), (2, 2), (1, 3))]
    if sort == L3:
        return [(), (((1,),),), (((1, 2), (3, 4)), ((5, 6), (7, 8))), ((), ((1,),))]
    raise Unsupported(f"sort {sort}")


def randval(r, sort, d=3):
    if sort == INT:
        return r.choice([r.randrange(-3, 6), r.randrange(0, 4)])
    if sort == BOOL:
        return r.random() < .5
    if sort == L2 and r.random() < .6:
        n, m = r.randrange(0, 4), r.randrange(0, 4)
        return tuple(tuple(r.randrange(-2, 6) for _ in range(m)) for _ in range(n))
    return tuple(randval(r, elem(sort)) for _ in range(r.randrange(0, 5)))


def samples(sorts, r, n):
    """argument tuples: small ones first, then random ones"""
    pools = [small(s) for s in sorts]
    total = 1
    for p in pools:
        total *= len(p)
    if total <= n:
        yield from itertools.product(*pools)
    else:
        for _ in range(n):
            yield tuple(r.choice(p) for p in pools)
    for _ in range(n):
        yield tuple(randval(r, s) for s in sorts)


def refute(prog, name, con, builtins, seed=1, n=600, hof=None):
    """arguments within the contract on which the program computes something
    else: (args, expected, got) or None"""
    r = random.Random(seed)
    run = Runner(prog, builtins, hof=hof)
    if con.py is None:
        return None
    for args in samples(con.sorts, r, n):
        try:
            want = con.py(*args)
        except Undef:
            continue
        try:
            f = prog.funs[name]
            flat = list(args[:-1]) + list(args[-1]) if f.rest else list(args)
            got = run.start(name, flat)
        except Unsupported:
            return None
        except Diverges:
            return args, want, "does not end"
        except (Undef, ValueError, TypeError, ZeroDivisionError, IndexError, KeyError) as ex:
            return args, want, repr(ex)
        if got != want or type(got) is not type(want):
            return args, want, got
    return None
