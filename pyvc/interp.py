"""pyvc.interp -- symbolic interpreter for the Python subset metalift uses.

Function bodies come from the AST of the file the running function was loaded
from; nothing is rewritten.  A call to a function that has a contract is
replaced by the contract, any other call into /repo is executed in place."""
import ast
import builtins
import functools
import inspect
import os
import re
import types
import typing
import z3
from collections import Counter, defaultdict
from .core import *
from . import core

REPO = os.environ.get("METALIFT_REPO", "/repo")


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


DELETED = Poison("deleted dictionary entry")


class Env:
    def __init__(self, globs, parent=None, qual="", cls=None):
        self.vars = Vars()
        self.globs = globs
        self.parent = parent
        self.qual = qual
        self.cls = cls
        self.nonlocals = set()
        self.globals_ = set()


class ClsOf(Value):
    def __init__(self, obj):
        self.obj = obj


class FuncIndex:
    def __init__(self):
        self.files = {}

    def load(self, fn):
        if fn not in self.files:
            src = open(fn).read()
            tree = ast.parse(src)
            funcs, lams = {}, {}
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    ln = min([n.lineno] + [d.lineno for d in n.decorator_list])
                    funcs.setdefault((n.name, ln), []).append(n)
                elif isinstance(n, ast.Lambda):
                    lams.setdefault(n.lineno, []).append(n)
            self.files[fn] = (tree, funcs, lams)
        return self.files[fn]

    def find(self, f):
        code = f.__code__
        tree, funcs, lams = self.load(code.co_filename)
        if code.co_name == "<lambda>":
            c = lams.get(code.co_firstlineno, [])
            if len(c) > 1 and hasattr(code, "co_positions"):
                pos = [p for p in code.co_positions() if p[0] is not None and p[2] is not None]
                cand = []
                for n in c:
                    b = n.body
                    if any(p[0] == b.lineno and p[1] == b.end_lineno and p[2] == b.col_offset and p[3] == b.end_col_offset for p in pos):
                        cand.append(n)
                c = cand or c
        else:
            c = funcs.get((code.co_name, code.co_firstlineno), [])
        if len(c) != 1:
            raise Unsupported(f"cannot find the source of {f.__qualname__}")
        return c[0]


INDEX = FuncIndex()


def in_repo(f):
    code = getattr(f, "__code__", None)
    return code is not None and code.co_filename.startswith(REPO + "/")


def qualname(f):
    return f"{f.__module__}.{f.__qualname__}"


class Contracts:
    """what the interpreter may assume about callees and arbitrary objects"""

    def __init__(self):
        self.by_qual = {}      # qualified name -> py(interp, args, kwargs)
        self.virtual = {}      # method name -> py(interp, self, args, kwargs) for lazy receivers
        self.native = {}       # id(native function) -> py(interp, args, kwargs)
        self.stype_method = {} # method of a symbolic type
        self.class_codes = {}
        self.classes = []
        self.shape = None      # shape(interp, obj, name) -> value / NotImplemented
        self.setattr_hook = None
        self.eq_hook = None    # eq_hook(interp, a, b) -> value / NotImplemented
        self.assumed = {}
        self.opaque_attr = None
        self.globals_overlay = {}
        self.maybe_empty = False    # do not consider empty segments separately
        self.whiles = {}       # qualified name of a function -> invariant of its while loop
        self.folds = {}        # qualified name of a function -> invariant of its loops over symbolic sequences

    def code(self, cls):
        if cls not in self.class_codes:
            self.class_codes[cls] = len(self.class_codes)
        return self.class_codes[cls]


class Interp:
    MAXDEPTH = 60

    def __init__(self, ctx, contracts):
        self.ctx = ctx
        self.con = contracts
        self.stack = []
        self.tyl_reg = {}

    # ------------------------------------------------------------------ utils
    def where(self):
        return " > ".join(self.stack[-3:])

    def unsupported(self, msg):
        raise Unsupported(f"{msg} (in {self.where()})")

    def lift(self, v):
        return v

    def native(self, v):
        """convert to a plain Python value, or raise Unsupported"""
        if isinstance(v, VTuple):
            return tuple(self.native(x) for x in v.values())
        if isinstance(v, VList) or isinstance(v, VIter):
            return [self.native(x) for x in v.values()]
        if isinstance(v, VDict):
            if v.base is not None:
                self.unsupported("symbolic dict passed to external code")
            return {self.native(k): self.native(x) for k, x in v.entries}
        if isinstance(v, VSet):
            if v.base is not None:
                self.unsupported("symbolic set passed to external code")
            return {self.native(s.v) for s in v.items}
        if isinstance(v, Rope):
            u = unrope(v)
            if isinstance(u, str):
                return u
            self.unsupported(f"symbolic string passed to external code: {v}")
        if isinstance(v, Sym):
            t = z3.simplify(v.t)
            if z3.is_int_value(t):
                return t.as_long()
            if z3.is_true(t):
                return True
            if z3.is_false(t):
                return False
            self.unsupported("symbolic number passed to external code")
        if isinstance(v, Value):
            self.unsupported(f"symbolic value passed to external code: {v!r}")
        return v

    def is_native(self, v):
        try:
            self.native(v)
            return True
        except Unsupported:
            return False

    def split(self, v):
        """resolve conditional values by branching"""
        while isinstance(v, Cases):
            for c, x in v.cases[:-1]:
                if self.ctx.branch(c):
                    v = x
                    break
            else:
                v = v.cases[-1][1]
        if isinstance(v, Poison):
            self.unsupported("use of a value that depends on the loop history: " + v.why)
        return v

    def raise_(self, cls, *args):
        raise SymRaise(VObj([cls], attrs={"args": vtuple(args)}))

    # ------------------------------------------------------------------- truth
    def truth(self, v):
        return self.ctx.branch(self.truth_term(v))

    def truth_term(self, v):
        """bool or z3 Bool, branching only where needed"""
        v = self.split(v)
        if isinstance(v, Sym):
            return v.t if v.is_bool else v.t != 0
        if isinstance(v, Rope):
            if any(isinstance(p, str) for p in v.parts):
                return True
            return zor([p.t != z3.StringVal("") if isinstance(p, Atom) else z3.BoolVal(True) for p in v.parts])
        if isinstance(v, VSeq):
            return self.len_cmp_nonempty(v)
        if isinstance(v, VDict):
            if v.entries:
                return True
            if v.base is None:
                return False
            return self.ctx.fresh(z3.BoolSort(), "dictnonempty")
        if isinstance(v, VSet):
            if any(isinstance(s, One) for s in v.items):
                return True
            if v.base is None and not v.items:
                return False
            self.unsupported("truth of a symbolic set")
        if isinstance(v, VObj):
            m = self.find_class_attr(v, "__bool__", optional=True)
            if m is not None:
                return self.truth_term(self.call(self.bind(m, v), []))
            m = self.find_class_attr(v, "__len__", optional=True)
            if m is not None:
                r = self.call(self.bind(m, v), [])
                return self.truth_term(r)
            return True
        if isinstance(v, Opaque):
            if "__bool__" in v.attrs:
                return self.truth_term(v.attrs["__bool__"])
            return True
        if isinstance(v, Value):
            return True
        return bool(v)

    def len_cmp_nonempty(self, v):
        if any(isinstance(i, One) for i in v.items):
            return True
        if not v.items:
            return False
        for i in v.items:
            if isinstance(i, PrefixSeg):
                self.unsupported("truth of a partially known list")
        return zor([i.n > 0 if i.cond is None else self.count(i)[0] > 0 for i in v.items])

    # ---------------------------------------------------------------- segments
    def idx_for(self, n):
        return z3.Int(f"i[{n.sexpr()}]")

    class _Gen:
        def __init__(self, it, m):
            self.it, self.m = it, m

        def __enter__(self):
            ctx = self.it.ctx
            m = self.m
            idx, val, cond = m.idx, m.val, m.cond
            if any(idx.eq(a) for a in ctx.active):
                idx2 = z3.Int(f"j{len(ctx.active)}[{m.n.sexpr()}]")
                if any(idx2.eq(a) for a in ctx.active):
                    raise Unsupported("deeply nested iteration over one sequence")
                sub = [(idx, idx2)]
                val = vsubst(val, sub)
                cond = None if cond is None else z3.substitute(cond, *sub)
                idx = idx2
            self.idx = idx
            ctx.active.append(idx)
            try:
                ctx.assume(z3.And(idx >= 0, idx < m.n))
                ctx.instantiate(m.n, idx)
                if cond is not None:
                    ctx.assume(cond)
            except PathEnd:
                ctx.active.pop()
                raise
            return val, idx

        def __exit__(self, *a):
            self.it.ctx.active.pop()

    def generic(self, m):
        return Interp._Gen(self, m)

    class _Scope:
        """facts about one arbitrary element, for obligations stated by a
        contract: the index assumptions are dropped again afterwards"""

        def __init__(self, it, m):
            self.it, self.m = it, m

        def __enter__(self):
            ctx = self.it.ctx
            self.saved = (len(ctx.univ), len(ctx.facts))
            ctx.solver.push()
            self.g = Interp._Gen(self.it, self.m)
            try:
                return self.g.__enter__()
            except PathEnd:
                self._undo()
                raise Unsupported("segment without elements")

        def _undo(self):
            ctx = self.it.ctx
            ctx.solver.pop()
            del ctx.univ[self.saved[0]:]
            del ctx.facts[self.saved[1]:]

        def __exit__(self, ty, e, tb):
            self.g.__exit__()
            self._undo()
            return ty is PathEnd

    def scope(self, m):
        return Interp._Scope(self, m)

    def count(self, m):
        """how many elements of a filtered segment are present: (count, index of
        the first one)"""
        ctx = self.ctx
        key = ("count", m.n.sexpr(), m.idx.sexpr(), m.cond.sexpr())
        if key in ctx.scratch:
            return ctx.scratch[key]
        k, j = ctx.fresh(z3.IntSort(), "count"), ctx.fresh(z3.IntSort(), "first")
        ctx.jset(ctx.scratch, key, (k, j), lazy=True)
        at = lambda t: z3.substitute(m.cond, (m.idx, t))
        ctx.assume(z3.And(k >= 0, k <= z3.If(m.n > 0, m.n, 0)))
        ctx.assume(z3.Implies(k >= 1, z3.And(j >= 0, j < m.n, at(j))))
        ctx.assume(z3.Implies(k >= 2, m.n >= 2))
        inr = z3.And(m.idx >= 0, m.idx < m.n)
        ctx.add_univ(m.n, m.idx, z3.Implies(z3.And(inr, m.cond), z3.And(k >= 1, m.idx >= j)))
        ctx.add_univ(m.n, m.idx, z3.Implies(z3.And(inr, m.cond, k == 1), m.idx == j))
        ctx.add_univ(m.n, m.idx, z3.Implies(z3.And(inr, k == m.n), m.cond))
        ctx.instantiate(m.n, j)
        return k, j

    def at(self, m, k):
        """element k of a Many without filter"""
        if m.cond is not None:
            self.unsupported("index into a filtered sequence")
        self.ctx.instantiate(m.n, k)
        return vsubst(m.val, [(m.idx, k)])

    def seq(self, v):
        """segments of an iterable"""
        v = self.split(v)
        if isinstance(v, VSeq):
            return list(v.items)
        if isinstance(v, VSet):
            if v.base is not None:
                b = v.base
                if isinstance(b, Many):
                    return [b] + list(v.items)
                self.unsupported("iteration over a symbolic set")
            return list(v.items)
        if isinstance(v, VDict):
            if v.base is not None:
                if getattr(v.base, "keys", None) is None:
                    self.unsupported("iteration over a symbolic dict")
                return self.base_keys(v)
            return self.dict_keys(v)
        if isinstance(v, (list, tuple, set, frozenset, dict, str, range)) or hasattr(v, "__iter__") and not isinstance(v, Value):
            return [One(x) for x in v]
        if isinstance(v, VObj):
            m = self.find_class_attr(v, "__iter__", optional=True)
            if m is not None:
                return self.seq(self.call(self.bind(m, v), []))
        if isinstance(v, Opaque) and "__iter__" in v.attrs:
            return self.seq(self.call(v.attrs["__iter__"], []))
        if isinstance(v, STypeArgs):
            if self.ctx.branch(z3.Or(Ty.is_TInt(v.t), Ty.is_TBool(v.t))):
                return []
            return [One(self.stype_args_get(v, 0))]
        self.unsupported(f"iteration over {v!r}")

    def dict_keys(self, d):
        out = []
        for k, _ in d.entries:
            out.append(k if isinstance(k, Many) else One(k))
        return out

    def map_many(self, m, fn, filt=None):
        """fn applied to each element; returns a Many (template by cases).
        Raises inside fn become a separate path."""
        def thunk():
            with self.generic(m) as (val, idx):
                try:
                    val = self.split(val)
                    if filt is not None and not filt(val):
                        return ("skip", None, idx)
                    self.in_comprehension = getattr(self, "in_comprehension", 0) + 1
                    try:
                        return ("val", fn(val), idx)
                    finally:
                        self.in_comprehension -= 1
                except SymRaise as e:
                    return ("raise", e, idx)

        res = self.ctx.nested(thunk)
        mods = [(o, a) for (o, a) in self.ctx.nest_mods]
        if mods:
            self.unsupported("side effect inside a comprehension: " + str([a for _, a in mods]))
        idx = None
        keep, skip, exc = [], [], []
        for br, facts, (kind, v, ix) in res:
            if idx is None:
                idx = ix
            (keep if kind == "val" else skip if kind == "skip" else exc).append((zand(br), zand(facts), v))
        if idx is None:
            # no feasible element: the segment is empty
            return None
        if not idx.eq(m.idx):
            sub = [(idx, m.idx)]
            f = lambda l: [(z3.substitute(c, *sub), z3.substitute(fa, *sub), vsubst(v, sub) if not isinstance(v, SymRaise) else v) for c, fa, v in l]
            keep, skip, exc = f(keep), f(skip), f(exc)
        if exc:
            if self.ctx.choose(2) == 1:
                k = self.ctx.fresh(z3.IntSort(), "k")
                self.ctx.assume(z3.And(k >= 0, k < m.n))
                self.ctx.instantiate(m.n, k)
                if m.cond is not None:
                    self.ctx.assume(z3.substitute(m.cond, (m.idx, k)))
                val = self.split(vsubst(m.val, [(m.idx, k)]))
                if filt is not None and not filt(val):
                    raise PathEnd()
                fn(val)  # must raise
                raise PathEnd()
            self.ctx.add_univ(m.n, m.idx, z3.Not(zor([c for c, _, _ in exc])) if m.cond is None else z3.Implies(m.cond, z3.Not(zor([c for c, _, _ in exc]))))
        if len(keep) + len(skip) > 1:
            inr = [m.idx >= 0, m.idx < m.n] + ([m.cond] if m.cond is not None else [])
            self.ctx.add_univ(m.n, m.idx, z3.Implies(z3.And(inr), zor([c for c, _, _ in keep + skip])))
        for c, fa, _ in keep:
            if not z3.is_true(z3.simplify(fa)):
                self.ctx.add_univ(m.n, m.idx, z3.Implies(z3.And(m.idx >= 0, m.idx < m.n, c), fa))
        if not keep:
            return None
        val = mkcases([(c, v) for c, _, v in keep])
        cond = m.cond
        if skip:
            kc = zor([c for c, _, _ in keep])
            cond = kc if cond is None else z3.And(cond, kc)
        return Many(m.n, m.idx, val, cond)

    def map_seq(self, segs, fn, filt=None):
        out = []
        for s in segs:
            if isinstance(s, One):
                v = self.split(s.v)
                if filt is None or filt(v):
                    out.append(One(fn(v)))
            elif isinstance(s, PrefixSeg):
                self.unsupported("iteration over a partially built list")
            else:
                if s.n is not None and not self.ctx.sat(s.n > 0) == z3.unsat:
                    r = self.map_many(s, fn, filt)
                    if r is not None:
                        out.append(r)
        return out

    def seq_len(self, segs):
        c, terms = 0, []
        for s in segs:
            if isinstance(s, One):
                c += 1
            elif isinstance(s, Many):
                if s.cond is None:
                    terms.append(s.n)
                else:
                    terms.append(self.count(s)[0])
            else:
                self.unsupported("length of a partially built list")
        if not terms:
            return c
        return Sym(z3.simplify(z3.Sum([z3.IntVal(c)] + terms)))

    def forall_seq(self, segs, pred):
        """branch on: pred holds for all elements (pred(value)->python/z3 truth).
        Returns bool for this path."""
        for s in segs:
            if isinstance(s, One):
                if not self.truth(pred(self.split(s.v))):
                    return False
            elif isinstance(s, Many):
                m = self.map_many(s, lambda v: pred(v))
                if m is None:
                    continue
                cases = m.val.cases if isinstance(m.val, Cases) else [(z3.BoolVal(True), m.val)]
                t = zand([z3.Implies(c, self._tt(v)) for c, v in cases])
                if m.cond is not None:
                    t = z3.Implies(m.cond, t)
                t = z3.simplify(t)
                if z3.is_true(t):
                    continue
                # feasibility of both outcomes
                if self.ctx.choose(2) == 0:
                    self.ctx.add_univ(m.n, m.idx, t)
                    self.ctx.facts.append(z3.BoolVal(True))
                else:
                    k = self.ctx.fresh(z3.IntSort(), "k")
                    self.ctx.assume(z3.And(k >= 0, k < m.n))
                    self.ctx.instantiate(m.n, k)
                    self.ctx.assume(z3.Not(z3.substitute(t, (m.idx, k))))
                    if not self.ctx.feasible():
                        raise PathEnd()
                    return False
            else:
                self.unsupported("all/any over a partially built list")
        return True

    def _tt(self, v):
        t = self.truth_term(v)
        return z3.BoolVal(t) if isinstance(t, bool) else t

    # ------------------------------------------------------------- expressions
    def ev(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.unsupported("expression " + type(n).__name__)
        return m(n, env)

    def evs(self, n, env):
        return self.split(self.ev(n, env))

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars and name not in e.globals_:
                v = e.vars[name]
                if isinstance(v, Poison):
                    self.unsupported(f"variable {name} after a loop: {v.why}")
                return v
            e = e.parent
        ov = self.con.globals_overlay.get((env.globs.get("__name__"), name), self)
        if ov is not self:
            return ov
        if name in env.globs:
            return env.globs[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.raise_(NameError, f"name '{name}' is not defined")

    def e_Attribute(self, n, env):
        return self.getattr(self.evs(n.value, env), n.attr)

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
            else:
                x = self.evs(v.value, env)
                if v.format_spec is not None:
                    if not self.is_native(x):
                        self.unsupported("format spec")
                    spec = self.ev(v.format_spec, env)
                    parts.append(format(self.native(x), self.native(spec)))
                    continue
                r = self.repr_(x) if v.conversion == 114 else self.str_(x)
                parts.extend(rope(r).parts)
        return unrope(Rope(parts))

    def e_Tuple(self, n, env):
        return VTuple(self.elts(n.elts, env))

    def e_List(self, n, env):
        return VList(self.elts(n.elts, env))

    def e_Set(self, n, env):
        return self.make_set(self.elts(n.elts, env))

    def elts(self, es, env):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend(self.seq(self.evs(e.value, env)))
            else:
                out.append(One(self.ev(e, env)))
        return out

    def e_Dict(self, n, env):
        d = VDict([])
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.evs(v, env)
                for kk, vv in self.dict_items(src):
                    self.dict_set(d, kk, vv)
            else:
                kk = self.evs(k, env)
                self.dict_set(d, kk, self.ev(v, env))
        return d

    def dict_items(self, d):
        if isinstance(d, dict):
            return list(d.items())
        if isinstance(d, VDict):
            if d.base is not None:
                self.unsupported("items of a symbolic dict")
            return list(d.entries)
        self.unsupported("items of non-dict")

    def e_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.evs(e, env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def e_UnaryOp(self, n, env):
        v = self.evs(n.operand, env)
        if isinstance(n.op, ast.Not):
            t = self.truth_term(v)
            return (not t) if isinstance(t, bool) else Sym(z3.Not(t))
        if isinstance(v, Sym) and isinstance(n.op, ast.USub):
            return Sym(-v.t)
        if isinstance(v, VObj):
            nm = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(n.op)]
            return self.call(self.getattr(v, nm), [])
        x = self.native(v)
        if isinstance(n.op, ast.USub):
            return -x
        if isinstance(n.op, ast.UAdd):
            return +x
        return ~x

    OPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.FloorDiv: "floordiv", ast.Mod: "mod",
           ast.Div: "truediv", ast.BitOr: "or", ast.BitAnd: "and", ast.Pow: "pow", ast.BitXor: "xor"}

    def e_BinOp(self, n, env):
        a = self.evs(n.left, env)
        b = self.evs(n.right, env)
        return self.binop(type(n.op), a, b)

    def binop(self, op, a, b):
        nm = self.OPS.get(op)
        if nm is None:
            self.unsupported("operator " + op.__name__)
        if op is ast.Mod and isinstance(a, (Rope, str)):
            return self.percent(a, b)
        if isinstance(a, (VObj, Opaque)) or isinstance(b, (VObj, Opaque)):
            for x, y, mth in ((a, b, f"__{nm}__"), (b, a, f"__r{nm}__")):
                if isinstance(x, VObj):
                    m = self.find_class_attr(x, mth, optional=True)
                    if m is not None:
                        r = self.call(self.bind(m, x), [One(y)])
                        if r is not NotImplemented:
                            return r
                if isinstance(x, Opaque) and mth in x.attrs:
                    return self.call(x.attrs[mth], [One(y)])
            self.raise_(TypeError, f"unsupported operand type(s) for {nm}")
        if op is ast.Add:
            if isinstance(a, (Rope, str)) and isinstance(b, (Rope, str)):
                return unrope(Rope(rope(a).parts + rope(b).parts))
            if isinstance(a, (VSeq, list, tuple)) and isinstance(b, (VSeq, list, tuple)):
                istup = isinstance(a, (VTuple, tuple))
                if istup != isinstance(b, (VTuple, tuple)):
                    self.raise_(TypeError, "concatenate")
                return (VTuple if istup else VList)(self.seq(a) + self.seq(b))
        if isinstance(a, VDict) or isinstance(b, VDict):
            if op is ast.BitOr:
                d = self.dict_copy(a)
                for k, v in self.dict_items(b):
                    self.dict_set(d, k, v)
                return d
        if isinstance(a, (VSet, set, frozenset)) and isinstance(b, (VSet, set, frozenset)):
            meth = {ast.BitOr: "union", ast.BitAnd: "intersection", ast.Sub: "difference"}.get(op)
            if meth:
                return self.set_method(self.as_vset(a), meth, [b])
        if isinstance(a, Sym) or isinstance(b, Sym):
            x, y = self.num(a), self.num(b)
            if op is ast.Add:
                return Sym(x + y)
            if op is ast.Sub:
                return Sym(x - y)
            if op is ast.Mult:
                return Sym(x * y)
            if op in (ast.FloorDiv, ast.Mod):
                if not self.ctx.branch(y != 0):
                    self.raise_(ZeroDivisionError, "division by zero")
                # floor semantics out of SMT's Euclidean div/mod
                q = z3.If(y > 0, x / y, -x / -y)
                q = z3.If(y > 0, x / y, (0 - x) / (0 - y))
                return Sym(q if op is ast.FloorDiv else x - y * q)
        if isinstance(a, VSeq) or isinstance(b, VSeq):
            if op is ast.Mult:
                if isinstance(a, VSeq) and isinstance(b, int):
                    return type(a)(list(a.items) * b)
        if isinstance(a, Value) or isinstance(b, Value):
            a, b = self.native(a), self.native(b)
        import operator
        try:
            return getattr(operator, nm + ("_" if nm in ("or", "and") else ""))(a, b)
        except Exception as e:
            raise SymRaise(e)

    def num(self, v):
        if isinstance(v, Sym):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0)) if v.is_bool else v.t
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        self.unsupported(f"number expected: {v!r}")

    def percent(self, fmt, b):
        if isinstance(fmt, Rope):
            u = unrope(fmt)
            if not isinstance(u, str):
                self.unsupported("symbolic format string")
            fmt = u
        args = b.values() if isinstance(b, VTuple) else list(b) if isinstance(b, tuple) else [b]
        parts, i, k = [], 0, 0
        for m in re.finditer(r"%([sdr%])", fmt):
            parts.append(fmt[i:m.start()])
            i = m.end()
            if m.group(1) == "%":
                parts.append("%")
                continue
            if k >= len(args):
                self.raise_(TypeError, "not enough arguments for format string")
            v = self.split(args[k])
            k += 1
            if m.group(1) == "d" and not (isinstance(v, (int, Sym))):
                self.raise_(TypeError, "%d format: a number is required")
            parts.extend(rope(self.repr_(v) if m.group(1) == "r" else self.str_(v)).parts)
        parts.append(fmt[i:])
        if k < len(args) and not isinstance(b, VDict):
            self.raise_(TypeError, "not all arguments converted during string formatting")
        return unrope(Rope(parts))

    def e_Compare(self, n, env):
        left = self.evs(n.left, env)
        res = None
        for op, c in zip(n.ops, n.comparators):
            right = self.evs(c, env)
            res = self.compare(type(op), left, right)
            if len(n.ops) > 1:
                if not self.truth(res):
                    return res
            left = right
        return res

    def compare(self, op, a, b):
        if op in (ast.Is, ast.IsNot):
            r = self.is_(a, b)
            return self._neg(r) if op is ast.IsNot else self._wrap(r)
        if op is ast.Eq:
            return self._wrapv(self.eq(a, b))
        if op is ast.NotEq:
            return self._wrapv(self.ne(a, b))
        if op in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return self._neg(r) if op is ast.NotIn else self._wrap(r)
        nm = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}[op]
        sw = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}[nm]
        for x, y, mth in ((a, b, f"__{nm}__"), (b, a, f"__{sw}__")):
            if isinstance(x, VObj):
                m = self.find_class_attr(x, mth, optional=True)
                if m is not None:
                    return self.call(self.bind(m, x), [One(y)])
        if isinstance(a, Sym) or isinstance(b, Sym):
            x, y = self.num(a), self.num(b)
            return Sym({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[nm])
        import operator
        try:
            return getattr(operator, nm)(self.native(a), self.native(b))
        except TypeError as e:
            raise SymRaise(e)

    def _wrap(self, r):
        return r if isinstance(r, bool) else Sym(r)

    def _wrapv(self, r):
        return Sym(r) if z3.is_expr(r) else r

    def _neg(self, r):
        return (not r) if isinstance(r, bool) else Sym(z3.Not(r))

    def is_(self, a, b):
        if isinstance(a, SType) or isinstance(b, SType):
            return self.type_eq(a, b)
        if isinstance(a, ClsOf) or isinstance(b, ClsOf):
            return self.cls_eq(a, b)
        if isinstance(a, Sym) and isinstance(b, bool):
            return a.t if b else z3.Not(a.t)
        if isinstance(a, VObj) and isinstance(b, VObj) and a is not b and a.lazy and b.lazy and a.id is not None and b.id is not None:
            return a.id == b.id
        return a is b

    def type_term(self, t):
        import metalift.ir as ir
        from typing import get_args, get_origin
        if isinstance(t, SType):
            return t.t
        if t is ir.Int:
            return Ty.TInt
        if t is ir.Bool:
            return Ty.TBool
        o = get_origin(t)
        if o is not None and get_args(t):
            a = get_args(t)
            mk = {ir.List: Ty.TList, ir.Matrix: Ty.TMatrix, ir.Tensor3D: Ty.TTensor3D, ir.Set: Ty.TSet}.get(o)
            if mk is not None and len(a) == 1:
                x = self.type_term(a[0])
                return None if x is None else mk(x)
            if o in (ir.Tuple, ir.Fn):
                inner = get_args(a[0])
                l = TyL.nil
                for x in reversed(inner):
                    xt = self.type_term(x)
                    if xt is None:
                        return None
                    l = TyL.cons(xt, l)
                return (Ty.TTuple if o is ir.Tuple else Ty.TFn)(l)
        return None

    def type_eq(self, a, b):
        x, y = self.type_term(a), self.type_term(b)
        if x is None or y is None:
            return False
        return z3.simplify(x == y)

    def cls_term(self, a):
        if isinstance(a, ClsOf):
            return clsof(a.obj.id)
        if isinstance(a, type):
            return z3.IntVal(self.con.code(a))
        return None

    def cls_eq(self, a, b):
        x, y = self.cls_term(a), self.cls_term(b)
        if x is None or y is None:
            return False
        return x == y

    def eq(self, a, b):
        """== : python bool, z3 Bool or program value"""
        if self.con.eq_hook is not None:
            r = self.con.eq_hook(self, a, b)
            if r is not NotImplemented:
                return r
        if isinstance(a, SType) or isinstance(b, SType):
            return self.type_eq(a, b)
        if isinstance(a, ClsOf) or isinstance(b, ClsOf):
            return self.cls_eq(a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, VObj):
                m = self.find_class_attr(x, "__eq__", optional=True)
                if m is not None:
                    r = self.call(self.bind(m, x), [One(y)])
                    r = self.split(r)
                    if r is not NotImplemented:
                        return r.t if isinstance(r, Sym) else r
        if isinstance(a, VObj) or isinstance(b, VObj):
            return a is b
        if isinstance(a, (Rope, str)) and isinstance(b, (Rope, str)):
            return self.str_eq(a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, (Sym, int)) and isinstance(b, (Sym, int)):
                if isinstance(a, Sym) and isinstance(b, Sym) and a.is_bool and b.is_bool:
                    return a.t == b.t
                return z3.simplify(self.num(a) == self.num(b))
            return False
        if isinstance(a, (VSeq, list, tuple)) and isinstance(b, (VSeq, list, tuple)):
            if isinstance(a, (VTuple, tuple)) != isinstance(b, (VTuple, tuple)):
                return False
            sa, sb = self.seq(a), self.seq(b)
            if all(isinstance(s, One) for s in sa + sb):
                if len(sa) != len(sb):
                    return False
                for x, y in zip(sa, sb):
                    if not self.truth(self._wrapv(self.eq(self.split(x.v), self.split(y.v)))):
                        return False
                return True
            if not sa or not sb:
                other = VList(sa or sb)
                t = self.len_cmp_nonempty(other)
                return (not t) if isinstance(t, bool) else z3.Not(t)
            self.unsupported("equality of symbolic sequences")
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if a is b:
                return True
            if a.id is not None and b.id is not None:
                return a.id == b.id
            return False
        if isinstance(a, (VSet, set)) and isinstance(b, (VSet, set)):
            return self.native(a) == self.native(b)
        if isinstance(a, (VDict, dict)) and isinstance(b, (VDict, dict)):
            return self.native(a) == self.native(b)
        if isinstance(a, Value) or isinstance(b, Value):
            return a is b
        return a == b

    def ne(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, VObj):
                m = self.find_class_attr(x, "__ne__", optional=True)
                if m is not None:
                    r = self.split(self.call(self.bind(m, x), [One(y)]))
                    if r is not NotImplemented:
                        return r.t if isinstance(r, Sym) else r
                    if y is not None and not isinstance(y, VObj):
                        continue
        r = self.eq(a, b)
        if isinstance(r, bool):
            return not r
        if z3.is_expr(r):
            return z3.Not(r)
        t = self.truth_term(r)
        return (not t) if isinstance(t, bool) else z3.Not(t)

    def str_eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        a, b = rope(a), rope(b)
        ta, tb = self.str_term(a), self.str_term(b)
        if ta is not None and tb is not None:
            return z3.simplify(ta == tb)
        # distinguishable by a literal first character
        if a.parts and b.parts and isinstance(a.parts[0], str) and isinstance(b.parts[0], str):
            if a.parts[0][0] != b.parts[0][0]:
                return False
        u = unrope(b) if isinstance(unrope(b), str) else unrope(a)
        if u == "" and isinstance(u, str):
            o = a if isinstance(unrope(b), str) else b
            if any(isinstance(p, str) for p in o.parts):
                return False
        if isinstance(u, str):
            o = a if isinstance(unrope(b), str) else b
            lits = "".join(p for p in o.parts if isinstance(p, str))
            if len(lits) > len(u):
                return False
            if o.parts and isinstance(o.parts[0], str) and not u.startswith(o.parts[0]):
                return False
            if o.parts and isinstance(o.parts[-1], str) and not u.endswith(o.parts[-1]):
                return False
        self.unsupported(f"string equality {a} == {b}")

    def str_term(self, r):
        ts = []
        for p in r.parts:
            if isinstance(p, str):
                ts.append(z3.StringVal(p))
            elif isinstance(p, Atom):
                ts.append(p.t)
            elif isinstance(p, DecAtom):
                ts.append(z3.If(p.t >= 0, z3.IntToStr(p.t), z3.Concat(z3.StringVal("-"), z3.IntToStr(-p.t))))
            else:
                return None
        if not ts:
            return z3.StringVal("")
        return z3.Concat(*ts) if len(ts) > 1 else ts[0]

    def contains(self, c, x):
        c, x = self.split(c), self.split(x)
        if isinstance(c, VObj):
            m = self.find_class_attr(c, "__contains__", optional=True)
            if m is not None:
                return self.truth_term(self.call(self.bind(m, c), [One(x)]))
        if isinstance(c, (str, Rope)):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            tc, tx = self.str_term(rope(c)), self.str_term(rope(x))
            if tc is None or tx is None:
                self.unsupported("substring test")
            return z3.Contains(tc, tx)
        if isinstance(c, VDict):
            return self.dict_find(c, x)[0]
        if isinstance(c, VIter) and getattr(c, "keys_of", None) is not None:
            return self.dict_find(c.keys_of, x)[0]
        if isinstance(c, VSet) or isinstance(c, (set, frozenset)):
            return self.set_has(self.as_vset(c), x)
        if isinstance(c, dict):
            if not isinstance(x, Value):
                return x in c
            return self.any_eq([One(k) for k in c], x)
        if isinstance(c, Opaque) and "__contains__" in c.attrs:
            return self.truth_term(self.call(c.attrs["__contains__"], [One(x)]))
        return self.any_eq(self.seq(c), x)

    def ident_or_eq(self, a, b):
        if a is b:
            return True
        r = self.eq(a, b)
        if not isinstance(r, bool) and not z3.is_expr(r):
            r = self.truth_term(r)
        return r

    def any_eq(self, segs, x):
        terms = []
        for s in segs:
            if isinstance(s, One):
                r = self.ident_or_eq(self.split(s.v), x)
                if r is True:
                    return True
                if r is not False:
                    terms.append(r)
            else:
                ok = self.forall_seq([s], lambda v: self._neg(self.ident_or_eq(v, x)))
                if not ok:
                    return True
        return zor(terms) if terms else False

    def e_Subscript(self, n, env):
        v = self.evs(n.value, env)
        if isinstance(n.slice, ast.Slice):
            g = lambda e: None if e is None else self.evs(e, env)
            return self.getslice(v, g(n.slice.lower), g(n.slice.upper), g(n.slice.step))
        return self.getitem(v, self.evs(n.slice, env))

    def e_Slice(self, n, env):
        g = lambda e: None if e is None else self.evs(e, env)
        return slice(g(n.lower), g(n.upper), g(n.step))

    def getslice(self, v, lo, hi, step):
        if isinstance(v, VObj):
            return self.call(self.getattr(v, "__getitem__"), [One(slice(lo, hi, step))])
        if isinstance(v, Opaque) and "__getitem__" in v.attrs:
            return self.call(v.attrs["__getitem__"], [One(slice(lo, hi, step))])
        if isinstance(v, Rope):
            lo, hi = (None if x is None else self.native(x) for x in (lo, hi))
            if step is not None:
                self.unsupported("string step")
            r = v
            if lo:
                if lo > 0:
                    r = self.rope_drop(r, lo)
                else:
                    self.unsupported("negative string slice")
            if hi is not None:
                if hi < 0:
                    r = self.rope_dropend(r, -hi)
                else:
                    self.unsupported("string prefix slice")
            return unrope(r)
        if isinstance(v, VSeq):
            if step is not None and not (v.concrete()):
                self.unsupported("step slice of symbolic sequence")
            if v.concrete():
                try:
                    lo2, hi2, st = (None if x is None else self.native(x) for x in (lo, hi, step))
                    return type(v)(v.items[slice(lo2, hi2, st)])
                except Unsupported:
                    pass
                if not v.items:
                    return type(v)([])
                self.unsupported("symbolic slice bounds")
            items = list(v.items)
            if lo is None and hi is not None and not self.is_native(hi) and len(items) == 1 and isinstance(items[0], Many) and items[0].cond is None:
                m, k = items[0], self.num(hi)
                if not self.ctx.branch(k >= 0):
                    self.unsupported("negative slice of symbolic sequence")
                return type(v)([Many(z3.If(k < m.n, k, m.n), m.idx, m.val)])
            hi2 = None if hi is None else self.native(hi)
            if lo is not None and not self.is_native(lo):
                items = self.drop_len(items, lo)
            elif lo is not None and self.native(lo) < 0:
                self.unsupported("negative slice of symbolic sequence")
            else:
                items = self.drop_front(items, 0 if lo is None else self.native(lo))
            if hi2 is not None:
                if hi2 < 0:
                    items = self.drop_back(items, -hi2)
                else:
                    want = max(0, hi2 - (0 if lo is None else self.native(lo))) if lo is None or self.is_native(lo) else None
                    ones = 0
                    while ones < len(items) and isinstance(items[ones], One):
                        ones += 1
                    if want is not None and ones < want and ones == len(items) - 1 and items[-1].cond is None:
                        m = items[-1]
                        return type(v)(items[:ones] + [Many(z3.If(want - ones < m.n, z3.IntVal(want - ones), m.n), m.idx, m.val)])
                    if want is None or not all(isinstance(x, One) for x in items[:want]) or len(items) < want:
                        self.unsupported("prefix slice of symbolic sequence")
                    items = items[:want]
            return type(v)(items)
        try:
            return self.native(v)[slice(*(None if x is None else self.native(x) for x in (lo, hi, step)))]
        except Unsupported:
            raise
        except Exception as e:
            raise SymRaise(e)

    def drop_len(self, items, lo):
        """items without the first lo ones, lo symbolic: the length of some of the
        segments, possibly plus a number"""
        items = list(items)
        t = z3.simplify(self.num(lo))
        ctx = self.ctx
        while items:
            s = items[0]
            if isinstance(s, Many) and s.cond is None and ctx.must(t >= s.n):
                t = z3.simplify(t - s.n)
            elif isinstance(s, One) and not z3.is_int_value(t) and ctx.must(t >= 1):
                t = z3.simplify(t - 1)
            else:
                break
            items.pop(0)
        if z3.is_int_value(t):
            return self.drop_front(items, t.as_long())
        if ctx.must(t == 0) or not items:
            return items
        m = items[0]
        if isinstance(m, Many) and m.cond is None and ctx.must(t >= 0):
            cut = z3.If(t < m.n, t, m.n)
            if len(items) > 1 and not ctx.must(t <= m.n):
                self.unsupported("slice of a symbolic sequence across segments")
            return [Many(m.n - cut, m.idx, vsubst(m.val, [(m.idx, m.idx + cut)]))] + items[1:]
        self.unsupported("slice of a symbolic sequence inside a segment")

    def drop_front(self, items, k):
        items = list(items)
        while k > 0 and items:
            s = items[0]
            if isinstance(s, One):
                items.pop(0)
                k -= 1
            elif isinstance(s, Many) and s.cond is None:
                if not self.ctx.branch(s.n > 0):
                    items.pop(0)
                    continue
                # rest: elements 1..n-1
                n1 = z3.simplify(s.n - 1)
                idx = self.idx_for(n1)
                val = vsubst(s.val, [(s.idx, idx + 1)])
                for (m, ix, f) in list(self.ctx.univ):
                    if m.eq(s.n):
                        self.ctx.add_univ(n1, idx, z3.substitute(f, (ix, idx + 1)))
                items[0] = Many(n1, idx, val)
                k -= 1
            else:
                self.unsupported("slice of a filtered sequence")
        return items

    def drop_back(self, items, k):
        items = list(items)
        while k > 0 and items:
            s = items[-1]
            if isinstance(s, One):
                items.pop()
                k -= 1
            elif isinstance(s, Many) and s.cond is None:
                if not self.ctx.branch(s.n > 0):
                    items.pop()
                    continue
                n1 = z3.simplify(s.n - 1)
                idx = self.idx_for(n1)
                for (m, ix, f) in list(self.ctx.univ):
                    if m.eq(s.n):
                        self.ctx.add_univ(n1, idx, z3.substitute(f, (ix, idx)))
                items[-1] = Many(n1, idx, vsubst(s.val, [(s.idx, idx)]))
                k -= 1
            else:
                self.unsupported("slice of a filtered sequence")
        return items

    def rope_drop(self, r, k):
        parts = list(r.parts)
        while k and parts:
            if isinstance(parts[0], str):
                m = min(k, len(parts[0]))
                parts[0] = parts[0][m:]
                k -= m
                if not parts[0]:
                    parts.pop(0)
            elif isinstance(parts[0], Atom):
                t = parts[0].t
                if not self.ctx.must(z3.Length(t) >= k):
                    self.unsupported("slice of a short symbolic string")
                parts[0] = Atom(z3.SubString(t, k, z3.Length(t) - k), parts[0].kind, ("drop", k, parts[0].ref))
                k = 0
            else:
                self.unsupported("slice of a symbolic string")
        return Rope(parts)

    def rope_dropend(self, r, k):
        parts = list(r.parts)
        while k and parts:
            if isinstance(parts[-1], str):
                m = min(k, len(parts[-1]))
                parts[-1] = parts[-1][:len(parts[-1]) - m]
                k -= m
                if not parts[-1]:
                    parts.pop()
            elif isinstance(parts[-1], JoinPart) and parts[-1].sep == "" and k == 1:
                # every element ends with the same literal: x1 + s, x2 + s ... -> join(s)
                seg = parts[-1].seg
                val = rope(seg.val) if not isinstance(seg.val, Cases) else None
                if val is None or not val.parts or not isinstance(val.parts[-1], str):
                    self.unsupported("slice of a symbolic string")
                if not self.ctx.branch(seg.n > 0):
                    parts.pop()
                    continue
                s = val.parts[-1][-1]
                body = unrope(self.rope_dropend(val, 1))
                parts[-1] = JoinPart(s, Many(seg.n, seg.idx, body, seg.cond))
                k = 0
            else:
                self.unsupported("slice of a symbolic string")
        return Rope(parts)

    def getitem(self, v, k):
        v, k = self.split(v), self.split(k)
        if isinstance(k, slice):
            return self.getslice(v, k.start, k.stop, k.step)
        if isinstance(v, VObj):
            return self.call(self.getattr(v, "__getitem__"), [One(k)])
        if isinstance(v, Opaque) and "__getitem__" in v.attrs:
            return self.call(v.attrs["__getitem__"], [One(k)])
        if isinstance(v, VDict):
            found, val = self.dict_find(v, k)
            if self.ctx.branch(found):
                return force(val)
            if v.default is not None:
                x = v.default()
                self.dict_set(v, k, x)
                return x
            self.raise_(KeyError, k)
        if isinstance(v, dict):
            if not isinstance(k, Value):
                try:
                    return v[k]
                except Exception as e:
                    raise SymRaise(e)
            for kk in v:
                if self.ctx.branch(self.eq(k, kk)):
                    return v[kk]
            self.raise_(KeyError, k)
        if isinstance(v, STypeArgs):
            return self.stype_args_get(v, k)
        if isinstance(v, (VSeq, list, tuple)):
            segs = self.seq(v)
            if isinstance(k, Sym):
                t = z3.simplify(k.t)
                if z3.is_int_value(t):
                    k = t.as_long()
                elif len(segs) == 1 and isinstance(segs[0], Many):
                    m = segs[0]
                    if self.ctx.branch(z3.And(t >= 0, t < m.n)):
                        return self.at(m, t)
                    self.unsupported("index outside the known range")
                elif all(isinstance(s, One) for s in segs):
                    for j in range(len(segs)):
                        if self.ctx.branch(t == j):
                            return segs[j].v
                    self.raise_(IndexError, "index out of range")
                elif all(isinstance(s, One) or s.cond is None for s in segs if isinstance(s, (One, Many))) and all(isinstance(s, (One, Many)) for s in segs):
                    off = z3.IntVal(0)
                    for s in segs:
                        m = z3.IntVal(1) if isinstance(s, One) else s.n
                        if self.ctx.branch(z3.And(t >= off, t < off + m)):
                            return s.v if isinstance(s, One) else self.at(s, z3.simplify(t - off))
                        off = off + m
                    self.unsupported("index outside the known range")
                else:
                    self.unsupported("symbolic index")
            if not isinstance(k, int):
                self.raise_(TypeError, "list indices must be integers")
            if k >= 0:
                for s in segs:
                    if isinstance(s, One):
                        if k == 0:
                            return s.v
                        k -= 1
                    elif isinstance(s, Many) and s.cond is None:
                        if self.ctx.branch(s.n > k):
                            return self.at(s, z3.IntVal(k))
                        # shorter than k+1: fix the length
                        for j in range(k + 1):
                            if self.ctx.branch(s.n == j):
                                k -= j
                                break
                    elif isinstance(s, Many) and k == 0:
                        c, j = self.count(s)
                        if self.ctx.branch(c > 0):
                            self.ctx.instantiate(s.n, j)
                            return self.split(vsubst(s.val, [(s.idx, j)]))
                    else:
                        self.unsupported("index into a partially built list")
            else:
                k = -k - 1
                for s in reversed(segs):
                    if isinstance(s, One):
                        if k == 0:
                            return s.v
                        k -= 1
                    elif isinstance(s, Many) and s.cond is None:
                        if self.ctx.branch(s.n > k):
                            return self.at(s, z3.simplify(s.n - 1 - k))
                        for j in range(k + 1):
                            if self.ctx.branch(s.n == j):
                                k -= j
                                break
                    else:
                        self.unsupported("index into a partially built list")
            self.raise_(IndexError, "list index out of range")
        if isinstance(v, Rope):
            if isinstance(k, int) and k == 0 and v.parts and isinstance(v.parts[0], str):
                return v.parts[0][0]
            if isinstance(k, int) and k == 0:
                t = self.str_term(v)
                if t is not None:
                    if not self.ctx.branch(z3.Length(t) > 0):
                        self.raise_(IndexError, "string index out of range")
                    return Rope([Atom(z3.SubString(t, 0, 1), "char", None)])
            self.unsupported("index into a symbolic string")
        if isinstance(v, type) or isinstance(v, typing._GenericAlias):
            return self.type_subscript(v, k)
        try:
            return self.native(v)[self.native(k)]
        except Unsupported:
            raise
        except Exception as e:
            raise SymRaise(e)

    def type_subscript(self, c, k):
        import metalift.ir as ir
        if c in (ir.Tuple, ir.Fn) and isinstance(k, tuple) and k and k[0] == "tuple_type":
            return SType((Ty.TTuple if c is ir.Tuple else Ty.TFn)(k[1]))
        if self.is_native(k):
            try:
                return c[self.native(k)]
            except Exception as e:
                raise SymRaise(e)
        mk = {ir.List: Ty.TList, ir.Matrix: Ty.TMatrix, ir.Tensor3D: Ty.TTensor3D, ir.Set: Ty.TSet}.get(c)
        if mk is not None and isinstance(k, SType):
            return SType(mk(k.t))
        if c is tuple:
            return ("tuple_type", self.tyl(k))
        if c in (ir.Tuple, ir.Fn) and isinstance(k, tuple) and k and k[0] == "tuple_type":
            return SType((Ty.TTuple if c is ir.Tuple else Ty.TFn)(k[1]))
        if c in (typing.List, typing.Dict, typing.Set, typing.Optional, typing.Tuple, list, dict, set):
            return c
        self.unsupported(f"type subscript {c}[{k!r}]")

    def tyl(self, k):
        """TyL term of a sequence of types"""
        k = self.split(k)
        if isinstance(k, (SType, type, typing._GenericAlias)):
            return TyL.cons(self.type_term(k), TyL.nil)
        segs = self.seq(k)
        l = TyL.nil
        if segs and isinstance(segs[-1], Many) and isinstance(segs[-1].val, SType):
            m = segs[-1]
            l = self.tyl_of_many(m)
            segs = segs[:-1]
        for s in reversed(segs):
            if not isinstance(s, One):
                self.unsupported("tuple type over a symbolic sequence")
            l = TyL.cons(self.type_term(self.split(s.v)), l)
        return l

    def tyl_of_many(self, m):
        # the list of types of a sequence of arguments, as a function of the template
        a = m.val.t
        if m.cond is None and z3.is_app(a) and a.decl().name() == "tyl_nth" and a.arg(1).eq(m.idx) and m.n.eq(z3.Function("tyl_len", TyL, z3.IntSort())(a.arg(0))):
            return a.arg(0)
        c = z3.Const(f"tyl[{m.n.sexpr()}][{m.val.t.sexpr()}]", TyL)
        if ("tyl", c.sexpr()) not in self.ctx.scratch:
            # extensionality: lists of the same length with equal elements are equal
            for m2 in list(self.tyl_reg.values()):
                if m2.n.eq(m.n) and m2.idx.eq(m.idx) and m2.cond is None and m.cond is None:
                    same = None
                    with self.scope(Many(m.n, m.idx, None)):
                        same = self.ctx.must(m2.val.t == m.val.t)
                    if same:
                        c2 = z3.Const(f"tyl[{m2.n.sexpr()}][{m2.val.t.sexpr()}]", TyL)
                        if not c2.eq(c):
                            self.ctx.add(c == c2)
            self.ctx.jset(self.ctx.scratch, ("tyl", c.sexpr()), True, lazy=True)
        self.tyl_reg[c.sexpr()] = m
        return c

    def tyl_segs(self, l):
        """segments of the list of types l"""
        l = z3.simplify(l)
        out = []
        while z3.is_app(l) and l.decl().name() == "cons":
            out.append(One(SType(z3.simplify(l.arg(0)))))
            l = l.arg(1)
        if z3.is_app(l) and l.decl().name() == "nil":
            return out
        m = self.tyl_reg.get(l.sexpr())
        if m is not None:
            return out + [m]
        while len(out) < 12 and self.ctx.must(TyL.is_cons(l)):
            out.append(One(SType(z3.simplify(TyL.hd(l)))))
            l = z3.simplify(TyL.tl(l))
        if self.ctx.must(TyL.is_nil(l)):
            return out
        n = z3.Function("tyl_len", TyL, z3.IntSort())(l)
        self.ctx.add(n >= 0)
        idx = self.idx_for(n)
        return out + [Many(n, idx, SType(z3.Function("tyl_nth", TyL, z3.IntSort(), Ty)(l, idx)))]

    def stype_class(self, v):
        """the class (origin) of a symbolic type"""
        import metalift.ir as ir
        for is_, c in ((Ty.is_TInt, ir.Int), (Ty.is_TBool, ir.Bool), (Ty.is_TList, ir.List), (Ty.is_TMatrix, ir.Matrix),
                       (Ty.is_TTensor3D, ir.Tensor3D), (Ty.is_TSet, ir.Set), (Ty.is_TTuple, ir.Tuple)):
            if self.ctx.branch(is_(v.t)):
                return c
        return ir.Fn

    def stype_args(self, v):
        """get_args of a symbolic type: () for Int/Bool else 1-tuple"""
        return STypeArgs(v.t)

    def stype_args_get(self, v, k):
        t = v.t
        heads = [("TList", Ty.is_TList, Ty.list_of), ("TMatrix", Ty.is_TMatrix, Ty.matrix_of),
                 ("TTensor3D", Ty.is_TTensor3D, Ty.tensor_of), ("TSet", Ty.is_TSet, Ty.set_of)]
        if not (isinstance(k, int) and k == 0):
            self.unsupported("type argument index")
        for _, is_, sel in heads:
            if self.ctx.branch(is_(t)):
                return SType(z3.simplify(sel(t)))
        if self.ctx.branch(z3.Or(Ty.is_TInt(t), Ty.is_TBool(t))):
            self.raise_(IndexError, "tuple index out of range")
        if self.ctx.branch(Ty.is_TTuple(t)):
            return Opaque("tuple_alias", {"tyl": z3.simplify(Ty.tuple_of(t))})
        return Opaque("tuple_alias", {"tyl": z3.simplify(Ty.fn_of(t))})

    # ----------------------------------------------------------- comprehension
    def e_ListComp(self, n, env):
        return VList(self.comp(n, env, lambda e: self.ev(n.elt, e)))

    def e_GeneratorExp(self, n, env):
        return VIter(self.comp(n, env, lambda e: self.ev(n.elt, e)))

    def e_SetComp(self, n, env):
        return self.make_set(self.comp(n, env, lambda e: self.ev(n.elt, e)))

    def e_DictComp(self, n, env):
        segs = self.comp(n, env, lambda e: vtuple([self.ev(n.key, e), self.ev(n.value, e)]))
        d = VDict([])
        for s in segs:
            if isinstance(s, One):
                k, v = s.v.values()
                self.dict_set(d, self.split(k), v)
            else:
                if isinstance(s.val, Cases):
                    self.unsupported("dict comprehension by cases")
                k, v = s.val.values()
                d.entries = d.entries + [(Many(s.n, s.idx, k, s.cond), Many(s.n, s.idx, v, s.cond))]
        return d

    def comp(self, n, env, body):
        def run(gi, e):
            g = n.generators[gi]
            segs = self.seq(self.evs(g.iter, e))
            last = gi == len(n.generators) - 1

            def filt_env(v):
                e2 = Env(e.globs, e, e.qual, e.cls)
                self.assign(g.target, v, e2)
                return e2

            if last:
                def f(v):
                    return body(filt_env(v))
                fl = None
                if g.ifs:
                    def fl(v):
                        e2 = filt_env(v)
                        return all(self.truth(self.ev(c, e2)) for c in g.ifs)
                return self.map_seq(segs, f, fl)
            out = []
            for s in segs:
                if not isinstance(s, One):
                    self.unsupported("nested comprehension over a symbolic sequence")
                e2 = filt_env(self.split(s.v))
                if all(self.truth(self.ev(c, e2)) for c in g.ifs):
                    out.extend(run(gi + 1, e2))
            return out

        return run(0, env)

    def e_Lambda(self, n, env):
        return self.make_func(n, env, "<lambda>")

    def make_func(self, n, env, name):
        a = n.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kw = {x.arg: self.ev(d, env) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return VFunc(n, env.globs, env, env.qual + "." + name, defaults, kw, env.cls)

    def e_Starred(self, n, env):
        self.unsupported("starred")

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env)
        return v

    # ---------------------------------------------------------------- calls
    def e_Call(self, n, env):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            e = env
            while e is not None and "self" not in e.vars:
                e = e.parent
            return ("super", env.cls, e.vars["self"])
        f = self.evs(n.func, env)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.seq(self.evs(a.value, env)))
            else:
                args.append(One(self.ev(a, env)))
        for k in n.keywords:
            if k.arg is None:
                for kk, vv in self.dict_items(self.evs(k.value, env)):
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kwargs)

    def callv(self, f, *vals):
        return self.call(f, [One(v) for v in vals])

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        f = self.split(f)
        if isinstance(f, VBound):
            return self.call(f.fn, [One(f.self_)] + list(args), kwargs)
        if isinstance(f, SpecFn):
            return f.py(self, args, kwargs)
        if isinstance(f, VFunc):
            c = self.con.by_qual.get(f.qual)
            if c is not None and f.qual not in self.con.assumed.get("__inline__", ()):
                self.ctx.report.contracts_used.add(f.qual)
                self.called = f
                return c(self, args, kwargs)
            return self.run_func(f, args, kwargs)
        if isinstance(f, types.FunctionType):
            if id(f) in self.con.native:
                return self.con.native[id(f)](self, args, kwargs)
            if in_repo(f):
                return self.call(self.vfunc(f), args, kwargs)
        if isinstance(f, types.MethodType) and in_repo(f.__func__):
            return self.call(self.vfunc(f.__func__), [One(f.__self__)] + list(args), kwargs)
        if isinstance(f, functools.partial):
            kw = dict(f.keywords)
            kw.update(kwargs)
            return self.call(f.func, [One(a) for a in f.args] + list(args), kw)
        if isinstance(f, ClsOf):
            self.unsupported("call of a symbolic class")
        if isinstance(f, VObj):
            return self.call(self.getattr(f, "__call__"), args, kwargs)
        if isinstance(f, Opaque) and "__call__" in f.attrs:
            return self.call(f.attrs["__call__"], args, kwargs)
        h = self.con.native.get(id(f)) or BUILTINS.get(id(f))
        if h is not None:
            return h(self, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, typing._GenericAlias):
            o = typing.get_origin(f)
            return self.call(o, args, kwargs)
        if isinstance(f, SType):
            return self.call(self.stype_class(f), args, kwargs)
        # external code: only with concrete arguments
        if isinstance(f, Value):
            self.unsupported(f"call of {f!r}")
        try:
            vals = [self.native(self.split(a.v)) if isinstance(a, One) else self.unsupported("symbolic arguments for external code") for a in args]
            kw = {k: self.native(self.split(v)) for k, v in kwargs.items()}
        except Unsupported as e:
            raise Unsupported(f"external call {getattr(f, '__name__', f)}: {e}")
        try:
            return f(*vals, **kw)
        except (Unsupported, PathEnd, SymRaise, _Return, _Break, _Continue):
            raise
        except Exception as e:
            raise SymRaise(e)

    def vfunc(self, f):
        node = INDEX.find(f)
        env = None
        if f.__closure__:
            env = Env(f.__globals__, None, f.__qualname__)
            for nm, cell in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    env.vars[nm] = cell.cell_contents
                except ValueError:
                    pass
        cls = None
        parts = f.__qualname__.split(".")
        if len(parts) >= 2 and "<locals>" not in parts:
            cls = getattr(inspect.getmodule(f) or object, parts[-2], None) or f.__globals__.get(parts[-2])
        return VFunc(node, f.__globals__, env, qualname(f), list(f.__defaults__ or ()), dict(f.__kwdefaults__ or {}), cls)

    def bind_args(self, f, args, kwargs, env):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        segs = list(args)
        kwargs = dict(kwargs)
        given = {}
        for i, nm in enumerate(pos):
            # skip empty symbolic segments
            while segs and isinstance(segs[0], Many):
                s = segs[0]
                if s.cond is not None:
                    self.unsupported("filtered sequence as positional arguments")
                if self.ctx.branch(s.n > 0):
                    first = self.at(s, z3.IntVal(0))
                    segs = [One(first)] + self.drop_front([s], 1) + segs[1:]
                else:
                    segs.pop(0)
            if segs:
                given[nm] = segs.pop(0).v
                if nm in kwargs:
                    self.raise_(TypeError, f"multiple values for argument {nm}")
            elif nm in kwargs:
                given[nm] = kwargs.pop(nm)
            else:
                k = i - (len(pos) - len(f.defaults))
                if k >= 0:
                    given[nm] = f.defaults[k]
                else:
                    self.raise_(TypeError, f"missing argument {nm}")
        if a.vararg:
            given[a.vararg.arg] = VTuple(segs)
        else:
            for s in segs:
                if isinstance(s, Many) and not self.ctx.branch(s.n > 0):
                    continue
                self.raise_(TypeError, f"{f.qual}() takes {len(pos)} positional arguments")
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                given[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults:
                given[x.arg] = f.kwdefaults[x.arg]
            else:
                self.raise_(TypeError, f"missing keyword argument {x.arg}")
        if a.kwarg:
            given[a.kwarg.arg] = VDict(list(kwargs.items()))
        elif kwargs:
            self.raise_(TypeError, f"unexpected keyword argument {list(kwargs)[0]}")
        for k, v in given.items():
            env.vars[k] = v

    def run_func(self, f, args, kwargs):
        if len(self.stack) > self.MAXDEPTH:
            self.unsupported(f"call depth: recursion without a contract through {f.qual}")
        if self.stack.count(f.qual) >= 6 and f.qual.rsplit(".", 1)[-1] != "<lambda>":
            self.unsupported(f"recursion without a contract: {f.qual}")
        env = Env(f.globs, f.env, f.qual, f.cls)
        self.bind_args(f, args, kwargs, env)
        self.stack.append(f.qual)
        self.ctx.report.functions.add(f.qual)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
                return self.run_gen(f, env)
            try:
                self.block(f.node.body, env)
            except _Return as r:
                return r.v
            return None
        finally:
            self.stack.pop()

    def run_gen(self, f, env):
        env.yields = []
        try:
            self.block(f.node.body, env)
        except _Return:
            pass
        return VIter([One(v) for v in env.yields])

    def e_Yield(self, n, env):
        v = None if n.value is None else self.ev(n.value, env)
        e = env
        while not hasattr(e, "yields"):
            e = e.parent
        if self.ctx.nest_marks:
            self.unsupported("yield inside a summarised loop")
        e.yields.append(v)
        return None

    def instantiate(self, c, args, kwargs):
        if issubclass(c, BaseException):
            if not (getattr(c, "__module__", "").startswith("metalift")):
                return VObj([c], attrs={"args": VTuple(list(args))})
        mod = getattr(c, "__module__", "")
        o = VObj([c])
        init = inspect.getattr_static(c, "__init__", None)
        if isinstance(init, types.FunctionType) and in_repo(init):
            self.call(init, [One(o)] + list(args), kwargs)
            return o
        import dataclasses
        if dataclasses.is_dataclass(c):
            vals = [a.v for a in args]
            for i, fl in enumerate(dataclasses.fields(c)):
                if i < len(vals):
                    o.attrs[fl.name] = vals[i]
                elif fl.name in kwargs:
                    o.attrs[fl.name] = kwargs[fl.name]
                elif fl.default is not dataclasses.MISSING:
                    o.attrs[fl.name] = fl.default
                elif fl.default_factory is not dataclasses.MISSING:
                    o.attrs[fl.name] = self.call(fl.default_factory, [])
                else:
                    self.raise_(TypeError, "missing field " + fl.name)
            return o
        if issubclass(c, tuple) and hasattr(c, "_fields"):
            vals = [a.v for a in args]
            o = VTuple([One(v) for v in vals] + [One(kwargs[x]) for x in c._fields[len(vals):]])
            o.fields = c._fields
            return o
        if self.repo_class(c):
            if args or kwargs:
                if init is object.__init__:
                    self.raise_(TypeError, f"{c.__name__}() takes no arguments")
            return o
        try:
            vals = [self.native(self.split(a.v)) for a in args]
            kw = {k: self.native(self.split(v)) for k, v in kwargs.items()}
        except (Unsupported, AttributeError) as e:
            raise Unsupported(f"external class {c}: {e}")
        try:
            return c(*vals, **kw)
        except Exception as e:
            raise SymRaise(e)

    def repo_class(self, c):
        m = sys_modules_file(getattr(c, "__module__", ""))
        return m is not None and m.startswith(REPO + "/")

    # ------------------------------------------------------------- attributes
    def getattr(self, v, name):
        v = self.split(v)
        if isinstance(v, VObj):
            if name in v.attrs:
                x = v.attrs[name]
                if isinstance(x, Poison):
                    self.unsupported(f"attribute {name}: {x.why}")
                return x
            if name == "__class__":
                return v.cls if v.cls is not None else ClsOf(v)
            if name == "__dict__":
                return VDict(list(v.attrs.items()))
            if v.lazy and self.con.shape is not None:
                x = self.con.shape(self, v, name)
                if x is not NotImplemented:
                    return x
            return self.bind_attr(v, name)
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "super":
            _, cls, self_ = v
            mro = (self_.cls or cls).__mro__
            for c in mro[mro.index(cls) + 1:]:
                if name in c.__dict__:
                    return self.bind(c.__dict__[name], self_)
            self.raise_(AttributeError, name)
        if isinstance(v, Opaque):
            if name in v.attrs:
                return v.attrs[name]
            if self.con.opaque_attr is not None:
                x = self.con.opaque_attr(self, v, name)
                if x is not NotImplemented:
                    return x
            self.unsupported(f"attribute {name} of {v}")
        if isinstance(v, (Rope,)):
            return VBound(v, SpecFn(lambda it, a, k: it.str_method(name, a, k), "str." + name))
        if isinstance(v, str):
            return VBound(v, SpecFn(lambda it, a, k: it.str_method(name, a, k), "str." + name))
        if isinstance(v, VSeq):
            if hasattr(v, "fields") and name in v.fields:
                return v.items[v.fields.index(name)].v
            return VBound(v, SpecFn(lambda it, a, k: it.list_method(name, a, k), "list." + name))
        if isinstance(v, VDict):
            return VBound(v, SpecFn(lambda it, a, k: it.dict_method(name, a, k), "dict." + name))
        if isinstance(v, VSet):
            return VBound(v, SpecFn(lambda it, a, k: it.set_method(a[0].v, name, [x.v for x in a[1:]]), "set." + name))
        if isinstance(v, SType):
            h = self.con.stype_method.get(name)
            if h is None:
                return self.getattr(self.stype_class(v), name)
            return SpecFn(lambda it, a, k: h(it, v, a, k), "type." + name)
        if isinstance(v, ClsOf):
            if name == "__name__":
                return Rope([Atom(z3.Function("clsname", z3.IntSort(), z3.StringSort())(clsof(v.obj.id)), "clsname", v.obj)])
            self.unsupported(f"attribute {name} of a symbolic class")
        if isinstance(v, type):
            if (v, name) in self.ctx.class_overlay:
                return self.ctx.class_overlay[(v, name)]
        if isinstance(v, Value):
            self.unsupported(f"attribute {name} of {v!r}")
        if isinstance(v, (list, dict, set)) and not isinstance(v, type):
            # native container: use its contents
            if isinstance(v, list) and name in ("index", "count", "copy"):
                return VBound(vlist(v), SpecFn(lambda it, a, k: it.list_method(name, a, k), "list." + name))
            if isinstance(v, dict) and name in ("get", "items", "keys", "values", "copy"):
                return VBound(VDict(list(v.items())), SpecFn(lambda it, a, k: it.dict_method(name, a, k), "dict." + name))
            if isinstance(v, set) and name in ("union", "intersection", "difference", "copy", "issubset"):
                return VBound(self.as_vset(v), SpecFn(lambda it, a, k: it.set_method(a[0].v, name, [x.v for x in a[1:]]), "set." + name))
            self.unsupported(f"method {name} of a module-level container")
        try:
            return getattr(v, name)
        except AttributeError as e:
            raise SymRaise(e)

    def class_lookup(self, c, name):
        if (c, name) in self.ctx.class_overlay:
            return self.ctx.class_overlay[(c, name)]
        for k in c.__mro__:
            if (k, name) in self.ctx.class_overlay:
                return self.ctx.class_overlay[(k, name)]
            if name in k.__dict__:
                return k.__dict__[name]
        return self

    SKIP_OBJECT = {"__eq__", "__ne__", "__hash__", "__str__", "__repr__", "__init__"}

    def find_class_attr(self, v, name, optional=False):
        """raw class attribute; for an undetermined class, splits on the group of
        classes that share the definition"""
        groups = []
        for c in v.dom:
            x = self.class_lookup(c, name)
            owner = None
            if x is self or (name in self.SKIP_OBJECT and not isinstance(x, (types.FunctionType, staticmethod, classmethod, property, VFunc))):
                x = None
            for g in groups:
                if g[0] is x:
                    g[1].append(c)
                    break
            else:
                groups.append((x, [c]))
        if len(groups) > 1:
            if v.lazy and name in self.con.virtual:
                return SpecFn(lambda it, a, k: it.con.virtual[name](it, a[0].v, a[1:], k), "virtual." + name)
            for g in groups[:-1]:
                if self.branch_class(v, g[1]):
                    return g[0]
            self.narrow(v, groups[-1][1])
            groups = [groups[-1]]
        elif v.lazy and name in self.con.virtual and groups[0][0] is not None:
            return SpecFn(lambda it, a, k: it.con.virtual[name](it, a[0].v, a[1:], k), "virtual." + name)
        x = groups[0][0]
        if x is None and not optional:
            self.raise_(AttributeError, f"{v.dom[0].__name__} object has no attribute {name}")
        return x

    def narrow(self, v, classes):
        if len(classes) != len(v.dom):
            self.ctx.jset(v, "dom", tuple(c for c in v.dom if c in classes), lazy=True)

    def branch_class(self, v, classes):
        """branch on whether v's class is one of `classes`"""
        yes = [c for c in v.dom if c in classes]
        no = [c for c in v.dom if c not in classes]
        if not no:
            return True
        if not yes:
            return False
        if v.id is None:
            self.unsupported("class test on an object without identity")
        if self.ctx.branch(zor([clsof(v.id) == self.con.code(c) for c in yes])):
            self.narrow(v, yes)
            return True
        self.narrow(v, no)
        return False

    def bind_attr(self, v, name):
        x = self.find_class_attr(v, name, optional=True)
        if x is None:
            g = self.find_class_attr(v, "__getattr__", optional=True)
            if g is not None:
                return self.call(self.bind(g, v), [One(name)])
            if v.dom and issubclass(v.dom[0], BaseException) and name == "args":
                return VTuple([])
            self.raise_(AttributeError, f"{v.dom[0].__name__!r} object has no attribute {name!r}")
        return self.bind(x, v)

    def bind(self, x, v):
        if isinstance(x, staticmethod):
            return x.__func__
        if isinstance(x, classmethod):
            return VBound(v.cls, x.__func__)
        if isinstance(x, property):
            return self.call(x.fget, [One(v)])
        if isinstance(x, functools.cached_property):
            return self.call(x.func, [One(v)])
        if isinstance(x, (types.FunctionType, VFunc, SpecFn)):
            return VBound(v, x)
        return x

    def setattr(self, v, name, val):
        v = self.split(v)
        if self.con.setattr_hook is not None and self.con.setattr_hook(self, v, name, val):
            return
        if isinstance(v, VObj):
            if v.dom and len(v.dom) == 1:
                raw = self.class_lookup(v.dom[0], name)
                if isinstance(raw, property):
                    if raw.fset is None:
                        self.raise_(AttributeError, f"can't set attribute {name}")
                    return self.call(raw.fset, [One(v), One(val)])
            self.ctx.jset(v.attrs, name, val)
            return
        if isinstance(v, type):
            if name == "__hash__":
                return  # Object.__init__ re-installs Object.__hash__; hash() is modelled by contract
            self.ctx.jset(self.ctx.class_overlay, (v, name), val)
            return
        if isinstance(v, Opaque):
            self.unsupported(f"store to {v}.{name}")
        self.unsupported(f"store to attribute {name} of {v!r}")

    # ------------------------------------------------------------- str / repr
    def str_(self, v):
        v = self.split(v)
        if isinstance(v, (str, Rope)):
            return v
        if isinstance(v, Sym):
            t = z3.simplify(v.t)
            if z3.is_int_value(t):
                return str(t.as_long())
            if v.is_bool:
                return "True" if self.ctx.branch(v.t) else "False"
            return Rope([DecAtom(v.t)])
        if isinstance(v, VObj):
            if v.dom and issubclass(v.dom[0], BaseException):
                return Rope([Atom(z3.Const("excstr", z3.StringSort()), "exc")])
            for nm in ("__str__", "__repr__"):
                m = self.find_class_attr(v, nm, optional=True)
                if m is not None:
                    return self.split(self.call(self.bind(m, v), []))
            return Rope([Atom(z3.Const(f"objrepr{v.sn}", z3.StringSort()), "objrepr", v)])
        if isinstance(v, Opaque) and "__str__" in v.attrs:
            return v.attrs["__str__"] if not isinstance(v.attrs["__str__"], SpecFn) else self.call(v.attrs["__str__"], [])
        if isinstance(v, (VSeq, VDict, VSet, SType, STypeArgs, VFunc, ClsOf, Opaque, VBound)):
            return Rope([Atom(z3.Const(f"str{serial()}", z3.StringSort()), "opaque-str", v)])
        if isinstance(v, Value):
            self.unsupported(f"str of {v!r}")
        return str(v)

    def repr_(self, v):
        v = self.split(v)
        if isinstance(v, VObj):
            m = self.find_class_attr(v, "__repr__", optional=True)
            if m is not None:
                return self.split(self.call(self.bind(m, v), []))
        if isinstance(v, Rope):
            return Rope([Atom(z3.Const(f"repr{serial()}", z3.StringSort()), "opaque-str", v)])
        if isinstance(v, Value):
            return self.str_(v)
        return repr(v)

    # ------------------------------------------------------------- statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, n, env):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.unsupported("statement " + type(n).__name__)
        self.line = getattr(n, "lineno", None)
        m(n, env)

    def s_Expr(self, n, env):
        if isinstance(n.value, ast.Constant):
            return
        self.ev(n.value, env)

    def s_Pass(self, n, env):
        pass

    def s_Assign(self, n, env):
        v = self.ev(n.value, env)
        for t in n.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, n, env):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, env), env)

    def s_AugAssign(self, n, env):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.split(self.lookup(t.id, env))
            v = self.evs(n.value, env)
            self.assign(t, self.inplace(type(n.op), cur, v), env)
        elif isinstance(t, ast.Attribute):
            o = self.evs(t.value, env)
            cur = self.split(self.getattr(o, t.attr))
            v = self.evs(n.value, env)
            self.setattr(o, t.attr, self.inplace(type(n.op), cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.evs(t.value, env)
            k = self.evs(t.slice, env)
            cur = self.split(self.getitem(o, k))
            v = self.evs(n.value, env)
            self.setitem(o, k, self.inplace(type(n.op), cur, v))
        else:
            self.unsupported("augmented assignment target")

    def inplace(self, op, cur, v):
        if isinstance(cur, VList) and op is ast.Add:
            self.ctx.jset(cur, "items", list(cur.items) + self.seq(v))
            return cur
        if isinstance(cur, VSet) and op is ast.BitOr:
            self.set_method(cur, "update", [v])
            return cur
        if isinstance(cur, (list, dict, set)) and not isinstance(cur, Value):
            self.unsupported("in-place update of a module-level container")
        return self.binop(op, cur, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.globals_:
                self.unsupported("assignment to a global")
            if t.id in env.nonlocals:
                e = env.parent
                while t.id not in e.vars:
                    e = e.parent
            self.ctx.jset(e.vars, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.split(v)
            segs = self.seq(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                self.unsupported("starred assignment")
            vals = []
            for i in range(len(t.elts)):
                while segs and isinstance(segs[0], Many):
                    s = segs[0]
                    if self.ctx.branch(s.n > 0):
                        segs = [One(self.at(s, z3.IntVal(0)))] + self.drop_front([s], 1) + segs[1:]
                    else:
                        segs = segs[1:]
                if not segs:
                    self.raise_(ValueError, "not enough values to unpack")
                vals.append(segs.pop(0).v)
            for s in segs:
                if isinstance(s, One) or self.ctx.branch(s.n > 0):
                    self.raise_(ValueError, "too many values to unpack")
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.evs(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.evs(t.value, env)
            if isinstance(t.slice, ast.Slice):
                g = lambda e: None if e is None else self.native(self.evs(e, env))
                lo, hi = g(t.slice.lower), g(t.slice.upper)
                if isinstance(o, VList) and lo is not None and lo >= 0 and hi is None and all(isinstance(s, One) for s in o.items[:lo]) and len(o.items) >= lo:
                    self.ctx.jset(o, "items", list(o.items[:lo]) + self.seq(v))
                    return
                self.unsupported("slice assignment")
            self.setitem(o, self.evs(t.slice, env), v)
        else:
            self.unsupported("assignment target")

    def setitem(self, o, k, v):
        o = self.split(o)
        if isinstance(o, VDict):
            self.dict_set(o, k, v)
        elif isinstance(o, VObj):
            self.call(self.getattr(o, "__setitem__"), [One(k), One(v)])
        elif isinstance(o, VList):
            k = self.native(k)
            items = list(o.items)
            if k < 0 and o.concrete():
                k += len(items)
            if 0 <= k < len(items) and all(isinstance(s, One) for s in items[:k + 1]):
                items[k] = One(v)
                self.ctx.jset(o, "items", items)
            elif o.concrete():
                self.raise_(IndexError, "assignment index out of range")
            else:
                self.unsupported("store into a symbolic list")
        elif isinstance(o, Opaque) and "__setitem__" in o.attrs:
            self.call(o.attrs["__setitem__"], [One(k), One(v)])
        else:
            self.unsupported(f"item assignment to {o!r}")

    def s_Delete(self, n, env):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                o = self.evs(t.value, env)
                k = self.evs(t.slice, env)
                if isinstance(o, VDict):
                    self.dict_del(o, k)
                    continue
                if isinstance(o, Opaque) and "__delitem__" in o.attrs:
                    self.call(o.attrs["__delitem__"], [One(k)])
                    continue
            elif isinstance(t, ast.Name):
                self.ctx.jset(env.vars, t.id, Poison("deleted"))
                continue
            self.unsupported("del")

    def s_If(self, n, env):
        if self.truth(self.ev(n.test, env)):
            self.block(n.body, env)
        else:
            self.block(n.orelse, env)

    def s_Return(self, n, env):
        raise _Return(None if n.value is None else self.ev(n.value, env))

    def s_Break(self, n, env):
        raise _Break()

    def s_Continue(self, n, env):
        raise _Continue()

    def s_Raise(self, n, env):
        if n.exc is None:
            raise SymRaise(getattr(self, "current_exc", VObj([Exception])))
        v = self.evs(n.exc, env)
        if isinstance(v, type):
            v = self.instantiate(v, [], {})
        raise SymRaise(v)

    def s_Assert(self, n, env):
        if not self.truth(self.ev(n.test, env)):
            self.raise_(AssertionError)

    def s_FunctionDef(self, n, env):
        f = self.make_func(n, env, n.name)
        for d in reversed(n.decorator_list):
            f = self.call(self.evs(d, env), [One(f)])
        self.ctx.jset(env.vars, n.name, f)

    def s_Global(self, n, env):
        env.globals_.update(n.names)

    def s_Nonlocal(self, n, env):
        env.nonlocals.update(n.names)

    def s_Import(self, n, env):
        import importlib
        for a in n.names:
            m = importlib.import_module(a.name)
            if a.asname:
                self.ctx.jset(env.vars, a.asname, m)
            else:
                top = a.name.split(".")[0]
                self.ctx.jset(env.vars, top, importlib.import_module(top))

    def s_ImportFrom(self, n, env):
        import importlib
        m = importlib.import_module(n.module)
        for a in n.names:
            self.ctx.jset(env.vars, a.asname or a.name, getattr(m, a.name))

    def s_Try(self, n, env):
        try:
            self.block(n.body, env)
        except SymRaise as e:
            exc = e.value
            for h in n.handlers:
                if h.type is None:
                    ok = True
                else:
                    ty = self.evs(h.type, env)
                    tys = ty.values() if isinstance(ty, VTuple) else list(ty) if isinstance(ty, tuple) else [ty]
                    c = exc.dom[0] if isinstance(exc, VObj) else type(exc)
                    ok = any(issubclass(c, t) for t in tys)
                if ok:
                    if h.name:
                        self.ctx.jset(env.vars, h.name, exc)
                    old = getattr(self, "current_exc", None)
                    self.current_exc = exc
                    try:
                        self.block(h.body, env)
                    finally:
                        self.current_exc = old
                    break
            else:
                if n.finalbody:
                    self.block(n.finalbody, env)
                raise
        else:
            self.block(n.orelse, env)
        if n.finalbody:
            self.block(n.finalbody, env)

    def s_With(self, n, env):
        ms = []
        for it in n.items:
            m = self.evs(it.context_expr, env)
            v = self.call(self.getattr(m, "__enter__"), [])
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            ms.append(m)
        self.block(n.body, env)
        for m in reversed(ms):
            self.call(self.getattr(m, "__exit__"), [One(None), One(None), One(None)])

    def s_While(self, n, env):
        inv = self.con.whiles.get(self.stack[-1]) if self.stack else None
        if inv is not None:
            return self.while_inv(n, env, inv)
        k = 0
        while True:
            t = self.truth_term(self.ev(n.test, env))
            if not isinstance(t, bool):
                t2 = z3.simplify(t)
                if not (z3.is_true(t2) or z3.is_false(t2)):
                    h = self.con.assumed.get("while")
                    self.unsupported("while loop with a symbolic condition and no invariant")
                t = z3.is_true(t2)
            if not t:
                self.block(n.orelse, env)
                return
            k += 1
            if k > 200:
                self.unsupported("while loop: no bound found")
            try:
                self.block(n.body, env)
            except _Break:
                return
            except _Continue:
                continue

    def while_inv(self, n, env, spec):
        """while loop with an invariant given by a contract (partial correctness):
        spec.havoc(it, env, name) is an arbitrary value of a variable assigned in the
        body, spec.inv(it, env) the invariant"""
        ctx = self.ctx
        stored = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        spec.check(self, env, "at the start")
        for nm in sorted(stored):
            spec.havoc(self, env, nm)
        spec.assume(self, env)

        def one():
            if not self.truth(self.ev(n.test, env)):
                return False
            try:
                self.block(n.body, env)
            except _Continue:
                pass
            return True

        def probe():
            try:
                one()
            except (_Break, _Return, SymRaise):
                pass
        ctx.nested(probe)
        if any(not (o is env.vars and a in stored) and not (a == "dom" and isinstance(o, VObj) or o is ctx.scratch) for o, a in ctx.nest_mods):
            self.unsupported("while loop modifies more than variables")
        try:
            if not one():
                self.block(n.orelse, env)
                return
        except _Break:
            return
        spec.check(self, env, "after one more iteration")
        raise PathEnd()

    def s_For(self, n, env):
        segs = self.seq(self.evs(n.iter, env))
        try:
            for s in segs:
                if isinstance(s, One):
                    self.assign(n.target, self.split(s.v), env)
                    try:
                        self.block(n.body, env)
                    except _Continue:
                        pass
                elif isinstance(s, Many):
                    f = self.con.folds.get(self.stack[-1]) if self.stack else None
                    if f is not None and f.applies(self, s, env):
                        self.loop_fold(n, s, env, f)
                    else:
                        self.loop_many(n, s, env)
                else:
                    self.unsupported("loop over a partially built list")
        except _Break:
            return
        self.block(n.orelse, env)

    # ---- loop summarisation: the invariant "accumulator = initial value followed
    # by one contribution per processed element" is established by executing the
    # body once from an arbitrary state of the accumulator for an arbitrary element
    def loop_many(self, n, m, env):
        ctx = self.ctx
        if not self.con.maybe_empty and not ctx.branch(m.n > 0) or ctx.sat(m.n > 0) == z3.unsat:
            return
        tnames = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}

        def body(val):
            self.assign(n.target, val, env)
            try:
                self.block(n.body, env)
                return "next"
            except _Continue:
                return "next"
            except _Break:
                return "break"
            except _Return as r:
                return ("return", r)
            except SymRaise as e:
                return ("raise", e)

        # pass 1: which locations does the body modify?
        accs = []
        for _ in range(6):
            def probe():
                marks = {}
                loop = [m, None, []]
                for (o, a) in accs:
                    self.set_marker(o, a, marks, loop)
                with self.generic(m) as (val, idx):
                    val = loop[1] = self.split(val)
                    body(val)
                return None
            ctx.nested(probe)
            new = [(o, a) for (o, a) in ctx.nest_mods if not any(o is x and a == y for x, y in accs)]
            new = [(o, a) for (o, a) in new if not (a == "dom" and isinstance(o, VObj))]
            if not new:
                break
            accs.extend(new)
        else:
            self.unsupported("loop modifies an unbounded set of locations")

        # pass 2: effect of one iteration from an arbitrary accumulator state
        def step():
            marks = {}
            loop = [m, None, []]
            for (o, a) in accs:
                self.set_marker(o, a, marks, loop)
            with self.generic(m) as (val, idx):
                val = loop[1] = self.split(val)
                out = body(val)
                eff = []
                if out == "next":
                    for i, (o, a) in enumerate(accs):
                        eff.append(self.effect(o, a, marks[i], tnames))
                return (out, eff, idx)

        res = ctx.nested(step)
        exits, conts = [], []
        idx = None
        for br, facts, (out, eff, ix) in res:
            idx = ix if idx is None else idx
            (conts if out == "next" else exits).append((zand(br), zand(facts), eff))
        if idx is None:
            # no feasible iteration
            ctx.assume(m.n <= 0)
            return
        if not idx.eq(m.idx):
            sub = [(idx, m.idx)]
            fx = lambda l: [(z3.substitute(c, *sub), z3.substitute(fa, *sub), [(k, vsubst(tuple(x) if isinstance(x, list) else x, sub)) for k, x in e]) for c, fa, e in l]
            exits, conts = fx(exits), fx(conts)

        def apply_prefix(n_):
            """state after n_ completed iterations"""
            for i, (o, a) in enumerate(accs):
                seg = Many(n_, m.idx, m.val, m.cond)
                seg.pos, seg.key = (m.pos, m.key) if n_ is m.n else (None, None)
                self.apply_effects(o, a, [(c, e[i]) for c, _, e in conts], seg)

        early = exits and ctx.choose(2) == 1
        if early:
            k = ctx.fresh(z3.IntSort(), "k")
            ctx.assume(z3.And(k >= 0, k < m.n))
            ctx.instantiate(m.n, k)
            if m.cond is not None:
                ctx.assume(z3.substitute(m.cond, (m.idx, k)))
            if conts:
                # earlier iterations did not exit
                apply_prefix(k)
            else:
                ctx.assume(k == 0)
            val = self.split(vsubst(m.val, [(m.idx, k)]))
            out = body(val)
            if out == "next":
                raise PathEnd()
            if out == "break":
                raise _Break()
            raise out[1]
        if not conts:
            if m.cond is None:
                ctx.assume(m.n <= 0)
            else:
                ctx.add_univ(m.n, m.idx, z3.Not(z3.And(m.idx >= 0, m.idx < m.n, m.cond)))
            return
        if exits:
            f = z3.Not(zor([c for c, _, _ in exits]))
            ctx.add_univ(m.n, m.idx, f if m.cond is None else z3.Implies(m.cond, f))
        if len(conts) > 1:
            inr = [m.idx >= 0, m.idx < m.n] + ([m.cond] if m.cond is not None else [])
            ctx.add_univ(m.n, m.idx, z3.Implies(z3.And(inr), zor([c for c, _, _ in conts])))
        for c, fa, _ in conts:
            if not z3.is_true(z3.simplify(fa)):
                ctx.add_univ(m.n, m.idx, z3.Implies(z3.And(m.idx >= 0, m.idx < m.n, c), fa))
        apply_prefix(m.n)

    def loop_fold(self, n, m, env, spec):
        """loop with an invariant given by a contract: spec.havoc(it, loc, k) is the
        value of a modified location after k iterations, spec.check(it, locs, k)
        proves that the state is one the invariant allows"""
        ctx = self.ctx
        if not ctx.branch(m.n > 0):
            return

        def body(val):
            self.assign(n.target, val, env)
            try:
                self.block(n.body, env)
            except _Continue:
                pass

        tnames = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        stored = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

        def locations(locs):
            def probe():
                for l in locs:
                    spec.havoc(self, l, ctx.fresh(z3.IntSort(), "k"))
                k = ctx.fresh(z3.IntSort(), "k")
                ctx.assume(z3.And(k >= 0, k < m.n))
                try:
                    body(self.split(vsubst(m.val, [(m.idx, k)])))
                except (_Break, _Return, SymRaise):
                    pass
            ctx.nested(probe)
            out = list(locs)
            for o, a in ctx.nest_mods:
                if o is env.vars and (a in tnames or a in stored and a not in env.vars):
                    continue        # local to an iteration
                if a == "dom" and isinstance(o, VObj) or o is ctx.scratch:
                    continue
                if not any(o is x and a == y for x, y in out):
                    out.append((o, a))
            return out
        locs = []
        for _ in range(4):
            new = locations(locs)
            if len(new) == len(locs):
                break
            locs = new
        else:
            self.unsupported("loop modifies an unbounded set of locations")
        spec.check(self, locs, z3.IntVal(0), m)
        way = ctx.choose(2)
        k = ctx.fresh(z3.IntSort(), "k")
        if way == 0:
            ctx.assume(k == m.n)
        else:
            ctx.assume(z3.And(k >= 0, k < m.n))
        for l in locs:
            spec.havoc(self, l, k)
        spec.assume(self, locs, k, m)
        for nm in stored | tnames:
            if not any(o is env.vars and a == nm for o, a in locs):
                ctx.jset(env.vars, nm, Poison("local to an iteration"))
        if way == 0:
            return
        ctx.instantiate(m.n, k)
        val = self.split(vsubst(m.val, [(m.idx, k)]))
        spec.begin(self, val, k, m)
        body(val)
        spec.check(self, locs, z3.simplify(k + 1), m)
        raise PathEnd()

    def any_members(self):
        """a set (of strings) about which nothing is known"""
        f = z3.Function(f"member!{serial()}", z3.StringSort(), z3.BoolSort())

        def base(it, s, x):
            t = it.str_term(rope(x))
            if t is None:
                it.unsupported("membership of a text")
            return f(t)
        return base

    def cur(self, o, a):
        d = o if isinstance(o, dict) else o.__dict__
        return d.get(a, Poison("unset"))

    def set_marker(self, o, a, marks, loop):
        v = self.cur(o, a)
        i = len(marks)
        if isinstance(o, VSeq) and a == "items":
            p = PrefixSeg()
            marks[i] = ("items", p)
            self.ctx.jset(o, a, [p])
        elif isinstance(o, VDict) and a == "entries":
            marks[i] = ("entries", len(v), list(v))
        elif isinstance(o, VSet) and a == "items":
            p = PrefixSeg()
            marks[i] = ("setitems", p)
            self.ctx.jset(o, a, [p])
        elif isinstance(v, (str, Rope)) and isinstance(o, Vars):
            p = Marker()
            marks[i] = ("str", p)
            self.ctx.jset(o, a, Rope([p]))
        elif isinstance(v, (int, Sym)) and not isinstance(v, bool) and not (isinstance(v, Sym) and v.is_bool) and isinstance(o, Vars):
            t = z3.Int(f"acc!{serial()}")
            marks[i] = ("int", t)
            self.ctx.jset(o, a, Sym(t))
        elif isinstance(v, VTuple) and isinstance(o, Vars):
            p = PrefixSeg()
            marks[i] = ("tuple", p)
            self.ctx.jset(o, a, VTuple([p]))
        elif isinstance(o, VSet) and a == "base" and (v is None or callable(v)):
            # earlier iterations removed at most their own elements
            marks[i] = ("setbase", loop)
            base = self.any_members()
            if loop[0].distinct and callable(v):
                some, orig = base, v

                def base(it, s, x):
                    return z3.If(it._tt(it.ident_or_eq(x, loop[1])), it._tt(Sym(orig(it, s, x))) if z3.is_expr(orig(it, s, x)) else z3.BoolVal(orig(it, s, x)), some(it, s, x))
            base.removed = ()
            self.ctx.jset(o, a, base)
        else:
            marks[i] = ("other", v)
            self.ctx.jset(o, a, Poison(f"{a} is rewritten in every iteration"))

    def effect(self, o, a, mark, tnames):
        v = self.cur(o, a)
        kind = mark[0]
        if kind == "setbase":
            loop = mark[1]
            gone = getattr(v, "removed", None)
            if loop[0].distinct and (gone is None or any(self.ident_or_eq(g, loop[1]) is not True and not self.ctx.must(self._tt(self.ident_or_eq(g, loop[1]))) for g in gone)):
                self.unsupported("a loop removes other elements than its own from a set")
            return ("havoc", None)
        if kind in ("items", "setitems"):
            p = mark[1]
            if v and v[0] is p and not any(isinstance(s, PrefixSeg) for s in v[1:]):
                return ("append", tuple(v[1:]) and VList(v[1:]))
            if v and v[-1] is p and len(v) > 1 and kind == "items":
                return ("prepend", VList(v[:-1]))
            return ("havoc", None)
        if kind == "tuple":
            p = mark[1]
            if isinstance(v, VTuple) and v.items and v.items[0] is p:
                return ("append", VList(v.items[1:]) if v.items[1:] else ())
            return ("havoc", None)
        if kind == "entries":
            if v[:mark[1]] == mark[2] and len(v) > mark[1] and all(x is DELETED for _, x in v[mark[1]:]):
                return ("dictdel", None)
            if v[:mark[1]] == mark[2]:
                return ("dict", VList([One(vtuple([k, x])) for k, x in v[mark[1]:]]))
            return ("havoc", None)
        if kind == "str":
            if isinstance(v, Rope) and v.parts and v.parts[0] is mark[1] and not any(isinstance(p, Marker) for p in v.parts[1:]):
                return ("append", Rope(v.parts[1:]))
            return ("havoc", None)
        if kind == "int":
            if isinstance(v, Sym):
                d = z3.simplify(v.t - mark[1])
                if not _mentions(d, mark[1]):
                    return ("add", Sym(d))
            return ("havoc", None)
        return ("havoc", None)

    def apply_effects(self, o, a, effs, m):
        ctx = self.ctx
        v = self.cur(o, a)
        kinds = {e[0] for _, e in effs}

        def cases():
            return [(c, x) for c, (_, x) in effs]
        if "havoc" in kinds and isinstance(o, VSet) and a == "base" and (v is None or callable(v)):
            ctx.jset(o, a, self.any_members())
            return
        if "havoc" in kinds:
            ctx.jset(o, a, Poison(f"{a} after a loop over a symbolic sequence"))
            return
        if kinds == {"append"} and isinstance(o, VSeq) or kinds == {"append"} and isinstance(o, VSet) or kinds == {"append"} and isinstance(v, VTuple):
            contrib = [(c, list(x.items) if isinstance(x, VSeq) else []) for c, x in cases()]
            ln = {len(x) for _, x in contrib}
            new = []
            if max(ln) == 0:
                return
            if max(ln) > 1:
                if len(contrib) == 1 and all(isinstance(s, One) for s in contrib[0][1]):
                    # several items per iteration
                    ctx.jset(o, a, Poison("several items appended per iteration"))
                    return
                ctx.jset(o, a, Poison("irregular appends"))
                return
            full = [(c, x[0]) for c, x in contrib if x]
            if any(not isinstance(s, One) for _, s in full):
                ctx.jset(o, a, Poison("nested sequence appended"))
                return
            val = mkcases([(c, s.v) for c, s in full])
            cond = m.cond
            if len(full) < len(contrib):
                kc = zor([c for c, _ in full])
                cond = kc if cond is None else z3.And(cond, kc)
            seg = Many(m.n, m.idx, val, cond)
            if isinstance(v, VTuple):
                ctx.jset(o, a, VTuple(list(v.items) + [seg]))
            else:
                ctx.jset(o, a, list(v) + [seg])
            return
        if kinds == {"append"} and isinstance(v, (str, Rope)):
            cs = cases()
            val = mkcases([(c, unrope(x)) for c, x in cs])
            ctx.jset(o, a, unrope(Rope(rope(v).parts + [JoinPart("", Many(m.n, m.idx, val, m.cond))])))
            return
        if kinds == {"add"} and isinstance(v, (int, Sym)):
            cs = cases()
            if len(cs) == 1 and z3.is_int_value(cs[0][1].t) and m.cond is None:
                ctx.jset(o, a, Sym(z3.simplify(self.num(v) + cs[0][1].t * m.n)))
            else:
                ctx.jset(o, a, Poison("sum over a symbolic sequence"))
            return
        if kinds <= {"dict", "dictdel"} and "dictdel" in kinds and isinstance(o, VDict) and not v and o.base is not None \
                and all(k == "dictdel" or not x.items for _, (k, x) in effs):
            # some of the entries were removed: any subset may remain
            keep = z3.Function(f"kept!{serial()}", z3.StringSort(), z3.BoolSort())
            old = o.base

            def base(it, d, k):
                f, val = old(it, d, k)
                return z3.And(f, keep(it.str_term(rope(k)))), val
            if hasattr(old, "keys"):
                base.keys = lambda it, d: VIter([Many(x.n, x.idx, x.val, zand([keep(it.str_term(rope(x.val)))] + ([x.cond] if x.cond is not None else []))) for x in old.keys(it, d).items])
            ctx.jset(o, "base", base)
            return
        if kinds == {"dict"} and isinstance(o, VDict):
            cs = [(c, list(x.items)) for c, x in cases()]
            if m.pos is not None and all(len(x) <= 1 for _, x in cs) and any(x for _, x in cs):
                # every iteration writes under its own key only
                key = self.seg_key(m)
                with_ = [(c, x[0].v.values()) for c, x in cs if x]
                if key is not None and all(vkey(k) == vkey(key) for _, (k, _) in with_):
                    val = mkcases([(c, x) for c, (_, x) in with_])
                    cond = zor([c for c, _ in with_]) if len(with_) < len(cs) else None
                    if m.cond is not None:
                        cond = m.cond if cond is None else z3.And(m.cond, cond)
                    seg = Many(m.n, m.idx, val, cond)
                    seg.pos, seg.key = m.pos, m.key
                    ctx.jset(o, "base", self.family_base(o, list(v), o.base, seg))
                    ctx.jset(o, a, [])
                    return
            if len(cs) == 1 and len(cs[0][1]) == 1:
                k, x = cs[0][1][0].v.values()
                ctx.jset(o, a, list(v) + [(Many(m.n, m.idx, k, m.cond), Many(m.n, m.idx, x, m.cond))])
                return
            if all(len(x) == 0 for _, x in cs):
                return
            if all(len(x) == 1 for _, x in cs):
                k = mkcases([(c, x[0].v.values()[0]) for c, x in cs])
                x = mkcases([(c, x[0].v.values()[1]) for c, x in cs])
                ctx.jset(o, a, list(v) + [(Many(m.n, m.idx, k, m.cond), Many(m.n, m.idx, x, m.cond))])
                return
        ctx.jset(o, a, Poison(f"{a} after a loop over a symbolic sequence"))

    def seg_key(self, m):
        """the distinct key of the elements of a segment with an index function"""
        if m.key is not None:
            return m.key
        v = m.val
        if isinstance(v, VTuple) and v.items and isinstance(v.items[0], One):
            v = v.items[0].v
        return v if isinstance(v, Rope) else None

    def family_base(self, o, entries, old, seg):
        """content of a dictionary in which the keys of a segment were set"""
        tail = VDict(entries, old)

        def base(it, d, k):
            inn, p = seg.pos(it, k)
            p_ = p
            it.ctx.instantiate(seg.n, p_)
            c = z3.And(inn, p_ >= 0, p_ < seg.n)
            if seg.cond is not None:
                c = z3.And(c, z3.substitute(seg.cond, (seg.idx, p_)))
            if it.ctx.branch(c):
                return True, vsubst(seg.val, [(seg.idx, p_)])
            f, v = it.dict_find(tail, k)
            return f, (v.make if isinstance(v, Thunk) else v)

        def deepcopy(it, memo):
            s2 = deepcopy_seg(it, seg, memo)
            t2 = deepcopy_value(it, tail, memo)
            b = it.family_base(None, t2.entries, t2.base, s2)
            b.origin = getattr(base, "origin", base)
            return b
        base.deepcopy = deepcopy
        base.origin = base
        return base

    # ------------------------------------------------------------- str methods
    def str_method(self, name, args, kwargs):
        s = self.split(args[0].v)
        rest = args[1:]
        if name == "join":
            return self.join(s, self.seq(rest[0].v))
        vals = [self.split(a.v) for a in rest]
        if isinstance(s, str) and all(self.is_native(v) for v in vals) and not kwargs:
            try:
                r = getattr(s, name)(*[self.native(v) for v in vals])
            except Exception as e:
                raise SymRaise(e)
            return vlist(r) if isinstance(r, list) else r
        if name in ("startswith", "endswith"):
            pre = vals[0]
            if isinstance(pre, (VTuple, tuple)):
                rs = [self.str_method(name, [args[0], One(p)], {}) for p in (pre.values() if isinstance(pre, VTuple) else pre)]
                if any(r is True for r in rs):
                    return True
                ts = [r.t for r in rs if isinstance(r, Sym)]
                return Sym(zor(ts)) if ts else False
            r = rope(s)
            if isinstance(pre, str):
                if name == "startswith" and r.parts and isinstance(r.parts[0], str):
                    p0 = r.parts[0]
                    if len(p0) >= len(pre):
                        return p0.startswith(pre)
                    if not pre.startswith(p0):
                        return False
                if name == "endswith" and r.parts and isinstance(r.parts[-1], str):
                    p0 = r.parts[-1]
                    if len(p0) >= len(pre):
                        return p0.endswith(pre)
                    if not pre.endswith(p0):
                        return False
            t, p = self.str_term(r), self.str_term(rope(pre))
            if t is None or p is None:
                self.unsupported("startswith on a symbolic string")
            return Sym(z3.simplify(z3.PrefixOf(p, t) if name == "startswith" else z3.SuffixOf(p, t)))
        if name == "strip" or name == "rstrip" or name == "lstrip":
            h = self.con.by_qual.get("str." + name)
            if h:
                return h(self, args, kwargs)
        h = self.con.by_qual.get("str." + name)
        if h:
            return h(self, args, kwargs)
        if name == "format":
            self.unsupported("str.format")
        self.unsupported(f"str.{name} on a symbolic string")

    def join(self, sep, segs):
        sep = unrope(rope(sep))
        if not isinstance(sep, str):
            self.unsupported("symbolic separator")
        parts = []
        prev = []
        for s in segs:
            if isinstance(s, One):
                if prev:
                    parts.append(sep if any(isinstance(p, One) for p in prev) else OptSep(sep, list(prev), [s]))
                v = self.split(s.v)
                if not isinstance(v, (str, Rope)):
                    self.raise_(TypeError, "sequence item: expected str instance")
                parts.extend(rope(v).parts)
                prev.append(s)
            elif isinstance(s, Many):
                ok = self.map_many(s, lambda v: v if isinstance(v, (str, Rope)) else self.raise_(TypeError, "join of a non-string"))
                if ok is None:
                    continue
                if prev:
                    parts.append(OptSep(sep, list(prev), [s]))
                parts.append(JoinPart(sep, s))
                prev.append(s)
            else:
                self.unsupported("join over a partially built list")
        return unrope(Rope(parts))

    # ------------------------------------------------------------ list methods
    def list_method(self, name, args, kwargs):
        l = args[0].v
        rest = args[1:]
        j = self.ctx.jset
        if isinstance(l, VTuple) and name not in ("index", "count"):
            self.raise_(AttributeError, "tuple." + name)
        if name == "append":
            j(l, "items", list(l.items) + [One(rest[0].v)])
            return None
        if name == "extend":
            j(l, "items", list(l.items) + self.seq(rest[0].v))
            return None
        if name == "insert":
            k = self.native(rest[0].v)
            if k == 0 or all(isinstance(s, One) for s in l.items[:k] if k > 0) and k >= 0:
                j(l, "items", list(l.items[:k]) + [One(rest[1].v)] + list(l.items[k:]))
                return None
            self.unsupported("list.insert")
        if name == "pop":
            k = self.native(rest[0].v) if rest else -1
            items = list(l.items)
            if not items:
                self.raise_(IndexError, "pop from empty list")
            if isinstance(items[k], One) and (k == -1 or k == 0 or l.concrete()):
                v = items.pop(k).v
                j(l, "items", items)
                return v
            self.unsupported("list.pop on a symbolic list")
        if name == "copy":
            return VList(list(l.items))
        if name == "clear":
            j(l, "items", [])
            return None
        if name == "reverse":
            if l.concrete():
                j(l, "items", list(reversed(l.items)))
                return None
        if name == "index":
            for i, s in enumerate(l.items):
                if not isinstance(s, One):
                    h = self.con.by_qual.get("list.index")
                    if h:
                        return h(self, args, kwargs)
                    self.unsupported("index in a symbolic list")
                if self.ctx.branch(self.ident_or_eq(self.split(s.v), rest[0].v)):
                    return i
            self.raise_(ValueError, "not in list")
        if name == "remove":
            for i, s in enumerate(l.items):
                if not isinstance(s, One):
                    self.unsupported("remove from a symbolic list")
                if self.ctx.branch(self.ident_or_eq(self.split(s.v), rest[0].v)):
                    j(l, "items", list(l.items[:i]) + list(l.items[i + 1:]))
                    return None
            self.raise_(ValueError, "not in list")
        if name == "__iter__":
            return VIter(list(l.items))
        if name == "__len__":
            return self.seq_len(l.items)
        if name in ("sort",) and not l.concrete():
            # some permutation of the elements
            if len(l.items) != 1 or not isinstance(l.items[0], Many) or l.items[0].cond is not None:
                self.unsupported("sort of a symbolic list")
            m = l.items[0]
            u = serial()
            P, Q = (z3.Function(f"{c}!{u}", z3.IntSort(), z3.IntSort()) for c in ("perm", "perminv"))
            for i in (m.idx,):
                self.ctx.add_univ(m.n, m.idx, z3.Implies(z3.And(i >= 0, i < m.n), z3.And(P(i) >= 0, P(i) < m.n, Q(P(i)) == i, Q(i) >= 0, Q(i) < m.n, P(Q(i)) == i)))
                for (n2, ix, f) in list(self.ctx.univ):
                    if n2.eq(m.n):
                        self.ctx.add_univ(m.n, m.idx, z3.Implies(z3.And(i >= 0, i < m.n), z3.substitute(f, (ix, P(i)))))
            r = Many(m.n, m.idx, vsubst(m.val, [(m.idx, P(m.idx))]), None, m.distinct)
            if m.pos is not None:
                old = m.pos

                def pos(it, k):
                    c, p = old(it, k)
                    it.ctx.instantiate(m.n, p)
                    return c, Q(p)
                r.pos = pos
            j(l, "items", [r])
            return None
        if name in ("sort",):
            j(l, "items", list(_sorted(self, [One(l)], kwargs).items))
            return None
        self.unsupported("list." + name)

    # ------------------------------------------------------------ dict methods
    def base_keys(self, d):
        """the keys of a dictionary with an arbitrary part"""
        segs = list(self.seq(d.base.keys(self, d)))
        if not d.entries:
            return segs
        out = []
        for m in segs:
            conds = [m.cond] if m.cond is not None else []
            for k, v in d.entries:
                if isinstance(k, Many):
                    self.unsupported("keys of a dict built by a symbolic loop")
                r = self.ident_or_eq(m.val, k)
                if r is not False:
                    conds.append(z3.Not(r) if z3.is_expr(r) else z3.BoolVal(not r))
            out.append(Many(m.n, m.idx, m.val, zand(conds) if conds else None, m.distinct))
        return out + [One(k) for k, v in d.entries if v is not DELETED]

    def dict_find(self, d, k):
        """(present: bool/z3, value thunk or value)"""
        k = self.split(k)
        for kk, vv in reversed(d.entries):
            if isinstance(kk, Many):
                # is k one of the keys of the family?
                ok = self.forall_seq([kk], lambda x: self._neg(self.ident_or_eq(x, k)))
                if ok:
                    continue
                self.unsupported("lookup in a dict built by a symbolic loop")
            r = self.ident_or_eq(kk, k)
            if self.ctx.branch(r):
                if vv is DELETED:
                    return False, None
                return True, vv
        if d.base is not None:
            found, val = d.base(self, d, k)
            return found, Thunk(val) if isinstance(val, types.FunctionType) else val
        return False, None

    def dict_set(self, d, k, v):
        k = self.split(k)
        new = []
        done = False
        for kk, vv in d.entries:
            if not done and not isinstance(kk, Many) and self.ctx.branch(self.ident_or_eq(kk, k)):
                new.append((kk, v))
                done = True
            else:
                new.append((kk, vv))
        if not done:
            new.append((k, v))
        self.ctx.jset(d, "entries", new)

    def dict_del(self, d, k):
        new, done = [], False
        for kk, vv in d.entries:
            if not done and not isinstance(kk, Many) and self.ctx.branch(self.ident_or_eq(kk, k)):
                done = vv is not DELETED
                if d.base is None:
                    continue
                vv = DELETED
                if not done:
                    self.raise_(KeyError, k)
            new.append((kk, vv))
        if not done:
            if d.base is None or not self.ctx.branch(d.base(self, d, k)[0]):
                self.raise_(KeyError, k)
            new.append((k, DELETED))
        self.ctx.jset(d, "entries", new)

    def dict_copy(self, d):
        if isinstance(d, dict):
            return VDict(list(d.items()))
        return VDict(list(d.entries), d.base, d.default)

    def dict_method(self, name, args, kwargs):
        d = args[0].v
        rest = [self.split(a.v) for a in args[1:]]
        if name == "get":
            found, val = self.dict_find(d, rest[0])
            if self.ctx.branch(found):
                return force(val)
            return rest[1] if len(rest) > 1 else None
        if name == "setdefault":
            found, val = self.dict_find(d, rest[0])
            if self.ctx.branch(found):
                return force(val)
            x = rest[1] if len(rest) > 1 else None
            self.dict_set(d, rest[0], x)
            return x
        if name == "items":
            if d.base is not None:
                if getattr(d.base, "keys", None) is None:
                    self.unsupported("items() of a symbolic dict")
                out = []
                def pair(k):
                    x = d.base(self, d, k)[1]
                    return force(Thunk(x) if isinstance(x, types.FunctionType) else x)
                for m in self.base_keys(d):
                    if isinstance(m, One):
                        out.append(One(vtuple([m.v, self.dict_find(d, m.v)[1]])))
                        continue
                    r = self.map_many(m, pair)
                    if r is None:
                        continue
                    r = Many(r.n, r.idx, vtuple([m.val, r.val]), r.cond, m.distinct)
                    r.pos = m.pos
                    out.append(r)
                return VIter(out)
            out = []
            for k, v in d.entries:
                if isinstance(k, Many):
                    out.append(Many(k.n, k.idx, vtuple([k.val, v.val]), k.cond))
                else:
                    out.append(One(vtuple([k, v])))
            return VIter(out)
        if name == "keys":
            if d.base is not None:
                if getattr(d.base, "keys", None) is None:
                    self.unsupported("keys() of a symbolic dict")
                if not d.entries:
                    r = d.base.keys(self, d)
                    if not isinstance(r, VIter) or getattr(r, "as_set", None) is not None:
                        return r
                r = VIter(self.base_keys(d))
                r.keys_of = d
                return r
            return VIter(self.dict_keys(d))
        if name == "values":
            if d.base is not None:
                self.unsupported("values() of a symbolic dict")
            return VIter([v if isinstance(v, Many) else One(v) for _, v in d.entries])
        if name == "copy":
            return self.dict_copy(d)
        if name == "update":
            for k, v in self.dict_items(rest[0]):
                self.dict_set(d, k, v)
            return None
        if name == "pop":
            found, val = self.dict_find(d, rest[0])
            if self.ctx.branch(found):
                v = force(val)
                self.dict_del(d, rest[0])
                return v
            if len(rest) > 1:
                return rest[1]
            self.raise_(KeyError, rest[0])
        if name == "clear":
            self.ctx.jset(d, "entries", [])
            self.ctx.jset(d, "base", None)
            return None
        self.unsupported("dict." + name)

    # ------------------------------------------------------------- set methods
    def make_set(self, segs):
        s = VSet([])
        for x in segs:
            self.set_add(s, x)
        return s

    def as_vset(self, v):
        v = self.split(v)
        if isinstance(v, VSet):
            return v
        return self.make_set(self.seq(v))

    def set_has(self, s, x):
        if isinstance(s.base, Poison) or isinstance(s.items, Poison):
            self.unsupported("set changed in a loop over a symbolic sequence")
        if s.base is not None and not isinstance(s.base, Many):
            r = s.base(self, s, x)
            if r is True:
                return True
            o = self.any_eq(s.items, x)
            if o is True:
                return True
            return zor([t for t in (r, o) if t is not False]) if (r is not False or o is not False) else False
        return self.any_eq(([s.base] if s.base is not None else []) + list(s.items), x)

    def set_add(self, s, seg):
        if isinstance(seg, One):
            if self.ctx.branch(self.set_has(s, self.split(seg.v))):
                return
        self.ctx.jset(s, "items", list(s.items) + [seg])

    def set_method(self, s, name, rest):
        j = self.ctx.jset
        if name == "add":
            self.set_add(s, One(rest[0]))
            return None
        if name in ("update", "union"):
            t = s if name == "update" else VSet(list(s.items), s.base)
            for r in rest:
                for seg in self.seq(r):
                    self.set_add(t, seg)
            return None if name == "update" else t
        if name in ("discard", "remove"):
            if s.base is not None and not isinstance(s.base, Many) and not s.items:
                if self.ctx.branch(self.set_has(s, rest[0])):
                    old, gone = s.base, rest[0]

                    def base(it, st, x):
                        return z3.And(it.truth_term(Sym(old(it, st, x))) if z3.is_expr(old(it, st, x)) else z3.BoolVal(old(it, st, x)),
                                      z3.Not(it._tt(it.ident_or_eq(x, gone))))
                    base.removed = getattr(old, "removed", ()) + (gone,)
                    j(s, "base", base)
                elif name == "remove":
                    self.raise_(KeyError, rest[0])
                return None
            for i, seg in enumerate(s.items):
                if not isinstance(seg, One):
                    self.unsupported("removal from a symbolic set")
                if self.ctx.branch(self.ident_or_eq(self.split(seg.v), rest[0])):
                    j(s, "items", list(s.items[:i]) + list(s.items[i + 1:]))
                    return None
            if s.base is not None:
                self.unsupported("removal from a symbolic set")
            if name == "remove":
                self.raise_(KeyError, rest[0])
            return None
        if name == "copy":
            return VSet(list(s.items), s.base)
        if name in ("intersection", "difference"):
            if s.base is not None:
                self.unsupported("set." + name)
            o = self.as_vset(rest[0])
            out = []
            for seg in s.items:
                if not isinstance(seg, One):
                    self.unsupported("set." + name)
                if self.ctx.branch(self.set_has(o, self.split(seg.v))) == (name == "intersection"):
                    out.append(seg)
            return VSet(out)
        if name in ("issubset", "__le__"):
            o = self.as_vset(rest[0])
            return all(self.ctx.branch(self.set_has(o, self.split(x.v))) for x in s.items)
        if name == "clear":
            j(s, "items", [])
            return None
        self.unsupported("set." + name)

    # ---------------------------------------------------------------- isinstance
    def isinstance_(self, v, cls):
        v = self.split(v)
        if isinstance(cls, VTuple):
            cls = tuple(cls.values())
        if isinstance(cls, tuple):
            for c in cls:
                if self.isinstance_(v, c):
                    return True
            return False
        if isinstance(cls, types.UnionType):
            return self.isinstance_(v, typing.get_args(cls))
        if isinstance(v, VObj):
            yes = [c for c in v.dom if issubclass(c, cls)]
            return self.branch_class(v, yes)
        if isinstance(v, Opaque):
            return any(issubclass(c, cls) if isinstance(c, type) else c == cls for c in v.isa)
        if isinstance(v, Rope):
            return cls in (str, object)
        if isinstance(v, Sym):
            return cls in ((bool, int, object) if v.is_bool else (int, object))
        if isinstance(v, SType):
            if cls is typing._GenericAlias:
                return self.ctx.branch(z3.Not(z3.Or(Ty.is_TInt(v.t), Ty.is_TBool(v.t))))
            if cls is type:
                return self.ctx.branch(z3.Or(Ty.is_TInt(v.t), Ty.is_TBool(v.t)))
            return False
        if isinstance(v, VList):
            return cls in (list, object, typing.List) or cls is typing.get_origin(typing.List)
        if isinstance(v, VTuple):
            return cls in (tuple, object)
        if isinstance(v, VDict):
            return cls in (dict, object)
        if isinstance(v, VSet):
            return cls in (set, object)
        if isinstance(v, (VFunc, VBound, SpecFn)):
            return cls in (types.FunctionType, object)
        if isinstance(v, Value):
            return False
        try:
            return isinstance(v, cls)
        except TypeError as e:
            raise SymRaise(e)


class Thunk:
    """the value of a symbolic dict at a key, made when it is used"""

    def __init__(self, make):
        self.make = make


def force(v):
    return v.make() if isinstance(v, Thunk) else v


def _mentions(t, c):
    if t.eq(c):
        return True
    return any(_mentions(x, c) for x in t.children())


def sys_modules_file(name):
    import sys
    m = sys.modules.get(name)
    return getattr(m, "__file__", None) if m is not None else None


# ------------------------------------------------------------------- builtins
BUILTINS = {}


def builtin(*fs):
    def deco(h):
        for f in fs:
            BUILTINS[id(f)] = h
        return h
    return deco


def _vals(it, args):
    out = []
    for a in args:
        if not isinstance(a, One):
            it.unsupported("symbolic argument list for a builtin")
        out.append(it.split(a.v))
    return out


@builtin(isinstance)
def _isinstance(it, args, kw):
    v, c = _vals(it, args)
    return it.isinstance_(v, c)


@builtin(issubclass)
def _issubclass(it, args, kw):
    v, c = _vals(it, args)
    if isinstance(v, ClsOf):
        return it.isinstance_(v.obj, c)
    if isinstance(v, SType):
        k = it.stype_class(v)
        import metalift.ir as ir
        if k not in (ir.Int, ir.Bool):
            it.raise_(TypeError, "issubclass() arg 1 must be a class")
        v = k
    if isinstance(c, VTuple):
        c = tuple(c.values())
    try:
        return issubclass(v, c)
    except TypeError as e:
        raise SymRaise(e)


@builtin(len)
def _len(it, args, kw):
    (v,) = _vals(it, args)
    if isinstance(v, (VSeq, VSet)):
        if isinstance(v, VSet) and v.base is not None:
            it.unsupported("len of a symbolic set")
        return it.seq_len(v.items)
    if isinstance(v, VDict):
        if v.base is not None:
            it.unsupported("len of a symbolic dict")
        return it.seq_len(it.dict_keys(v))
    if isinstance(v, VObj):
        return it.call(it.getattr(v, "__len__"), [])
    if isinstance(v, Rope):
        t = it.str_term(v)
        if t is None:
            it.unsupported("len of a symbolic string")
        return Sym(z3.Length(t))
    if isinstance(v, STypeArgs):
        return 0 if it.ctx.branch(z3.Or(Ty.is_TInt(v.t), Ty.is_TBool(v.t))) else 1
    if isinstance(v, Opaque) and "__len__" in v.attrs:
        return it.call(v.attrs["__len__"], [])
    if isinstance(v, Opaque) and "tyl" in v.attrs:
        return Sym(z3.Function("tyl_len", TyL, z3.IntSort())(v.attrs["tyl"]))
    try:
        return len(it.native(v))
    except TypeError as e:
        raise SymRaise(e)


@builtin(str)
def _str(it, args, kw):
    if not args:
        return ""
    return it.str_(_vals(it, args)[0])


@builtin(repr)
def _repr(it, args, kw):
    return it.repr_(_vals(it, args)[0])


@builtin(int)
def _int(it, args, kw):
    v = _vals(it, args)
    if not v:
        return 0
    x = v[0]
    if isinstance(x, Sym):
        return Sym(it.num(x))
    if isinstance(x, Rope):
        if len(x.parts) == 1 and isinstance(x.parts[0], DecAtom):
            return Sym(x.parts[0].t)
        if len(x.parts) == 1 and isinstance(x.parts[0], Atom):
            h = it.con.by_qual.get("int")
            if h:
                return h(it, args, kw)
        it.unsupported("int of a symbolic string")
    try:
        return int(*[it.native(y) for y in v])
    except (ValueError, TypeError) as e:
        raise SymRaise(e)


@builtin(bool)
def _bool(it, args, kw):
    if not args:
        return False
    t = it.truth_term(_vals(it, args)[0])
    return t if isinstance(t, bool) else Sym(t)


@builtin(type)
def _type(it, args, kw):
    (v,) = _vals(it, args)
    if isinstance(v, VObj):
        return v.cls if v.cls is not None else ClsOf(v)
    if isinstance(v, Opaque):
        if v.isa and isinstance(v.isa[0], type):
            return v.isa[0]
        it.unsupported("type() of an external object")
    if isinstance(v, Rope):
        return str
    if isinstance(v, Sym):
        return bool if v.is_bool else int
    m = {VList: list, VTuple: tuple, VDict: dict, VSet: set}.get(type(v))
    if m:
        return m
    if isinstance(v, Value):
        it.unsupported("type() of a symbolic value")
    return type(v)


@builtin(list)
def _list(it, args, kw):
    return VList(it.seq(args[0].v) if args else [])


@builtin(tuple)
def _tuple(it, args, kw):
    return VTuple(it.seq(args[0].v) if args else [])


@builtin(iter)
def _iter(it, args, kw):
    return VIter(it.seq(args[0].v))


@builtin(next)
def _next(it, args, kw):
    v = it.split(args[0].v)
    if isinstance(v, VIter):
        segs = list(v.items)
        while segs:
            s = segs[0]
            if isinstance(s, One):
                it.ctx.jset(v, "items", segs[1:])
                return s.v
            if s.cond is not None:
                it.unsupported("next on a filtered sequence")
            if it.ctx.branch(s.n > 0):
                it.ctx.jset(v, "items", it.drop_front(segs, 1))
                return it.at(s, z3.IntVal(0))
            segs = segs[1:]
        if len(args) > 1:
            return args[1].v
        it.raise_(StopIteration)
    it.unsupported("next")


@builtin(set, frozenset)
def _set(it, args, kw):
    if not args:
        return VSet([])
    v = it.split(args[0].v)
    if isinstance(v, VSet):
        return VSet(list(v.items), v.base)
    if isinstance(v, VIter) and hasattr(v, "as_set"):
        return v.as_set
    return it.make_set(it.seq(v))


@builtin(dict)
def _dict(it, args, kw):
    if args:
        v = it.split(args[0].v)
        if isinstance(v, (VDict, dict)):
            d = it.dict_copy(v)
        else:
            d = VDict([])
            for s in it.seq(v):
                if not isinstance(s, One):
                    it.unsupported("dict() of a symbolic sequence")
                p = it.seq(s.v)
                it.dict_set(d, it.split(p[0].v), p[1].v)
    else:
        d = VDict([])
    for k, v in kw.items():
        it.dict_set(d, k, v)
    return d


@builtin(defaultdict)
def _defaultdict(it, args, kw):
    f = args[0].v if args else None
    return VDict([], None, (lambda: it.call(f, [])) if f is not None else None)


@builtin(range)
def _range(it, args, kw):
    v = _vals(it, args)
    if all(it.is_native(x) for x in v):
        return range(*[it.native(x) for x in v])
    if len(v) <= 2 and (len(v) == 1 or v[0] == 0):
        n = it.num(v[-1])
        n = z3.simplify(n)
        it.ctx.assume(n >= 0)
        idx = it.idx_for(n)
        return VIter([Many(n, idx, Sym(idx))])
    if len(v) == 2:
        n = z3.simplify(it.num(v[1]) - it.num(v[0]))
        if it.ctx.branch(n <= 0):
            return range(0)
        idx = it.idx_for(n)
        return VIter([Many(n, idx, Sym(z3.simplify(idx + it.num(v[0]))))])
    it.unsupported("range with symbolic step")


@builtin(enumerate)
def _enumerate(it, args, kw):
    segs = it.seq(args[0].v)
    start = it.native(kw["start"]) if "start" in kw else (it.native(args[1].v) if len(args) > 1 else 0)
    off = z3.IntVal(start)
    out = []
    for s in segs:
        if isinstance(s, One):
            t = z3.simplify(off)
            out.append(One(vtuple([t.as_long() if z3.is_int_value(t) else Sym(t), s.v])))
            off = off + 1
        elif isinstance(s, Many) and s.cond is None:
            out.append(Many(s.n, s.idx, vtuple([Sym(z3.simplify(off + s.idx)), s.val])))
            off = off + s.n
        else:
            it.unsupported("enumerate over a filtered sequence")
    return VIter(out)


@builtin(zip)
def _zip(it, args, kw):
    seqs = [list(it.seq(a.v)) for a in args]
    out = []
    while all(seqs):
        heads = [s[0] for s in seqs]
        if all(isinstance(h, One) for h in heads):
            out.append(One(vtuple([h.v for h in heads])))
            for s in seqs:
                s.pop(0)
            continue
        manys = [h for h in heads if isinstance(h, Many)]
        if any(not isinstance(h, (One, Many)) or getattr(h, "cond", None) is not None for h in heads):
            it.unsupported("zip over a partially built list")
        if len(manys) == len(heads):
            n = heads[0].n
            same = True
            for h in heads[1:]:
                if not h.n.eq(n) and not it.ctx.must(h.n == n):
                    same = False
            if same:
                idx = heads[0].idx
                vals = []
                for h in heads:
                    if h.n.eq(n):
                        vals.append(h.val)
                    else:
                        vals.append(vsubst(h.val, [(h.idx, idx)]))
                        for (m, ix, f) in list(it.ctx.univ):
                            if m.eq(h.n):
                                it.ctx.add_univ(n, idx, z3.substitute(f, (ix, idx)))
                r = Many(n, idx, vtuple(vals))
                for h, v in zip(heads, vals):
                    if h.pos is not None and r.pos is None:
                        key = h.key if h.key is not None else it.seg_key(h)
                        if key is not None:
                            r.pos, r.key = h.pos, vsubst(key, [(h.idx, idx)])
                out.append(r)
                for s in seqs:
                    s.pop(0)
                continue
            it.unsupported("zip of sequences of different symbolic length")
        # mixed: peel one element
        for s in seqs:
            h = s[0]
            if isinstance(h, Many):
                if it.ctx.branch(h.n > 0):
                    s[:] = [One(it.at(h, z3.IntVal(0)))] + it.drop_front([h], 1) + s[1:]
                else:
                    s.pop(0)
                break
    return VIter(out)


@builtin(map)
def _map(it, args, kw):
    f = args[0].v
    if len(args) == 2:
        return VIter(it.map_seq(it.seq(args[1].v), lambda v: it.call(f, [One(v)])))
    z = _zip(it, args[1:], {})
    return VIter(it.map_seq(z.items, lambda v: it.call(f, v.items)))


@builtin(filter)
def _filter(it, args, kw):
    f = args[0].v
    return VIter(it.map_seq(it.seq(args[1].v), lambda v: v, lambda v: it.truth(v if f is None else it.call(f, [One(v)]))))


@builtin(all)
def _all(it, args, kw):
    return it.forall_seq(it.seq(args[0].v), lambda v: v)


@builtin(any)
def _any(it, args, kw):
    def neg(v):
        t = it.truth_term(v)
        return (not t) if isinstance(t, bool) else Sym(z3.Not(t))
    return not it.forall_seq(it.seq(args[0].v), neg)


@builtin(reversed)
def _reversed(it, args, kw):
    segs = it.seq(args[0].v)
    if all(isinstance(s, One) for s in segs):
        return VIter(list(reversed(segs)))
    if len(segs) == 1 and isinstance(segs[0], Many) and segs[0].cond is None:
        m = segs[0]
        n = m.n
        return VIter([Many(n, m.idx, vsubst(m.val, [(m.idx, z3.simplify(n - 1 - m.idx))]))])
    it.unsupported("reversed on a symbolic sequence")


@builtin(sum)
def _sum(it, args, kw):
    segs = it.seq(args[0].v)
    if args[1:]:
        acc = args[1].v
    else:
        acc = 0
    for s in segs:
        if not isinstance(s, One):
            it.unsupported("sum over a symbolic sequence")
        acc = it.binop(ast.Add, acc, it.split(s.v))
    return acc


def _maxmin(op):
    def h(it, args, kw):
        if kw:
            it.unsupported("max/min with keywords")
        segs = it.seq(args[0].v) if len(args) == 1 and isinstance(args[0], One) else args
        if not segs or not all(isinstance(a, One) for a in segs):
            it.unsupported("max/min over a symbolic sequence")
        best = it.split(segs[0].v)
        for a in segs[1:]:
            v = it.split(a.v)
            if it.truth(it.compare(op, v, best)):
                best = v
        return best
    return h


BUILTINS[id(max)] = _maxmin(ast.Gt)
BUILTINS[id(min)] = _maxmin(ast.Lt)


@builtin(sorted)
def _sorted(it, args, kw):
    segs = it.seq(args[0].v)
    vals = [it.split(s.v) if isinstance(s, One) else it.unsupported("sorted on a symbolic sequence") for s in segs]
    if len(vals) <= 1:
        return vlist(vals)
    if "key" in kw:
        ks = [it.split(it.call(kw["key"], [One(v)])) for v in vals]
        if any(isinstance(k, Rope) for k in ks) and all(isinstance(k, (str, Rope)) for k in ks) and not it.truth(kw.get("reverse", False)):
            # texts: some order of them (insertion, one case per outcome)
            ts, out = [it.str_term(rope(k)) for k in ks], []
            for i in range(len(vals)):
                at = len(out)
                while at > 0 and it.ctx.branch(ts[i] < ts[out[at - 1]]):
                    at -= 1
                out.insert(at, i)
            return vlist([vals[i] for i in out])
        ks = [it.native(k) for k in ks]
        order = sorted(range(len(vals)), key=lambda i: ks[i], reverse=bool(kw.get("reverse", False)))
        return vlist([vals[i] for i in order])
    return vlist(sorted((it.native(v) for v in vals), reverse=bool(kw.get("reverse", False))))


@builtin(print)
def _print(it, args, kw):
    return None


@builtin(hasattr)
def _hasattr(it, args, kw):
    v, n = _vals(it, args)
    try:
        it.getattr(v, n)
        return True
    except SymRaise:
        return False


@builtin(getattr)
def _getattr(it, args, kw):
    v = _vals(it, args)
    try:
        return it.getattr(v[0], it.native(v[1]))
    except SymRaise:
        if len(v) > 2:
            return v[2]
        raise


@builtin(setattr)
def _setattr(it, args, kw):
    v = _vals(it, args)
    it.setattr(v[0], it.native(v[1]), v[2])


@builtin(callable)
def _callable(it, args, kw):
    (v,) = _vals(it, args)
    return isinstance(v, (VFunc, VBound, SpecFn)) or (not isinstance(v, Value) and callable(v))


@builtin(id)
def _id(it, args, kw):
    it.unsupported("id()")


@builtin(hash)
def _hash(it, args, kw):
    (v,) = _vals(it, args)
    if isinstance(v, VObj):
        m = it.find_class_attr(v, "__hash__", optional=True)
        if m is not None:
            return it.call(it.bind(m, v), [])
        it.unsupported("hash of an object by identity")
    return Sym(z3.Function("pyhash", z3.IntSort(), z3.IntSort())(z3.IntVal(0))) if isinstance(v, Value) else hash(v)


@builtin(typing.cast)
def _cast(it, args, kw):
    return args[1].v


@builtin(typing.get_args)
def _get_args(it, args, kw):
    (v,) = _vals(it, args)
    if isinstance(v, SType):
        return it.stype_args(v)
    if isinstance(v, Opaque) and "tyl" in v.attrs:
        return VTuple(it.tyl_segs(v.attrs["tyl"]))
    if isinstance(v, Value):
        return VTuple([])
    return typing.get_args(v)


@builtin(inspect.isclass)
def _isclass(it, a, k):
    return it.isinstance_(a[0].v, type)


@builtin(typing.get_origin)
def _get_origin(it, args, kw):
    (v,) = _vals(it, args)
    if isinstance(v, SType):
        import metalift.ir as ir
        c = it.stype_class(v)
        return None if c in (ir.Int, ir.Bool) else c
    if isinstance(v, Value):
        it.unsupported("get_origin")
    return typing.get_origin(v)


@builtin(functools.reduce)
def _reduce(it, args, kw):
    f = args[0].v
    segs = it.seq(args[1].v)
    if not all(isinstance(s, One) for s in segs):
        it.unsupported("reduce over a symbolic sequence")
    vals = [s.v for s in segs]
    if len(args) > 2:
        acc = args[2].v
    else:
        if not vals:
            it.raise_(TypeError, "reduce of empty sequence")
        acc = vals.pop(0)
    for v in vals:
        acc = it.call(f, [One(acc), One(v)])
    return acc


import copy as _copy


@builtin(_copy.copy)
def _shallow(it, args, kw):
    v = it.split(args[0].v)
    if isinstance(v, VSeq):
        return type(v)(list(v.items))
    if isinstance(v, (VDict, dict)):
        return it.dict_copy(v)
    if isinstance(v, VSet):
        return VSet(list(v.items), v.base)
    if isinstance(v, VObj):
        if v.lazy:
            it.unsupported("copy of an arbitrary object")
        return VObj(v.dom, v.id, Vars(dict(v.attrs)), v.lazy, v.sort)
    return v


def deepcopy_seg(it, s, memo):
    if isinstance(s, One):
        return One(deepcopy_value(it, s.v, memo))
    if isinstance(s, Many):
        r = Many(s.n, s.idx, deepcopy_value(it, s.val, memo), s.cond, s.distinct)
        r.pos, r.key = s.pos, s.key
        return r
    return s


def deepcopy_value(it, v, memo):
    if isinstance(v, Cases):
        return Cases([(c, deepcopy_value(it, x, memo)) for c, x in v.cases])
    v = it.split(v)
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, VSeq):
        r = type(v)([])
        memo[id(v)] = r
        if not isinstance(v, VTuple) or True:
            r.items = [deepcopy_seg(it, s, memo) for s in v.items]
        return r
    if isinstance(v, VDict):
        r = VDict([], v.base.deepcopy(it, memo) if hasattr(v.base, "deepcopy") else v.base, v.default)
        memo[id(v)] = r
        r.entries = [(k if isinstance(k, Many) else deepcopy_value(it, k, memo), x if isinstance(x, Many) else deepcopy_value(it, x, memo)) for k, x in v.entries]
        return r
    if isinstance(v, VSet):
        r = VSet([], v.base)
        memo[id(v)] = r
        r.items = [One(deepcopy_value(it, s.v, memo)) if isinstance(s, One) else s for s in v.items]
        return r
    if isinstance(v, VObj):
        if v.lazy and not v.attrs:
            return v  # arbitrary immutable expression
        r = VObj(v.dom, v.id, Vars(), v.lazy, v.sort)
        memo[id(v)] = r
        for a, x in v.attrs.items():
            r.attrs[a] = deepcopy_value(it, x, memo)
        return r
    return v


@builtin(_copy.deepcopy)
def _deepcopy(it, args, kw):
    return deepcopy_value(it, args[0].v, {})
