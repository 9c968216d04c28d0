"""Verification of driver code that talks to the outside world: whatever an
unmodelled call returns is an arbitrary value (Havoc), loops are cut by the
invariant 'anything' (every location the body changes is arbitrary), and what a
contract tracks keeps its identity. Over-approximates the runs of the code, so
that what holds on every path holds on every run."""
import ast
import z3
from .core import *
from . import interp as I
from .interp import Interp, Env, _Return, _Break, _Continue


class Havoc(Value):
    """an arbitrary value of the outside world"""

    def __init__(self, tag="", origin=None):
        self.tag, self.origin = tag, origin
        self.sn = serial()

    def __repr__(self):
        return f"<arbitrary {self.tag}>"


def is_h(*vs):
    return any(isinstance(v, Havoc) for v in vs)


class HavocInterp(Interp):
    def __init__(self, ctx, contracts):
        super().__init__(ctx, contracts)
        self.tries = 0
        self.repo_by_havoc = set()
        self.pure = set()       # of these: the ones that leave their arguments alone
        self.loops = {}
        self.iterated = None
        self.skip_prints = False    # what is printed does not matter
        self.kept = {}          # class of value -> makes an arbitrary value of that class

    # ---- values -----------------------------------------------------------
    def fresh_bool(self):
        return self.ctx.fresh(z3.BoolSort(), "any")

    def truth_term(self, v):
        v = self.split(v)
        if isinstance(v, Havoc):
            return self.fresh_bool()
        return super().truth_term(v)

    def seq(self, v):
        v = self.split(v)
        if isinstance(v, Havoc):
            m = getattr(v, "seg", None)
            if m is None:
                n = z3.Int(f"len_any{v.sn}")
                self.ctx.add(n >= 0)
                m = Many(n, self.idx_for(n), Havoc("element of " + v.tag, v))
                v.seg = m
            else:
                self.ctx.add(m.n >= 0)
            return [m]
        return super().seq(v)

    def eq(self, a, b):
        if a is b:
            return True
        if is_h(a, b):
            return self.fresh_bool()
        return super().eq(a, b)

    def is_(self, a, b):
        if is_h(a, b) and a is not b:
            return self.fresh_bool()
        return super().is_(a, b)

    def compare(self, op, a, b):
        if is_h(a, b) and op not in (ast.Is, ast.IsNot, ast.Eq, ast.NotEq, ast.In, ast.NotIn):
            return Sym(self.fresh_bool())
        return super().compare(op, a, b)

    def contains(self, c, x):
        c, x = self.split(c), self.split(x)
        if is_h(c, x):
            return self.fresh_bool()
        return super().contains(c, x)

    def binop(self, op, a, b):
        if is_h(a, b):
            if isinstance(a, (VList, VTuple)) or isinstance(b, (VList, VTuple)):
                if op is ast.Add:
                    return type(a if not is_h(a) else b)(self.seq(a) + self.seq(b))
            return Havoc("value")
        try:
            return super().binop(op, a, b)
        except Unsupported:
            return Havoc("value")

    def getitem(self, v, k):
        v, k = self.split(v), self.split(k)
        if is_h(v) or is_h(k):
            return Havoc("item")
        try:
            return super().getitem(v, k)
        except Unsupported:
            self.maybe_raise()
            return Havoc("item")

    def getslice(self, v, lo, hi, step):
        if is_h(v, lo, hi, step):
            return Havoc("slice")
        return super().getslice(v, lo, hi, step)

    def setitem(self, o, k, v):
        o = self.split(o)
        if isinstance(o, Havoc):
            return
        if is_h(k):
            return self.smash(o)
        try:
            return super().setitem(o, k, v)
        except Unsupported:
            return self.smash(o)

    def setattr(self, v, name, val):
        v = self.split(v)
        if isinstance(v, Havoc):
            return
        return super().setattr(v, name, val)

    def num(self, v):
        if isinstance(v, Havoc):
            return self.ctx.fresh(z3.IntSort(), "num")
        return super().num(v)

    def e_UnaryOp(self, n, env):
        if not isinstance(n.op, ast.Not) and is_h(self.evs(n.operand, env)):
            return Havoc("value")
        return super().e_UnaryOp(n, env)

    def isinstance_(self, v, cls):
        v = self.split(v)
        if isinstance(v, Havoc):
            return self.ctx.branch(self.fresh_bool())
        return super().isinstance_(v, cls)

    def str_(self, v):
        v = self.split(v)
        if isinstance(v, Havoc):
            return Rope([Atom(z3.Const(f"text_any{v.sn}", z3.StringSort()), "opaque-str", v)])
        return super().str_(v)

    def repr_(self, v):
        v = self.split(v)
        return self.str_(v) if isinstance(v, Havoc) else super().repr_(v)

    def str_method(self, name, args, kwargs):
        try:
            return super().str_method(name, args, kwargs)
        except Unsupported:
            return Havoc("text." + name)

    def getattr(self, v, name):
        v = self.split(v)
        if isinstance(v, Havoc):
            return Havoc("attribute " + name, v)
        r = super().getattr(v, name) if not isinstance(v, (list, dict, set)) else Havoc("global." + name)
        if isinstance(r, (list, dict, set)):
            # a container of some module: anything may be in it
            return Havoc("global " + name)
        return r

    # ---- containers about which nothing is known ----------------------------
    def smash(self, o):
        """o may hold anything from now on"""
        ctx = self.ctx
        if isinstance(o, VList):
            ctx.jset(o, "items", [self.anything()])
        elif isinstance(o, VDict):
            ctx.jset(o, "entries", [])
            ctx.jset(o, "base", lambda it, d, k: (it.fresh_bool(), Havoc("value in a dictionary")))
            base = o.base
            base.keys = lambda it, d: Havoc("keys")
        elif isinstance(o, VSet):
            ctx.jset(o, "items", [])
            ctx.jset(o, "base", lambda it, s, x: it.fresh_bool())
        elif isinstance(o, (Havoc, Sym, Rope, VTuple)) or not isinstance(o, Value):
            pass
        elif isinstance(o, Opaque):
            pass
        else:
            self.unsupported(f"unknown effect on {o!r}")

    def anything(self):
        n = z3.Int(f"len_any{serial()}")
        self.ctx.add(n >= 0)
        return Many(n, self.idx_for(n), Havoc("element"))

    # ---- calls ------------------------------------------------------------
    def outside(self, what, args, kwargs):
        """a call of code that is not verified here"""
        for a in list(args) + [One(v) for v in kwargs.values()]:
            if isinstance(a, One):
                v = self.split(a.v)
                if isinstance(v, (VList, VDict, VSet)):
                    self.smash(v)
        self.maybe_raise()
        return Havoc(what)

    def maybe_raise(self):
        if self.tries and self.ctx.choose(2) == 1:
            raise SymRaise(VObj([Exception]))

    def s_Try(self, n, env):
        self.tries += 1
        k = self.tries
        try:
            # handlers run outside the try
            body = ast.Module(n.body, [])
            try:
                self.block(n.body, env)
            finally:
                self.tries = k - 1
        except SymRaise as e:
            exc = e.value
            for h in n.handlers:
                if h.type is None:
                    ok = True
                else:
                    ty = self.evs(h.type, env)
                    tys = ty.values() if isinstance(ty, VTuple) else list(ty) if isinstance(ty, tuple) else [ty]
                    c = exc.dom[0] if isinstance(exc, VObj) else type(exc)
                    if any(issubclass(c, t) for t in tys):
                        ok = True
                    elif c is Exception:
                        # some exception: may be one of these
                        ok = self.ctx.choose(2) == 0
                    else:
                        ok = False
                if ok:
                    if h.name:
                        self.ctx.jset(env.vars, h.name, exc)
                    old = getattr(self, "current_exc", None)
                    self.current_exc = exc
                    try:
                        self.block(h.body, env)
                    finally:
                        self.current_exc = old
                    break
            else:
                self.block(n.finalbody, env)
                raise
        except (_Return, _Break, _Continue):
            self.block(n.finalbody, env)
            raise
        else:
            self.block(n.orelse, env)
        self.block(n.finalbody, env)

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        f = self.split(f)
        if isinstance(f, Havoc):
            return self.outside("result", args, kwargs)
        q = None
        if isinstance(f, I.VFunc):
            q = f.qual
        elif isinstance(f, I.types.FunctionType) and I.in_repo(f):
            q = I.qualname(f)
        if q is not None and q in self.repo_by_havoc and q not in self.con.by_qual:
            self.ctx.report.contracts_used.add(q + " (anything)")
            if q in self.pure:
                self.maybe_raise()
                return Havoc(q.rsplit(".", 1)[-1])
            return self.outside(q.rsplit(".", 1)[-1], args, kwargs)
        if q is None and not isinstance(f, (I.VBound, SpecFn, Opaque)):
            known = id(f) in self.con.native or id(f) in I.BUILTINS
            if f is I.Interp:
                pass
            if isinstance(f, type) and self.repo_class(f):
                if any(is_h(self.split(a.v)) if isinstance(a, One) else True for a in args) and not issubclass(f, BaseException):
                    return Havoc("new " + f.__name__)
            elif known:
                if any(isinstance(a, Many) for a in args) or any(is_h(self.split(a.v)) for a in args if isinstance(a, One)):
                    if f in (list, tuple, set, str, repr, len, isinstance, print, zip, enumerate, reversed, map, filter, iter, sorted):
                        if f is len:
                            return Sym(self.ctx.fresh(z3.IntSort(), "len"))
                        if f is set:
                            return Havoc("set")
                        try:
                            return super().call(f, args, kwargs)
                        except Unsupported:
                            return Havoc(f.__name__)
                    if id(f) not in self.con.native:
                        return Havoc(getattr(f, "__name__", "builtin"))
                if id(f) not in self.con.native:
                    try:
                        return super().call(f, args, kwargs)
                    except Unsupported:
                        return Havoc(getattr(f, "__name__", "builtin"))
            elif not (isinstance(f, type) and issubclass(f, BaseException)):
                return self.outside(getattr(f, "__name__", str(f)), args, kwargs)
        return super().call(f, args, kwargs)

    # ---- comprehensions over several arbitrary sequences --------------------
    def comp(self, n, env, body):
        try:
            return super().comp(n, env, body)
        except Unsupported:
            return [self.anything()]

    def e_DictComp(self, n, env):
        try:
            return super().e_DictComp(n, env)
        except Unsupported:
            d = VDict([])
            self.smash(d)
            return d

    # ---- statements that only print -----------------------------------------
    def only_prints(self, body):
        for b in body:
            if isinstance(b, ast.Pass):
                continue
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Name) and b.value.func.id == "print":
                if not any(k.arg == "file" for k in b.value.keywords) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(b)):
                    continue
            if isinstance(b, (ast.If, ast.For)) and self.only_prints(b.body) and self.only_prints(b.orelse):
                # what the printing reads is not changed by reading it
                continue
            return False
        return True

    def stmt(self, n, env):
        if self.skip_prints and isinstance(n, (ast.Expr, ast.If, ast.For)) and self.only_prints([n]):
            return
        return super().stmt(n, env)

    # ---- loops: invariant 'anything' ----------------------------------------
    def havoc_loc(self, o, a, env):
        if o is env.vars or isinstance(o, dict) or isinstance(o, Vars):
            cur = o.get(a)
            mk = self.kept.get(type(cur))
            self.ctx.jset(o, a, mk(self, cur) if mk is not None else Havoc(f"variable {a}"))
        elif isinstance(o, (VList, VDict, VSet)):
            self.smash(o)
        else:
            self.unsupported(f"loop changes {a} of {o!r}")

    def cut_loop(self, n, env, once, leave):
        """once(): one iteration from the arbitrary state (returns False to
        leave); leave(): the state in which the loop ends normally"""
        ctx = self.ctx
        locs = []

        def same(o, a):
            return any(o is x and a == y for x, y in locs)
        stored = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if isinstance(n, ast.For):
            stored |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        else:
            stored |= {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for s in sorted(stored):
            e = env
            while e is not None and s not in e.vars and (s in env.nonlocals):
                e = e.parent
            locs.append(((e or env).vars, s))
        def holder(o):
            """the variable that holds the container o"""
            d, e = 0, env
            while e is not None:
                for nm, v in e.vars.items():
                    if v is o:
                        return (d, nm)
                d, e = d + 1, e.parent
            return None

        def describe(o, a):
            d, e = 0, env
            while e is not None:
                if e.vars is o:
                    return ("var", d, a)
                d, e = d + 1, e.parent
            h = holder(o)
            return None if h is None else ("in",) + h + (a,)

        def find(x):
            e = env
            for _ in range(x[1]):
                e = e.parent
            if x[0] == "var":
                return (e.vars, x[2])
            v = e.vars.get(x[2])
            return (v, x[3]) if isinstance(v, (VList, VDict, VSet)) else None
        seen, times = self.loops.get(n, ((), 0))
        for x in seen:
            l = find(x)
            if l is not None and not same(*l):
                locs.append(l)
        for _ in range(6):
            if times >= 2:
                # the locations were the same on every earlier path
                break

            def probe():
                for o, a in locs:
                    self.havoc_loc(o, a, env)
                try:
                    once()
                except (_Break, _Return, _Continue, SymRaise):
                    pass
            ctx.nested(probe)
            new = [(o, a) for o, a in ctx.nest_mods if not same(o, a) and not (a == "dom" and isinstance(o, VObj)) and o is not ctx.scratch and a != "seg"]
            if not new:
                ds = [describe(o, a) for o, a in locs]
                if None not in ds:
                    more = tuple(x for x in ds if x not in seen)
                    self.loops[n] = (seen + more, 0 if more else times + 1)
                break
            for o, a in new:
                if not same(o, a):
                    locs.append((o, a))
        else:
            self.unsupported("loop modifies an unbounded set of locations")
        kinds = [(o, a, type(o.get(a))) for o, a in locs if isinstance(o, dict) and type(o.get(a)) in self.kept]
        for o, a in locs:
            self.havoc_loc(o, a, env)
        if ctx.choose(2) == 1:
            try:
                once()
            except _Continue:
                pass
            except _Break:
                return
            for o, a, c in kinds:
                if type(o.get(a)) is not c:
                    self.unsupported(f"loop invariant: {a} stays what it is")
            if self.iterated is not None:
                # what holds when another iteration follows
                self.iterated()
            raise PathEnd()
        elif leave is None:
            raise PathEnd()
        else:
            leave()
        self.block(n.orelse, env)

    def s_While(self, n, env):
        def once():
            if not self.truth(self.ev(n.test, env)):
                raise PathEnd()
            self.block(n.body, env)
            return True

        def leave():
            if self.truth(self.ev(n.test, env)):
                raise PathEnd()
        self.cut_loop(n, env, once, leave)

    def s_For(self, n, env):
        src = self.evs(n.iter, env)
        segs = self.seq(src)
        if all(isinstance(s, One) for s in segs) and len(segs) <= 8:
            return super().s_For(n, env)
        vals = []
        for s in segs:
            if isinstance(s, One):
                vals.append(s.v)
            elif isinstance(s, Many):
                vals.append(self.arbitrary_element(s))

        def once():
            v = vals[self.ctx.choose(len(vals))]
            self.assign(n.target, v, env)
            self.block(n.body, env)
            return True
        self.cut_loop(n, env, once, lambda: None)

    def arbitrary_element(self, s):
        k = self.ctx.fresh(z3.IntSort(), "k")
        self.ctx.add(z3.And(k >= 0))
        return vsubst(s.val, [(s.idx, k)]) if not isinstance(s.val, Havoc) else Havoc("element", s.val)

    def assign(self, t, v, env):
        v = self.split(v)
        if isinstance(v, Havoc) and isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.assign(x.value if isinstance(x, ast.Starred) else x, Havoc("component", v), env)
            return
        return super().assign(t, v, env)

    def at(self, m, k):
        return Havoc("element", m.val) if isinstance(m.val, Havoc) else super().at(m, k)

    # ---- contents -----------------------------------------------------------
    def contents(self, v):
        """comparable description of what a list holds"""
        v = self.split(v)
        if isinstance(v, Havoc):
            return ("h", v.sn)
        if isinstance(v, VSeq):
            out = []
            for s in v.items:
                if isinstance(s, One):
                    out.append(self.contents(s.v))
                elif s.cond is None:
                    out.append(("many", s.n.sexpr(), self.contents(s.val) if isinstance(s.val, (Havoc, VSeq)) else repr(s.val)))
                else:
                    out.append(("?", serial()))
            return ("seq", tuple(out))
        return ("v", id(v))
