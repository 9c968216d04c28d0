"""pyvc.core -- path exploration, proof obligations and symbolic values.

The verifier works on the Python AST of the functions in /repo (read on every
run).  Paths are enumerated by re-execution along a list of decisions; every
branch condition and every contract assumption goes to z3.  Sequences of
unknown length are `Many` segments whose elements are described by a template
over one index constant, so loops and comprehensions are handled for every
length at once (see interp.py)."""
import time
import z3


class Unsupported(Exception):
    """The source uses something the verifier has no rule for."""


class PathEnd(Exception):
    """The current path is infeasible or deliberately cut."""


class SymRaise(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, value):
        self.value = value


# ----------------------------------------------------------------- z3 universe
Obj = z3.DeclareSort("Obj")
Ty = z3.Datatype("Ty")
TyL = z3.Datatype("TyL")
Ty.declare("TInt")
Ty.declare("TBool")
Ty.declare("TList", ("list_of", Ty))
Ty.declare("TMatrix", ("matrix_of", Ty))
Ty.declare("TTensor3D", ("tensor_of", Ty))
Ty.declare("TSet", ("set_of", Ty))
Ty.declare("TTuple", ("tuple_of", TyL))
Ty.declare("TFn", ("fn_of", TyL))
TyL.declare("nil")
TyL.declare("cons", ("hd", Ty), ("tl", TyL))
Ty, TyL = z3.CreateDatatypes(Ty, TyL)

clsof = z3.Function("clsof", Obj, z3.IntSort())
tyof = z3.Function("tyof", Obj, Ty)
argn = z3.Function("argn", Obj, z3.IntSort())
arg = z3.Function("arg", Obj, z3.IntSort(), Obj)
nameof = z3.Function("nameof", Obj, z3.StringSort())
intof = z3.Function("intof", Obj, z3.IntSort())
boolof = z3.Function("boolof", Obj, z3.BoolSort())

_serial = [0]


class Vars(dict):
    """journalled dictionary (local variables, object attributes)"""

    def __init__(self, *a, owner=None):
        dict.__init__(self, *a)
        self.sn = serial()
        self.owner = owner

    __hash__ = object.__hash__


def serial():
    _serial[0] += 1
    return _serial[0]


# --------------------------------------------------------------------- values
class Value:
    pass


class Sym(Value):
    """z3 Int or Bool term."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def is_bool(self):
        return z3.is_bool(self.t)

    def __repr__(self):
        return f"Sym({self.t})"


class Part:
    pass


class Atom(Part):
    """A z3 String term, with a kind ('name', 'smt', 'ros', 'py', ...) and the
    object it renders."""

    __slots__ = ("t", "kind", "ref")

    def __init__(self, t, kind="name", ref=None):
        self.t, self.kind, self.ref = t, kind, ref

    def __repr__(self):
        return f"<{self.kind}:{self.t}>"


class DecAtom(Part):
    """decimal text of a symbolic integer"""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"<dec {self.t}>"


class JoinPart(Part):
    """sep.join(template for every element) over one Many segment"""

    __slots__ = ("sep", "seg")

    def __init__(self, sep, seg):
        self.sep, self.seg = sep, seg

    def __repr__(self):
        return f"<join {self.sep!r} {self.seg!r}>"


class OptSep(Part):
    """separator present iff the Many segments on either side are non-empty"""

    __slots__ = ("sep", "left", "right")

    def __init__(self, sep, left, right):
        self.sep, self.left, self.right = sep, left, right

    def __repr__(self):
        return f"<optsep {self.sep!r}>"


class Marker(Part):
    """unknown prefix of an accumulator during loop summarisation"""

    def __init__(self):
        self.uid = serial()


class Rope(Value):
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = out

    def __repr__(self):
        return "Rope" + repr(self.parts)


def rope(v):
    if isinstance(v, str):
        return Rope([v])
    if isinstance(v, Rope):
        return v
    raise Unsupported(f"not a string: {v!r}")


def unrope(r):
    if not r.parts:
        return ""
    if len(r.parts) == 1 and isinstance(r.parts[0], str):
        return r.parts[0]
    return r


class SType(Value):
    """symbolic metalift type"""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SType({self.t})"


class STypeArgs(Value):
    """get_args() of a symbolic type"""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class Cases(Value):
    """conditional value: list of (z3 cond, value); conditions cover all cases"""

    __slots__ = ("cases",)

    def __init__(self, cases):
        self.cases = cases


class One:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"One({self.v!r})"


class Many:
    """n elements; element number idx is val (a template over idx); present only
    when cond(idx) if cond is given."""

    __slots__ = ("n", "idx", "val", "cond", "distinct", "pos", "key")

    def __init__(self, n, idx, val, cond=None, distinct=False):
        # distinct: no two elements are equal (keys of a table); pos(it, key) is
        # then (is the key among the elements, its index)
        # key: what of the element the key is (the element, or its first part, if None)
        self.pos = self.key = None
        self.n, self.idx, self.val, self.cond, self.distinct = n, idx, val, cond, distinct

    def __repr__(self):
        return f"Many({self.n};{self.idx};{self.val!r}{'' if self.cond is None else ' if '+str(self.cond)})"


class PrefixSeg:
    def __init__(self):
        self.uid = serial()


class VSeq(Value):
    """list / tuple / set-like sequence of segments"""

    kind = "list"

    def __init__(self, items=None):
        self.items = items if items is not None else []
        self.sn = serial()

    def concrete(self):
        return all(isinstance(i, One) for i in self.items)

    def values(self):
        if not self.concrete():
            raise Unsupported("sequence of symbolic length where a concrete one is needed")
        return [i.v for i in self.items]

    def __repr__(self):
        return f"{self.kind}{self.items!r}"


class VList(VSeq):
    kind = "list"


class VTuple(VSeq):
    kind = "tuple"


class VIter(VSeq):
    kind = "iter"


def vlist(vals):
    return VList([One(v) for v in vals])


def vtuple(vals):
    return VTuple([One(v) for v in vals])


class VDict(Value):
    """entries: list of (key, value) in insertion order, later wins; `base` is an
    optional symbolic map giving the rest of the content."""

    def __init__(self, entries=None, base=None, default=None):
        self.entries = entries if entries is not None else []
        self.base = base
        self.default = default
        self.sn = serial()


class VSet(Value):
    def __init__(self, items=None, base=None):
        self.items = items if items is not None else []
        self.base = base
        self.sn = serial()


class VObj(Value):
    """instance of a class of the program.  dom = possible real classes;
    id = z3 Obj term for lazily initialised (arbitrary) objects."""

    def __init__(self, dom, id=None, attrs=None, lazy=False, sort=None):
        self.dom = tuple(dom) if isinstance(dom, (list, tuple, set, frozenset)) else (dom,)
        self.id = id
        self.attrs = attrs if isinstance(attrs, Vars) else Vars(attrs or {})
        self.attrs.owner = self
        self.lazy = lazy
        self.sort = sort
        self.sn = serial()

    @property
    def cls(self):
        return self.dom[0] if len(self.dom) == 1 else None

    def __repr__(self):
        n = self.cls.__name__ if self.cls else "|".join(c.__name__ for c in self.dom[:3])
        return f"<{n} {self.id if self.id is not None else '#%d' % self.sn}>"


class VFunc(Value):
    def __init__(self, node, globs, env=None, qual="", defaults=None, kwdefaults=None, cls=None):
        self.node, self.globs, self.env, self.qual = node, globs, env, qual
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}
        self.cls = cls

    def __repr__(self):
        return f"<func {self.qual}>"


class VBound(Value):
    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn


class SpecFn(Value):
    """function supplied by a contract: py(interp, args, kwargs)"""

    def __init__(self, py, name="spec"):
        self.py, self.name = py, name


class Poison(Value):
    def __init__(self, why):
        self.why = why


class Opaque(Value):
    """external object with attributes given by a contract"""

    def __init__(self, tag, attrs=None, id=None, isa=()):
        self.tag, self.attrs, self.id, self.isa = tag, attrs or {}, id, isa
        self.sn = serial()

    def __repr__(self):
        return f"<opaque {self.tag}>"


# ------------------------------------------------------------------ obligation
class Obligation:
    def __init__(self, name, status, secs, detail="", model=None, where=""):
        self.name, self.status, self.secs = name, status, secs
        self.detail, self.model, self.where = detail, model, where

    def as_json(self):
        return {"name": self.name, "status": self.status, "secs": round(self.secs, 4),
                "detail": self.detail, "where": self.where,
                "model": str(self.model) if self.model is not None else None}


class Report:
    def __init__(self):
        self.obls = []
        self.units = []
        self.unsupported = []
        self.assumed = set()
        self.functions = set()
        self.contracts_used = set()
        self.solver_time = 0.0
        self.queries = 0
        self.paths = 0
        self.covered = 0

    @property
    def failed(self):
        return [o for o in self.obls if o.status != "discharged"]

    @property
    def discharged(self):
        return [o for o in self.obls if o.status == "discharged"]


class Ctx:
    """one proof unit: explores all paths of a thunk"""

    TIMEOUT = 20000

    def __init__(self, report, unit, max_paths=4000):
        self.report = report
        self.unit = unit
        self.max_paths = max_paths
        self.reset([])

    def reset(self, prefix):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.TIMEOUT)
        self.prefix = prefix
        self.pos = 0
        self.trail = []
        self.pending = None
        self.journal = []
        self.facts = []
        self.branches = []
        self.univ = []  # (n, idx, formula)
        self.active = []  # active generic indices
        self.points = []  # (n, index) at which facts were instantiated
        self.known_univ = 0
        self.objs = {}
        self.fresh_n = 0
        self.depth = 0
        self.class_overlay = {}
        self.notes = []
        self.scratch = {}
        self.nest_marks = []

    # -- exploration
    def explore(self, thunk):
        """run thunk() on every path; returns number of completed paths"""
        work = [[]]
        done = 0
        while work:
            prefix = work.pop()
            self.reset(prefix)
            self.pending = work
            try:
                thunk()
                done += 1
                if self.report.covered < 3 and self.sat() == z3.sat:
                    self.report.covered += 1
            except PathEnd:
                pass
            self.report.paths += 1
            if self.report.paths > 200000 or done + len(work) > self.max_paths:
                raise Unsupported(f"too many paths in {self.unit}")
        return done

    def nested(self, thunk):
        """explore thunk() from the current state without keeping its effects;
        returns [(branch conds, facts, outcome)]"""
        res = []
        self.nest_mods = mods = []
        base_sn = serial()
        saved = (self.prefix, self.pos, self.trail, self.pending, self.facts, self.branches)
        work = [[]]
        self.nest_marks.append(serial())
        try:
            while work:
                prefix = work.pop()
                self.prefix, self.pos, self.trail, self.pending = prefix, 0, [], work
                self.facts, self.branches = [], []
                self.solver.push()
                mark = len(self.journal)
                nuniv = len(self.univ)
                known, self.known_univ = self.known_univ, nuniv
                try:
                    out = thunk()
                    res.append((list(self.branches), list(self.facts), out))
                except PathEnd:
                    pass
                finally:
                    for (o, a, _, lz) in self.journal[mark:]:
                        if not lz and getattr(o, "sn", 0) < base_sn:
                            if not any(o is x and a == y for x, y in mods):
                                mods.append((o, a))
                    self.rollback(mark)
                    self.known_univ = known
                    del self.univ[nuniv:]
                    self.solver.pop()
                if len(res) + len(work) > 600:
                    raise Unsupported("too many nested paths")
        finally:
            self.nest_marks.pop()
            (self.prefix, self.pos, self.trail, self.pending, self.facts, self.branches) = saved
        self.nest_mods = mods
        return res

    def _take(self, nopt, order=None):
        """n-ary decision without feasibility check"""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = 0
            for alt in range(nopt - 1, 0, -1):
                self.pending.append(self.trail + [alt])
        self.pos += 1
        self.trail.append(d)
        return d

    def choose(self, nopt):
        return 0 if nopt == 1 else self._take(nopt)

    def add(self, f):
        self.solver.add(f)

    def assume(self, f):
        f = z3.simplify(f) if not isinstance(f, bool) else z3.BoolVal(f)
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise PathEnd()
        self.facts.append(f)
        self.solver.add(f)

    def sat(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.report.solver_time += time.time() - t
        self.report.queries += 1
        return r

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            ft = self.sat(c) != z3.unsat
            ff = self.sat(z3.Not(c)) != z3.unsat
            if not ft and not ff:
                raise PathEnd()
            d = 0 if ft else 1
            if ft and ff:
                self.pending.append(self.trail + [1])
        self.pos += 1
        self.trail.append(d)
        f = c if d == 0 else z3.Not(c)
        self.branches.append(f)
        self.solver.add(f)
        return d == 0

    def feasible(self):
        return self.sat() != z3.unsat

    def must(self, c):
        """is c implied by the path condition?"""
        if isinstance(c, bool):
            return c
        return self.sat(z3.Not(c)) == z3.unsat

    # -- obligations
    def prove(self, c, name, detail="", where=""):
        t0 = time.time()
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        r = self.sat(z3.Not(c))
        model = None
        status = "discharged" if r == z3.unsat else ("refuted" if r == z3.sat else "unknown")
        if r == z3.sat:
            model = self.solver.model()
            if z3.is_false(z3.simplify(c)) and not detail:
                detail = "goal is false on a feasible path"
        o = Obligation(f"{self.unit}: {name}", status, time.time() - t0, detail, model, where)
        self.report.obls.append(o)
        return status == "discharged"

    def fail(self, name, detail="", where=""):
        """definite failure on this path, if the path is feasible"""
        return self.prove(z3.BoolVal(False), name, detail, where)

    # -- journalled heap
    def jset(self, obj, attr, val, lazy=False):
        """journalled store; lazy = materialises a value that was there all along"""
        d = obj.__dict__ if not isinstance(obj, dict) else obj
        if self.nest_marks and getattr(obj, "sn", 0) > self.nest_marks[-1]:
            # made during the nested exploration: only its outcome can refer to it
            d[attr] = val
            return
        self.journal.append((obj, attr, d.get(attr, self), lazy))
        d[attr] = val

    def rollback(self, mark):
        while len(self.journal) > mark:
            obj, attr, old, _ = self.journal.pop()
            d = obj.__dict__ if not isinstance(obj, dict) else obj
            if old is self:
                d.pop(attr, None)
            else:
                d[attr] = old

    # -- fresh
    def fresh(self, sort, hint="k"):
        self.fresh_n += 1
        nm = f"{hint}!{self.fresh_n}"
        if self.active:
            f = z3.Function(nm, *[i.sort() for i in self.active], sort)
            return f(*self.active)
        return z3.Const(nm, sort)

    # -- universal facts over the elements of a segment
    def add_univ(self, n, idx, formula):
        self.univ.append((n, idx, formula))
        if any(idx.eq(a) for a in self.active):
            self.solver.add(formula)

    def instantiate(self, n, t):
        """assert all universal facts about sequences of length n at index t"""
        if not self.active:
            self.points.append((n, t))
        for i, (m, idx, f) in enumerate(list(self.univ)):
            if m.eq(n):
                g = z3.substitute(f, (idx, t))
                if i < self.known_univ and self.active and t.eq(self.active[-1]):
                    # known to the enclosing state for every index
                    self.solver.add(g)
                else:
                    self.assume(g)


def zand(xs):
    xs = list(xs)
    return z3.And(*xs) if len(xs) > 1 else (xs[0] if xs else z3.BoolVal(True))


def zor(xs):
    xs = list(xs)
    return z3.Or(*xs) if len(xs) > 1 else (xs[0] if xs else z3.BoolVal(False))


def vsubst(v, sub, memo=None):
    """substitute z3 terms inside a value (template instantiation)"""
    if memo is None:
        memo = {}
    k = id(v)
    if k in memo:
        return memo[k]
    z = lambda t: z3.substitute(t, *sub)
    if isinstance(v, Sym):
        r = Sym(z(v.t))
    elif isinstance(v, SType):
        r = SType(z(v.t))
    elif isinstance(v, STypeArgs):
        r = STypeArgs(z(v.t))
    elif isinstance(v, Rope):
        r = Rope([_psubst(p, sub, memo) for p in v.parts])
    elif isinstance(v, Cases):
        r = Cases([(z(c), vsubst(x, sub, memo)) for c, x in v.cases])
    elif isinstance(v, VSeq):
        r = type(v)([])
        memo[k] = r
        r.items = [ssubst(s, sub, memo) for s in v.items]
    elif isinstance(v, VObj):
        nid = z(v.id) if v.id is not None else None
        if v.lazy and not v.attrs:
            r = VObj(v.dom, nid, {}, True, v.sort)
        else:
            r = VObj(v.dom, nid, {}, v.lazy, v.sort)
            memo[k] = r
            for a, x in v.attrs.items():
                r.attrs[a] = vsubst(x, sub, memo)
    elif isinstance(v, VDict):
        r = VDict([(vsubst(a, sub, memo), vsubst(b, sub, memo)) for a, b in v.entries], v.base, v.default)
    elif isinstance(v, VBound):
        r = VBound(vsubst(v.self_, sub, memo), v.fn)
    elif isinstance(v, Opaque):
        nid = z(v.id) if v.id is not None else None
        r = Opaque(v.tag, {}, nid, v.isa)
        memo[k] = r
        r.attrs = {a: vsubst(x, sub, memo) for a, x in v.attrs.items()}
    elif isinstance(v, tuple):
        r = tuple(vsubst(x, sub, memo) for x in v)
    elif isinstance(v, z3.ExprRef):
        r = z(v)
    else:
        r = v
    memo[k] = r
    return r


def _psubst(p, sub, memo):
    z = lambda t: z3.substitute(t, *sub)
    if isinstance(p, Atom):
        return Atom(z(p.t), p.kind, vsubst(p.ref, sub, memo) if isinstance(p.ref, Value) else p.ref)
    if isinstance(p, DecAtom):
        return DecAtom(z(p.t))
    if isinstance(p, JoinPart):
        return JoinPart(p.sep, ssubst(p.seg, sub, memo))
    if isinstance(p, OptSep):
        return OptSep(p.sep, [ssubst(s, sub, memo) for s in p.left], [ssubst(s, sub, memo) for s in p.right])
    return p


def ssubst(s, sub, memo):
    if isinstance(s, One):
        return One(vsubst(s.v, sub, memo))
    if isinstance(s, Many):
        z = lambda t: z3.substitute(t, *sub)
        # the bound index of s is not captured: idx constants are unique per length
        if any(s.idx.eq(a) for a, _ in sub):
            return s
        r = Many(z(s.n), s.idx, vsubst(s.val, sub, memo), None if s.cond is None else z(s.cond), s.distinct)
        r.pos = s.pos
        r.key = None if s.key is None else vsubst(s.key, sub, memo)
        return r
    return s


def vkey(v):
    """canonical key of a value: equal keys mean equal values"""
    if isinstance(v, (Sym, SType, STypeArgs)):
        return (type(v).__name__, v.t.sexpr())
    if isinstance(v, Rope):
        return ("rope",) + tuple(pkey(p) for p in v.parts)
    if isinstance(v, VObj):
        if v.lazy and v.id is not None:
            return ("obj", v.id.sexpr())
        return ("objid", id(v))
    if isinstance(v, VTuple):
        return ("tuple",) + tuple(skey(s) for s in v.items)
    if isinstance(v, (str, int, bool, type(None))):
        return ("c", type(v).__name__, v)
    if isinstance(v, tuple):
        return ("pytuple",) + tuple(vkey(x) for x in v)
    return ("id", id(v))


def pkey(p):
    if isinstance(p, str):
        return p
    if isinstance(p, Atom):
        return ("atom", p.t.sexpr(), p.kind)
    if isinstance(p, DecAtom):
        return ("dec", p.t.sexpr())
    if isinstance(p, JoinPart):
        return ("join", p.sep, skey(p.seg))
    return ("part", id(p))


def skey(s):
    if isinstance(s, One):
        return ("one", vkey(s.v))
    if isinstance(s, Many):
        return ("many", s.n.sexpr(), s.idx.sexpr(), vkey(s.val), None if s.cond is None else s.cond.sexpr())
    return ("seg", id(s))


def mkcases(cs):
    """Cases with equal values merged; a single value is returned as such"""
    out = {}
    for c, v in cs:
        k = vkey(v)
        if k in out:
            out[k] = (z3.Or(out[k][0], c), out[k][1])
        else:
            out[k] = (c, v)
    l = list(out.values())
    return l[0][1] if len(l) == 1 else Cases(l)
