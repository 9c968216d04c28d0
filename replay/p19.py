"""the problem handed to Rosette (and the grammars of the SyGuS query): texts are read
back and compared with what was asked for"""
import itertools
import os
import env
import metalift.ir as ir
import metalift.rosette_translator as rt
from replay.lib import one_sexpr

INT, BOOL = ir.Int, ir.Bool
LIST, SET, MAT, TEN = ir.List[ir.Int], ir.Set[ir.Int], ir.Matrix[ir.Int], ir.Tensor3D[ir.Int]
T2, T3 = ir.Tuple[tuple[ir.Int, ir.Int]], ir.Tuple[tuple[ir.Int, ir.Bool, ir.Int]]


def sexprs(text):
    """all s-expressions of a text; [ ] are ( )"""
    out, stack, i, n = [], [[]], 0, len(text)
    while i < n:
        c = text[i]
        if c == ";" or text.startswith("#lang", i):
            while i < n and text[i] != "\n":
                i += 1
        elif c.isspace() or c == "'":
            i += 1
        elif c in "([":
            stack.append([])
            i += 1
        elif c in ")]":
            x = stack.pop()
            stack[-1].append(x)
            i += 1
        elif c == '"':
            j = i + 1
            while text[j] != '"':
                j += 2 if text[j] == "\\" else 1
            stack[-1].append(text[i:j + 1])
            i = j + 1
        else:
            j = i
            while j < n and not text[j].isspace() and text[j] not in "()[]\"":
                j += 1
            stack[-1].append(text[i:j])
            i = j
    if len(stack) != 1:
        raise ValueError("parentheses")
    return stack[0]


def frozen(x):
    return tuple(map(frozen, x)) if isinstance(x, list) else x


# ---- grammars -------------------------------------------------------------------
class Gen:
    def __init__(self, r):
        self.r, self.pool, self.n = r, {}, 0

    def leaf(self, t):
        r = self.r
        if t == INT:
            return r.choice([ir.Var("x", INT), ir.Var("y", INT), ir.IntLit(r.randrange(4))])
        if t == BOOL:
            return r.choice([ir.Var("p", BOOL), ir.BoolLit(True)])
        return r.choice([ir.Var("l", t), ir.Var("m", t)])

    def expr(self, t, d):
        r = self.r
        ps = self.pool.setdefault(str(t), [])
        if ps and r.random() < .3:
            # the same grammar node at several places, or an equal one
            return r.choice(ps)
        if d == 0 or r.random() < .15:
            return self.leaf(t)
        if r.random() < .4:
            e = ir.Choose(*[self.expr(t, d - 1) for _ in range(r.choice([1, 2, 2, 3, 4, 5]))])
            ps.append(e)
            return e
        s = lambda u: self.expr(u, d - 1)
        k = r.random()
        if t == INT:
            if k < .15:
                return r.choice([ir.Add, ir.Mul])(*[s(INT) for _ in range(r.choice([3, 4, 5]))])
            if k < .5:
                return r.choice([ir.Add, ir.Sub, ir.Mul])(s(INT), s(INT))
            if k < .7:
                return ir.Ite(s(BOOL), s(INT), s(INT))
            if k < .85:
                return ir.Call("fn", INT, *[s(r.choice([INT, BOOL])) for _ in range(r.choice([2, 2, 4, 6]))])
            return ir.Call("list_length", INT, s(LIST))
        if t == BOOL:
            if k < .4:
                return r.choice([ir.Lt, ir.Le, ir.Gt, ir.Ge, ir.Eq])(s(INT), s(INT))
            if k < .7:
                return r.choice([ir.And, ir.Or])(*[s(BOOL) for _ in range(r.choice([2, 2, 3, 4]))])
            if k < .85:
                return ir.Not(s(BOOL))
            return ir.Eq(s(LIST), s(LIST))
        return r.choice([lambda: ir.Call("list_append", LIST, s(LIST), s(INT)), lambda: ir.Call("list_tail", LIST, s(LIST), s(INT))])()


def candidates(e, cap=300):
    """the expressions a grammar stands for"""
    if isinstance(e, ir.Choose):
        out = []
        for a in e.args:
            out += candidates(a, cap)
            if len(out) > cap:
                raise OverflowError
        return out
    if isinstance(e, (ir.Var, ir.Lit)):
        return [e]
    first = 1 if isinstance(e, ir.Call) else 0
    parts = [candidates(a, cap) for a in e.args[first:]]
    n = 1
    for p in parts:
        n *= len(p)
    if n > cap:
        raise OverflowError
    mk = (lambda *a: ir.Call(e.args[0], e.type, *a)) if isinstance(e, ir.Call) else type(e)
    return [mk(*c) for c in itertools.product(*parts)]


def choices_in(e):
    out = [e] if isinstance(e, ir.Choose) else []
    for a in e.args:
        if isinstance(a, ir.Expr):
            out += choices_in(a)
    return out


def expand(x, prods, call, depth=12, cap=3000):
    """the terms a grammar text stands for; call: nonterminals are written (v0)"""
    if depth == 0:
        raise RecursionError("the grammar does not end")
    nt = x[0] if call and isinstance(x, list) and len(x) == 1 and isinstance(x[0], str) else x if not call and isinstance(x, str) else None
    if nt in prods:
        return frozenset().union(*[expand(y, prods, call, depth - 1) for y in prods[nt]])
    if isinstance(x, str):
        return frozenset([x])
    parts = [expand(y, prods, call, depth) for y in x]
    n = 1
    for p in parts:
        n *= max(len(p), 1)
    if n > cap:
        raise OverflowError
    return frozenset(itertools.product(*parts))


def grammars(R):
    r = R.rng
    for k in range(400 if not R.thorough else 6000):
        if R.over():
            return
        g = Gen(r)
        t = r.choice([INT, BOOL, LIST])
        body = g.expr(t, r.choice([1, 2, 3, 4]))
        try:
            cs = candidates(body)
        except OverflowError:
            continue
        ps = [ir.Var("x", INT), ir.Var("y", INT), ir.Var("p", BOOL), ir.Var("l", LIST), ir.Var("m", LIST)]
        r.shuffle(ps)
        src = repr(body)
        kind = f"grammar/{t}/{len(cs) > 1}/{'shared' if any(src.count(repr(c)) > 1 for v in g.pool.values() for c in v) else ''}"
        R.case(kind, src)
        choices = {}
        try:
            text = ir.Synth("f", body, *ps).to_rosette(choices)
            x = sexprs(text)
            ok = len(x) == 1 and x[0][0] == "define-grammar" and x[0][1] == ["f_gram"] + [p.args[0] for p in ps]
            R.check(ok, "grammar:rosette:head", "the head of the grammar", src, "(define-grammar (f_gram parameters) ..)", text)
            prods = {}
            for p in x[0][2:]:
                R.check(len(p) == 2 and p[0] not in prods and p[1][0] == "choose", "grammar:rosette:rule", "a rule of the grammar", src, "[name (choose ..)]", p)
                prods[p[0]] = p[1][1:]
            start = x[0][2][0]
            got = frozenset().union(*[expand(y, prods, True) for y in prods[start]])
            want = frozenset(frozen(one_sexpr(c.to_rosette())) for c in cs)
            R.check(got == want, "grammar:rosette:language", "the candidates of the Rosette grammar", src, sorted(map(str, want))[:20], text)
            rec = {v: sexprs("(" + e.to_rosette() + ")")[0] for v, e in choices.items()}
            R.check(rec == {v: p for v, p in prods.items() if v != start}, "grammar:rosette:recorded", "the alternatives recorded for reading the solution", src, prods, rec)
        except OverflowError:
            pass
        except Exception as ex:
            R.violation("grammar:rosette:raised", "a grammar that cannot be printed or read", src, "a grammar", repr(ex))
        try:
            text = ir.Synth("f", body, *ps).toSMT()
            x = sexprs(text)
            sort = lambda u: sexprs(u.toSMTType(ir.get_args(u)))[0]
            head, name, params, ret, decl, rules = x[0]
            ok = len(x) == 1 and head == "synth-fun" and name == "f" and params == [[p.args[0], sort(p.type)] for p in ps] and ret == sort(t)
            R.check(ok, "grammar:sygus:head", "the head of the function to synthesize", src, "(synth-fun f (parameters) sort ..)", text)
            R.check([d[:2] for d in decl] == [q[:2] for q in rules] and all(len(d) == 2 for d in decl) and decl[0][1] == sort(t), "grammar:sygus:sorts", "the non-terminals and their sorts", src, decl, rules)
            prods = {q[0]: q[2] for q in rules}
            R.check(len(prods) == len(rules), "grammar:sygus:rule", "non-terminals are different", src, decl, rules)
            got = frozenset().union(*[expand(y, prods, False) for y in prods[decl[0][0]]])
            want = frozenset(frozen(one_sexpr(c.toSMT())) for c in cs)
            sorts = {}
            for c in choices_in(body):
                sorts[frozenset(frozen(one_sexpr(x.toSMT())) for x in candidates(c))] = sort(c.type)
            bad = [d for d in decl[1:] if sorts.get(frozenset().union(*[expand(y, prods, False) for y in prods[d[0]]])) != d[1]]
            R.check(not bad, "grammar:sygus:nonterminal-sort", "a non-terminal has the sort of its alternatives", src, sorted(set(map(str, sorts.values()))), f"{bad} in {text}")
            R.check(got == want, "grammar:sygus:language", "the candidates of the SyGuS grammar", src, sorted(map(str, want))[:20], text)
        except OverflowError:
            pass
        except Exception as ex:
            R.violation("grammar:sygus:raised", "a grammar that cannot be printed or read", src, "a grammar", repr(ex))


# ---- symbolic variables ------------------------------------------------------------
def evaluate(x, e):
    if isinstance(x, str):
        return int(x) if x.lstrip("-").isdigit() else e[x]
    a = [evaluate(y, e) for y in x[1:] if y != "<"]
    if x[0] == "list":
        return a
    if x[0] == "take":
        if not 0 <= a[1] <= len(a[0]):
            raise IndexError("take")
        return a[0][:a[1]]
    if x[0] == "remove-duplicates":
        return [y for i, y in enumerate(a[0]) if y not in a[0][:i]]
    if x[0] == "sort":
        return sorted(a[0])
    raise ValueError(x[0])


def wanted(t, syms, N, lens):
    """the value the variable has, and the symbolic constants it consumes, in order of their elements"""
    if t == INT or t == BOOL:
        return next(syms)
    if ir.is_tuple_type(t):
        return [wanted(u, syms, N, lens) for u in ir.get_args(ir.get_args(t)[0])]
    n = next(lens)
    if ir.is_tensor3d_type(t):
        return [[[next(syms) for _ in range(N)] for _ in range(N)] for _ in range(N)][:n]
    if ir.is_matrix_type(t):
        return [[next(syms) for _ in range(N)] for _ in range(N)][:n]
    elems = [wanted(ir.get_args(t)[0], syms, N, lens) for _ in range(N)][:n]
    return sorted(set(elems)) if ir.is_set_type(t) else elems


def declared(decls):
    """the definitions in order, evaluated; symbolic constants get the values of `values`"""
    sym, defs = {}, []
    for d in decls:
        for x in sexprs(d):
            if x[0] == "define-symbolic" and len(x) == 3:
                if x[1] in sym:
                    raise ValueError(f"{x[1]} is declared twice")
                sym[x[1]] = x[2]
                defs.append((x[1], None))
            elif x[0] == "define" and len(x) == 3:
                defs.append((x[1], x[2]))
            else:
                raise ValueError(x)
    return sym, defs


def check_vars(R, tag, vs, decls, vars_all, N, src):
    try:
        sym, defs = declared(decls)
    except Exception as ex:
        R.violation(f"{tag}:read", "declarations of variables", src, "definitions", repr(ex) + " " + str(decls))
        return
    R.check(sorted(vars_all) == sorted(sym), f"{tag}:forall", "the variables the solution is for all values of", src, sorted(sym), sorted(vars_all))
    R.check(all(v in ("integer?", "boolean?") for v in sym.values()), f"{tag}:types", "types of symbolic constants", src, "integer? boolean?", sym)
    for trial in range(4):
        env_, lens_used = {}, []
        count = itertools.count(1)
        try:
            # first the constants: lengths are those used as second operand of take
            def lengths(x):
                if isinstance(x, list):
                    if x[0] == "take":
                        lens_used.append(x[2])
                    for y in x:
                        lengths(y)
            for n, x in defs:
                lengths(x)
            for n, x in defs:
                if x is None:
                    env_[n] = R.rng.randrange(N + 1) if n in lens_used else R.rng.randrange(3) if trial == 3 and N < 9 else next(count)
                else:
                    env_[n] = evaluate(x, env_)
        except Exception as ex:
            R.violation(f"{tag}:undefined", "declarations of variables", src, "definitions before uses", repr(ex) + " " + str(decls))
            return
        for v in vs:
            mine = [n for n, x in defs if x is None and (n == v.args[0] or n.startswith(v.args[0] + "_"))]
            els, ls = [env_[n] for n in mine if n not in lens_used], [env_[n] for n in mine if n in lens_used]
            it, il = iter(els), iter(ls)
            try:
                # the length comes first, then the elements
                want = wanted(v.type, it, N, il)
            except (StopIteration, RuntimeError):
                R.violation(f"{tag}:{v.type}", "a variable has not all values within the bound", src, f"constants for {v.type}", decls)
                continue
            R.check(v.args[0] in env_ and env_[v.args[0]] == want and not list(it) and not list(il), f"{tag}:{v.type}", "the values of a variable", (src, env_), want, env_.get(v.args[0]))
            kinds = []
            flat(v.type, N, kinds)
            R.check(sorted(kinds) == sorted(sym[n] for n in mine), f"{tag}:{v.type}:sorts", "the types of a variable's constants", src, kinds, {n: sym[n] for n in mine})


def flat(t, N, out):
    if t == INT or t == BOOL:
        out.append("integer?" if t == INT else "boolean?")
    elif ir.is_tuple_type(t):
        for u in ir.get_args(ir.get_args(t)[0]):
            flat(u, N, out)
    else:
        out.append("integer?")
        if ir.is_tensor3d_type(t) or ir.is_matrix_type(t):
            out.extend(["integer?"] * (N ** (3 if ir.is_tensor3d_type(t) else 2)))
        else:
            for _ in range(N):
                flat(ir.get_args(t)[0], N, out)


TYPES = [INT, BOOL, LIST, SET, MAT, TEN, T2, T3, ir.List[BOOL], ir.List[T2]]


def variables(R):
    for t in TYPES:
        for N in range(1, 5):
            R.case(f"var/{t}/{N}")
            decls, al = [], []
            try:
                rt.gen_var(ir.Var("v", t), decls, al, N)
            except Exception as ex:
                R.violation(f"var:{t}:refused", "a variable that is refused", f"{t} bound {N}", "declarations", repr(ex))
                continue
            check_vars(R, f"var:{t}", [ir.Var("v", t)], decls, al, N, f"{t} bound {N}")


# ---- complete files -------------------------------------------------------------------
def norm(x):
    return frozen(x)


def files(R):
    r = R.rng
    for k in range(60 if not R.thorough else 1200):
        if R.over():
            return
        names = [f"fn{i}" for i in range(r.randrange(4))]
        lang = []
        for n in names:
            ps = [ir.Var("a", INT), ir.Var("b", BOOL)][:r.randrange(1, 3)]
            body = None if r.random() < .25 else ir.Add(ps[0], ir.IntLit(r.randrange(5)))
            lang.append(r.choice([ir.FnDecl, ir.FnDeclRecursive])(n, INT, body, *ps))
        un = [f.args[0] for f in lang if f.args[1] is None]
        if r.random() < .4:
            lang.insert(r.randrange(len(lang) + 1), ir.Axiom(ir.Eq(ir.Var("q", INT), ir.Var("q", INT)), *([ir.Var("q", INT)] if r.random() < .6 else [])))
        N = r.randrange(1, 4)
        vs = [ir.Var(n, r.choice(TYPES)) for n in r.sample(["x", "y", "z", "w"], r.randrange(1, 4))]
        ints = [v for v in vs if v.type == INT] or [ir.IntLit(1)]
        more = [ir.Var(f"e{j}", INT) for j in range(r.choice([0, 0, 1, 9, 12]))]
        synths = [ir.Synth(n, ir.Choose(ir.Eq(ir.Var("c", INT), ir.IntLit(i)), ir.BoolLit(True)), ir.Var("c", INT), ir.Var("d", BOOL), *more) for i, n in enumerate(["f_inv0", "f_ps"][:r.randrange(1, 3)])]
        vc = ir.And(*[ir.Call(s.args[0], BOOL, ints[0], ir.BoolLit(True), *([ir.IntLit(0)] * len(more))) for s in synths], ir.BoolLit(True))
        unb, verify, rounds = r.random() < .5, r.random() < .2, r.choice([0, 0, 0, 1, 2, 3])
        guess = synths[:r.randrange(1, 3)] if rounds else []
        src = f"functions {[(f.args[0], f.args[1] is None) if not isinstance(f, ir.Axiom) else 'axiom' for f in lang]} vars {[(v.args[0], str(v.type)) for v in vs]} bound {N} synth {[s.args[0] for s in synths]} rounds {rounds} unbounded {unb} verify {verify}"
        R.case(f"file/{verify}/{rounds}/{bool(lang)}/{bool(un)}/{unb}", src)
        choices = r.choice([None, {}])
        try:
            rt.to_rosette("base", "out.rkt", lang, set(vs), synths, [], vc, synths, rounds, guess, [], unb, N, choices, verify, un)
            text = open("out.rkt").read()
            os.unlink("out.rkt")
            xs = [x for x in sexprs(text) if isinstance(x, list)]
        except Exception as ex:
            R.violation("file:raised", "a problem that is not written", src, "a Rosette file", repr(ex))
            continue
        check_file(R, src, text, xs, lang, un, N, vs, synths, vc, unb, verify, rounds, guess)
        if choices is not None:
            R.check(sorted(choices) == sorted(s.args[0] for s in synths) and all(set(choices[s.args[0]]) == {"v0"} for s in synths), "file:choices", "the recorded alternatives", src, [s.args[0] for s in synths], choices)


def check_file(R, src, text, xs, lang, un, N, vs, synths, vc, unb, verify, rounds, guess):
    rest = [norm(x) for x in xs if x[0] not in ("require", "current-solver")]

    def take(want, tag, what):
        for w in want:
            n = norm(w)
            if n in rest:
                rest.remove(n)
            else:
                R.violation(f"file:{tag}", what, src, w, text)
                return

    pos = lambda w: [norm(x) for x in xs].index(norm(w)) if norm(w) in [norm(x) for x in xs] else -1
    fns = [f for f in lang if not isinstance(f, ir.Axiom)]
    take([x for f in fns for x in sexprs(f.to_rosette(is_uninterp=f.args[0] in un))], "functions", "a function of the target language is not defined once")
    take([sexprs(s.to_rosette())[0] for s in synths], "grammars", "a grammar is missing")
    take([["define", [s.args[0]] + [a.args[0] for a in s.args[2:]], [s.args[0] + "_gram"] + [a.args[0] for a in s.args[2:]] + ["#:depth", "10"]] for s in synths],
         "synth", "a function to synthesize is not an instance of its grammar")
    vardecl = [x for x in xs if x[0] == "define-symbolic" and len(x) == 3 and x[2] in ("integer?", "boolean?") or x[0] == "define" and isinstance(x[1], str) and not x[1].startswith("sol")]
    asserts = ["define", ["assertions"], ["assert", sexprs(vc.to_rosette())[0]]]
    take([asserts], "assertions", "the assertions are not the condition to prove")
    take([["current-bitwidth", "#f" if unb else "6"]], "bitwidth", "the width of integers")
    for x in vardecl:
        if norm(x) in rest:
            rest.remove(norm(x))
    syms = [x[1] for x in vardecl if x[0] == "define-symbolic"]
    mine = [x for x in vardecl]
    text_of = lambda x: x if isinstance(x, str) else "(" + " ".join(map(text_of, x)) + ")"
    check_vars(R, "file", vs, [text_of(x) for x in mine], syms, N, src)
    R.check(all(pos(x) < pos(asserts) for x in vardecl), "file:order", "variables are defined before the assertions", src, "before", text)
    if verify:
        take([["verify", ["assertions"]]], "verify", "verification is not asked for")
    else:
        for i in range(rounds + 1):
            s = f"sol{i}"
            d = [x for x in xs if x[0] == "define" and x[1] == s]
            ok = len(d) == 1 and len(d[0]) == 3 and d[0][2][0] == "synthesize" and len(d[0][2]) == 5 and d[0][2][1] == "#:forall" and d[0][2][3] == "#:guarantee"
            R.check(ok, "file:synthesize", "a round asks once", (src, i), "(define sol (synthesize #:forall .. #:guarantee ..))", d)
            if not ok:
                continue
            fa, gu = d[0][2][2], d[0][2][4]
            R.check(fa[0] == "list" and sorted(fa[1:]) == sorted(syms), "file:forall", "the solution is not for all values of the variables", (src, i), syms, fa)
            gu = gu[1:] if gu[0] == "begin" else [gu]
            R.check(gu.count(["assertions"]) == 1 and gu[-1] == ["assertions"], "file:guarantee", "the assertions are not what is guaranteed", (src, i), "(assertions)", gu)
            prev = set()
            for a in gu:
                if a == ["assertions"]:
                    continue
                ok = a[0] == "assume" and a[1][0] == "||"
                alts = set()
                sols = set()
                for c in a[1][1:] if ok else []:
                    # (! (eq? call (evaluate call sol)))
                    ok = ok and c[0] == "!" and c[1][0] == "eq?" and c[1][2][0] == "evaluate" and c[1][1] == c[1][2][1]
                    if ok:
                        alts.add(frozen(c[1][1]))
                        sols.add(c[1][2][2])
                ok = ok and len(sols) == 1 and alts == {(g.args[0],) + tuple(p.args[0] for p in g.args[2:]) for g in guess}
                R.check(ok, "file:rounds", "a round does not exclude the earlier solutions", (src, i), "(assume (|| (! (eq? call (evaluate call sol))) ..))", a)
                prev |= sols
            R.check(prev == {f"sol{j}" for j in range(i)}, "file:rounds:all", "a round does not exclude every earlier solution", (src, i), [f"sol{j}" for j in range(i)], sorted(prev))
            if norm(d[0]) in rest:
                rest.remove(norm(d[0]))
            take([["print-forms", s]], "print", "the solution is not printed")
            outs = [x for x in xs if x[0] == "with-output-to-file" and x[1] == f'"synthesisLogs/base_{s}"']
            R.check(len(outs) == 1 and f"print-forms {s}" in text_of(outs[0]), "file:output", "the solution is not written to its file", (src, i), s, outs)
    extra = [x for x in rest if x[0] in ("define", "define-symbolic", "define-symbolic*", "assert", "assume", "define-grammar", "define-bounded", "verify", "synthesize", "current-bitwidth")]
    R.check(not extra, "file:extra", "definitions or assertions nobody asked for", src, [], extra)


def run(R):
    variables(R)
    files(R)
    grammars(R)
