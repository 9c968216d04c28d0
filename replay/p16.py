"""the file written for cvc5 against the problem it was written for: definitions are
read back and evaluated"""
import contextlib
import importlib.resources as resources
import io
import itertools
import os
import re
import subprocess
import types
from .lib import Bad, Skip, sexprs, euclid
import metalift.ir as ir
import metalift.smt_util as su
import metalift.synthesis_common as sc
from metalift import utils

I, B = ir.Int, ir.Bool
FN = ir.Fn[tuple[ir.Int, ir.Int]]
V = lambda n, t=I: ir.Var(n, t)


# ---- the meaning of expressions, with user functions (fns: name -> declaration) --------
def ev(e, env, fns, fuel):
    if fuel[0] <= 0:
        raise Skip()
    fuel[0] -= 1
    r = lambda x: ev(x, env, fns, fuel)
    if isinstance(e, ir.Object):
        return r(e.src)
    c = type(e).__name__
    if c == "Var":
        return env[e.args[0]]
    if c == "Lit":
        return e.args[0]
    if c == "Ite":
        return r(e.args[1]) if r(e.args[0]) else r(e.args[2])
    if c == "And":
        return all(r(a) for a in e.args)
    if c == "Or":
        return any(r(a) for a in e.args)
    if c == "Implies":
        return (not r(e.args[0])) or r(e.args[1])
    if c == "Not":
        return not r(e.args[0])
    if c == "Call":
        return apply(e.args[0], [a.args[0] if ir.is_fn_decl_type(a.type) and a.args[0] not in env else r(a) for a in e.args[1:]], fns, fuel)
    if c == "CallValue":
        return apply(env.get(e.args[0].args[0], e.args[0].args[0]), [r(a) for a in e.args[1:]], fns, fuel)
    xs = [r(a) for a in e.args]
    return op2(c, xs)


def op2(c, xs):
    if c == "Add":
        return sum(xs)
    if c == "Sub":
        return -xs[0] if len(xs) == 1 else xs[0] - xs[1]
    if c == "Mul":
        p = 1
        for x in xs:
            p *= x
        return p
    if c in ("Div", "Mod"):
        return euclid(*xs)[c == "Mod"]
    return {"Eq": lambda a, b: a == b, "Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b}[c](*xs)


def apply(f, xs, fns, fuel):
    d = fns[f]
    return ev(d.args[1], {p.args[0]: x for p, x in zip(d.args[2:], xs)}, fns, fuel)


# ---- the meaning of the file ------------------------------------------------------------
OPS = {"+": "Add", "-": "Sub", "*": "Mul", "div": "Div", "mod": "Mod", "=": "Eq", "<": "Lt", "<=": "Le", ">": "Gt", ">=": "Ge"}


def evs(x, env, defs, fuel):
    if fuel[0] <= 0:
        raise Skip()
    fuel[0] -= 1
    r = lambda y: evs(y, env, defs, fuel)
    if isinstance(x, str):
        if re.fullmatch(r"\d+", x):
            return int(x)
        if x in ("true", "false"):
            return x == "true"
        if x in env:
            return env[x]
        if x in defs and not defs[x][0]:
            return evs(defs[x][1], {}, defs, fuel)
        raise Bad(f"{x} is not declared")
    h = x[0]
    if h == "ite":
        return r(x[2]) if r(x[1]) else r(x[3])
    if h == "and":
        return all(r(a) for a in x[1:])
    if h == "or":
        return any(r(a) for a in x[1:])
    if h == "=>":
        return (not r(x[1])) or r(x[2])
    if h == "not":
        return not r(x[1])
    if h in OPS:
        return op2(OPS[h], [r(a) for a in x[1:]])
    if h == "let":
        e2 = dict(env)
        e2.update({n: r(v) for n, v in x[1]})
        return evs(x[2], e2, defs, fuel)
    if h not in defs:
        raise Bad(f"{h} is not declared")
    ps, body = defs[h]
    if len(ps) != len(x) - 1:
        raise Bad(f"{h} is called with {len(x) - 1} operands and has {len(ps)} parameters")
    return evs(body, dict(zip(ps, [r(a) for a in x[1:]])), defs, fuel)


def used(x):
    if isinstance(x, str):
        return {x}
    return set().union(*map(used, x)) if x else set()


def read(text, synth=False):
    """definitions, constants, axioms, conditions"""
    for f in ["tuples.smt"] + ([] if synth else ["integer-fn-axioms.smt", "list-axioms.smt"]):
        p = resources.read_text(utils, f)
        if not text.startswith(p):
            raise Bad(f"{f} is not at its place")
        text = text[len(p):]
    defs, consts, axioms, conds, cmds = {}, {}, [], [], []
    for x in sexprs(text):
        if x[0] in ("define-fun", "define-fun-rec"):
            if x[1] in defs:
                raise Bad(f"{x[1]} is defined twice")
            for n, s in x[2]:
                if s not in ("Int", "Bool"):
                    raise Bad(f"parameter {n} of {x[1]} has sort {s}")
            known = set(defs) | ({x[1]} if x[0] == "define-fun-rec" else set()) | {n for n, _ in x[2]}
            free = {w for w in used(x[4]) if re.match(r"[A-Za-z_]", w)} - {"ite", "and", "or", "not", "div", "mod", "let", "true", "false"} - known
            free = {w for w in free if not re.fullmatch(r"v\d+", w)}
            if free:
                raise Bad(f"{x[1]} uses {sorted(free)} before the definition")
            defs[x[1]] = ([n for n, _ in x[2]], x[4])
        elif x[0] in ("declare-const", "declare-var"):
            if x[1] in consts:
                raise Bad(f"{x[1]} is declared twice")
            consts[x[1]] = x[2]
        elif x[0] == "assert" and x[1][0] == "forall":
            axioms.append((x[1][1], x[1][2], set(defs)))
        elif x[0] == "assert":
            conds.append(x[1])
        else:
            cmds.append(x[0])
    if len(conds) != 1:
        raise Bad(f"{len(conds)} conditions")
    return defs, consts, axioms, conds[0], cmds


def dump(e):
    if isinstance(e, ir.Object):
        return dump(e.src)
    if isinstance(e, ir.Expr):
        return (type(e).__name__, str(e.type), tuple(dump(a) for a in e.args))
    return (type(e).__name__, repr(e))


# ---- problems ------------------------------------------------------------------------------
class Gen:
    def __init__(self, rng):
        self.rng = rng

    def int_(self, depth, leaves, calls):
        r = self.rng
        if depth <= 0 or r.random() < 0.15:
            return r.choice(leaves) if r.random() < 0.8 else ir.Lit(r.choice((0, 1, 2, -3, 5)), I)
        k = r.randrange(9)
        s = lambda: self.int_(depth - 1, leaves, calls)
        if k < 2:
            return ir.Add(s(), s())
        if k == 2:
            return ir.Sub(s(), s())
        if k == 3:
            return ir.Mul(s(), r.choice(leaves))
        if k == 4:
            return ir.Ite(self.bool_(depth - 1, leaves, calls), s(), s())
        if calls:
            f, n, fn = r.choice(calls)
            if fn is not None and f is None:
                return ir.CallValue(V(fn, FN), s())
            a = [s() for _ in range(n)]
            if fn is not None:
                a.insert(r.choice((0, len(a))) if False else len(a), V(fn, FN))
            return ir.Call(f, I, *a)
        return ir.Add(s(), ir.Lit(r.randint(-3, 3), I))

    def bool_(self, depth, leaves, calls):
        r = self.rng
        s = lambda: self.int_(depth - 1, leaves, calls)
        k = r.randrange(6)
        if depth > 0 and k < 2:
            return getattr(ir, r.choice(("And", "Or", "Implies")))(self.bool_(depth - 1, leaves, calls), self.bool_(depth - 1, leaves, calls))
        if depth > 0 and k == 2:
            return ir.Not(self.bool_(depth - 1, leaves, calls))
        return getattr(ir, r.choice(("Eq", "Lt", "Le", "Gt", "Ge")))(s(), s())


def run(R):
    path = os.path.join(os.getcwd(), "q.smt")
    graphs(R, path, 3)
    higher(R, path, 150 if not R.thorough else 4000)
    first_order(R, path, 150 if not R.thorough else 4000)
    unions(R)
    rewriters(R)
    if R.thorough:
        graphs(R, path, 4)


def judge(R, kind, sig, text, lang, cands, vars_, vc, extra="", synth=False, laws=()):
    """the file states the problem"""
    fns = {d.args[0]: d for d in list(lang) + list(cands)}
    given = extra or "; ".join(f"{d.args[0]}({', '.join(a.args[0] for a in d.args[2:])}) = {d.args[1]}" for d in fns.values()) + f"; vc {vc}"
    try:
        defs, consts, axioms, cond, cmds = read(text, synth)
        want = {v.args[0]: {I: "Int", B: "Bool"}[v.type] for v in vars_}
        R.check(consts == want, sig + ":vars", "one constant per variable", kind, want, consts)
        R.check(cmds[:1] == ["check-sat"], sig + ":command", "the command", kind, "check-sat", cmds)
        R.check(len(axioms) == len(laws), sig + ":axioms", "the axioms of the language", kind, len(laws), len(axioms))
        for k in range(8):
            env = {n: (R.rng.randint(-3, 4) if s == "Int" else R.rng.random() < 0.5) for n, s in want.items()}
            try:
                a = not ev(vc, env, fns, [20000])
                b = evs(cond, env, defs, [60000])
            except (Skip, RecursionError):
                continue
            R.check(a == b, sig, "the assertion is the negated condition", f"{kind}: {given} env {env}", a, b)
            for (ps, body, _), law in zip(axioms, laws):
                if any(ir.is_fn_decl_type(p.type) for p in law.args[1:]):
                    continue
                e2 = {n: R.rng.randint(-3, 4) for n, _ in ps}
                try:
                    a = ev(law.args[0], e2, fns, [20000])
                    b = evs(body, e2, defs, [60000])
                except (Skip, RecursionError):
                    continue
                R.check(a == b, sig + ":axiom", "an axiom says what it said", f"{kind}: {law} env {e2}", a, b)
    except Bad as ex:
        R.violation(sig + ":" + re.sub(r"[^a-z ]", "", str(ex))[:40], "the file states the problem", f"{kind}: {given}", "readable file", f"{ex}\n{text[-1500:]}")


def unchanged(R, kind, sig, before, objs):
    R.check(before == [dump(o) for o in objs], sig + ":changed", "what was given is unchanged", kind, "unchanged", "changed")


def graphs(R, path, n):
    """every acyclic call graph and order of n functions"""
    names = ["kb", "ka", "kd", "kc"][:n]
    pairs = [(i, j) for i in range(n) for j in range(i)]
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        if R.over():
            return
        uses = {i: [j for (a, j), b in zip(pairs, bits) if b and a == i] for i in range(n)}
        lang = []
        for i in range(n):
            body = ir.Add(V("x"), ir.Lit(i + 1, I), *[ir.Mul(ir.Lit(j + 2, I), ir.Call(names[j], I, ir.Add(V("x"), ir.Lit(1, I)))) for j in uses[i]])
            lang.append((ir.FnDeclRecursive if i % 2 else ir.FnDecl)(names[i], I, body, V("x")))
        law = ir.Axiom(ir.Eq(ir.Call(names[-1], I, V("a")), ir.Call(names[0], I, V("a"))), V("a"))
        ps = ir.FnDeclRecursive("ps", B, ir.Ge(ir.Call(names[-1], I, V("r")), ir.Call(names[0], I, V("x"))), V("r"), V("x"))
        inv = ir.FnDeclRecursive("inv", B, ir.Implies(ir.Call("ps", B, V("x"), V("x")), ir.Lit(True, B)), V("x"))
        vs = [V("u"), V("w")]
        vc = ir.Implies(ir.Call("inv", B, vs[0]), ir.Call("ps", B, vs[1], vs[0]))
        for order in itertools.permutations(range(n)):
            for cands in ([ps, inv], [inv, ps]):
                R.case(f"graph{n}/{bits}/{order}")
                l = [lang[i] for i in order] + [law]
                before = [dump(o) for o in l + cands + [vc]]
                try:
                    su.toSMT(l, vs, list(cands), [], vc, path, [], [])
                except Exception as ex:
                    R.violation("toSMT:graph:raises", "the file is written", f"{bits} {order}", "a file", repr(ex))
                    continue
                unchanged(R, f"{bits} {order}", "toSMT:graph", before, l + cands + [vc])
                judge(R, f"graph {bits} order {order}", "toSMT:graph", open(path).read(), [x for x in l if x is not law], cands, vs, vc, laws=[law])
                # the SyGuS file has the same functions
        try:
            y = [ir.Synth(c.args[0], c.args[1], *c.args[2:]) for c in (ps, inv)]
            su.toSMT(list(lang), vs, y, [], vc, path, [], [], True)
            t = open(path).read()
            p = resources.read_text(utils, "tuples.smt")
            cmds = [x for x in sexprs(t[len(p):]) if t.startswith(p)]
            heads = [x[0] for x in cmds]
            R.check(heads.count("synth-fun") == 2 and heads.count("constraint") == 1 and heads[-1] == "check-synth", "toSMT:sygus", "commands of the SyGuS file", bits, "synth-fun x2, constraint, check-synth", heads)
            R.check([x[1:] for x in cmds if x[0] == "declare-var"] == [["u", "Int"], ["w", "Int"]], "toSMT:sygus:vars", "variables of the SyGuS file", bits, "u w", cmds)
        except Exception as ex:
            R.violation("toSMT:sygus:raises", "the SyGuS file is written", bits, "a file", repr(ex))


def through(R, path, lang, cands, vs, vc, loops=None):
    """the file verify_synth_result gives to cvc5"""
    got = {}

    class P:
        returncode = 0
        stdout = b"unsat\n"

    def run_(cmd, *a, **k):
        got["text"] = open(cmd[-1]).read()
        return P()
    real = subprocess.run
    subprocess.run = run_
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            d = os.path.dirname(path) + "/"
            r, _ = sc.verify_synth_result("job", lang, vs, [], vc, loops if loops is not None else list(cands), "cvc5", d, list(cands),
                                          {c.args[0]: c.args[1] for c in cands}, {f.args[0]: f.type for f in list(lang) + list(cands) if not isinstance(f, ir.Axiom)}, 0)
    finally:
        subprocess.run = real
    return got["text"]


def first_order(R, path, n):
    G = Gen(R.rng)
    for k in range(n):
        if R.over():
            return
        names = [f"k{i}" for i in range(R.rng.randint(0, 4))]
        lang, calls = [], []
        for i, nm in enumerate(names):
            ps = [V(p) for p in ("x", "y")[:R.rng.randint(1, 2)]]
            body = G.int_(3, ps, list(calls))
            if R.rng.random() < 0.3:
                rec = ir.Call(nm, I, ir.Sub(ps[0], ir.Lit(1, I)), *ps[1:])
                body = ir.Ite(ir.Le(ps[0], ir.Lit(0, I)), body, ir.Add(rec, body))
                cls = ir.FnDeclRecursive
            else:
                cls = R.rng.choice((ir.FnDecl, ir.FnDeclRecursive))
            lang.append(cls(nm, I, body, *ps))
            calls.append((nm, len(ps), None))
        R.rng.shuffle(lang)
        laws = [ir.Axiom(G.bool_(2, [V("a"), V("b")], calls), V("a"), V("b")) for _ in range(R.rng.randint(0, 2))]
        cands = []
        for nm in ("ps", "inv0", "aux"):
            ps = [V("r"), V("x")]
            cands.append(ir.FnDeclRecursive(nm, B, G.bool_(3, ps, calls), *ps))
        R.rng.shuffle(cands)
        vs = [V("u"), V("w"), V("flag", B)]
        atom = lambda: ir.Call(R.rng.choice(cands).args[0], B, G.int_(1, vs[:2], []), G.int_(1, vs[:2], []))
        vc = ir.Implies(ir.And(atom(), G.bool_(1, vs[:2], calls)), ir.Or(atom(), vs[2]))
        l = lang + laws
        R.case(f"first-order/{len(names)}/{len(laws)}", vc)
        before = [dump(o) for o in l + cands + [vc]]
        try:
            text = through(R, path, l, cands, vs, vc)
        except Exception as ex:
            R.violation("verify:raises:" + type(ex).__name__, "the file is written", f"{[str(x) for x in l]} {vc}", "a file", repr(ex))
            continue
        unchanged(R, "first-order", "verify", before, l + cands + [vc])
        judge(R, f"problem {k}", "verify", text, lang, cands, vs, vc, laws=laws)


def higher(R, path, n):
    """functions passed: F calls its parameter, C calls F, D calls C; candidates pass G and H"""
    G = Gen(R.rng)
    for k in range(n):
        if R.over():
            return
        x, f = V("x"), V("f", FN)
        shape = k % 6
        fn = []
        def ho(nm, callee, rec=False):
            # callee None: calls the parameter
            call = [(None, 1, "f")] if callee is None else [(callee, 1, "f")]
            must = ir.CallValue(f, x) if callee is None else ir.Call(callee, I, ir.Add(x, ir.Lit(1, I)), f)
            body = ir.Add(must, G.int_(2, [x], call + [("k", 1, None)]))
            if rec:
                body = ir.Ite(ir.Le(x, ir.Lit(0, I)), body, ir.Add(ir.Call(nm, I, ir.Sub(x, ir.Lit(1, I)), f), body))
            return (ir.FnDeclRecursive if rec or R.rng.random() < 0.5 else ir.FnDecl)(nm, I, body, x, f)
        lang = [ir.FnDecl("k", I, G.int_(2, [x], []), x), ho("F", None, R.rng.random() < 0.4)]
        hos = ["F"]
        if shape in (1, 2, 3):
            lang.append(ho("C", "F", R.rng.random() < 0.3))
            hos.append("C")
        if shape == 2:
            lang.append(ho("D", "F"))
            hos.append("D")
        if shape == 3:
            lang.append(ho("D", "C"))
            hos.append("D")
        if shape == 4:
            lang.append(ho("E", None))
            hos.append("E")
        passed = ["G", "H"] if shape == 5 or R.rng.random() < 0.4 else ["G"]
        R.rng.shuffle(lang)
        cands = [ir.FnDeclRecursive(g, I, G.int_(2, [x], [("k", 1, None)]), x) for g in passed]
        calls = [(h, 1, g) for h in hos for g in passed]
        for nm in ("ps", "inv0"):
            ps = [V("r"), V("x")]
            b = G.bool_(2, ps, calls)
            # every function passed is passed to every function taking one
            for h, _, g in calls:
                # sometimes inside an operand of another such call
                in_ = V("x") if R.rng.random() < 0.5 else ir.Call(R.rng.choice(hos), I, ir.Add(V("r"), V("x")), V(R.rng.choice(passed), FN))
                b = ir.And(b, ir.Ge(ir.Call(h, I, in_, V(g, FN)), V("r"))) if R.rng.random() < 0.5 else ir.Or(b, ir.Eq(ir.Call(h, I, V("r"), V(g, FN)), V("x")))
            cands.append(ir.FnDeclRecursive(nm, B, b, *ps))
        R.rng.shuffle(cands)
        vs = [V("u"), V("w")]
        vc = ir.Implies(ir.Call("inv0", B, vs[0], vs[1]), ir.Call("ps", B, vs[1], vs[0]))
        kind = f"higher-order/{shape}"
        R.case(kind, [c.args[1] for c in cands])
        before = [dump(o) for o in lang + cands + [vc]]
        try:
            text = through(R, path, lang, cands, vs, vc)
        except Exception as ex:
            R.violation(f"higher:{shape}:raises:" + type(ex).__name__, "the file is written", f"{[str(c) for c in lang + cands]}", "a file", repr(ex))
            continue
        unchanged(R, kind, "higher", before, lang + cands + [vc])
        judge(R, kind, f"higher:{shape}", text, lang, cands, vs, vc)


def unions(R):
    """pruning of candidates keeps their meaning"""
    G = Gen(R.rng)
    T = lambda: R.rng.choice((ir.Lit(True, B), ir.Lit(False, B), ir.Call("t", B, V("x")), ir.Call("g", B, V("x")), ir.Call("h", B, V("x")), G.bool_(1, [V("x")], [])))

    def tree(d):
        if d == 0:
            return G.int_(1, [V("x"), V("y")], [])
        k = R.rng.randrange(4)
        if k < 3:
            return ir.Ite(T() if R.rng.random() < 0.7 else ir.Not(T()), tree(d - 1), tree(d - 1))
        return ir.Add(tree(d - 1), tree(d - 1))
    for k in range(120 if not R.thorough else 3000):
        if R.over():
            return
        fns = {"t": ir.FnDeclRecursive("t", B, ir.Lit(True, B), V("x")), "g": ir.FnDeclRecursive("g", B, ir.Lit(False, B), V("x")),
               "h": ir.FnDeclRecursive("h", B, G.bool_(1, [V("x")], []), V("x")), "m": ir.FnDeclRecursive("m", I, tree(3), V("x"), V("y"))}
        R.case("prune", fns["m"])
        before = [dump(f) for f in fns.values()]
        try:
            new = sc.prune_fn_decls(dict(fns))
        except Exception as ex:
            R.violation("prune:raises", "pruning", fns["m"], "functions", repr(ex))
            continue
        R.check(before == [dump(f) for f in fns.values()], "prune:changed", "pruning leaves its input as it is", fns["m"], "unchanged", "changed")
        R.check({n: (f.args[0], [str(a) for a in f.args[2:]]) for n, f in new.items()} == {n: (f.args[0], [str(a) for a in f.args[2:]]) for n, f in fns.items()},
                "prune:names", "pruning keeps the functions", fns["m"], list(fns), list(new))
        for _ in range(8):
            e = {"x": R.rng.randint(-3, 3), "y": R.rng.randint(-3, 3)}
            a, b = ev(fns["m"].args[1], e, fns, [9999]), ev(new["m"].args[1], e, new, [9999])
            R.check(a == b, "prune:meaning", "a pruned function means the same", f"{fns['m']} at {e}", a, b)


def rewriters(R):
    """renaming, dropping, adding operands; collecting names"""
    g = R.rng
    names = ["F", "C", "K"]

    def tree(d, b=False):
        if d <= 0:
            return V(g.choice("xy")) if g.random() < 0.7 else ir.Lit(g.randint(0, 3), I)
        k = g.randrange(7)
        if k < 3:
            a = [tree(d - 1) for _ in range(g.randint(0, 3))]
            for _ in range(g.choice((0, 0, 1, 1, 2))):
                a.insert(g.randint(0, len(a)), V(g.choice("GHf"), FN))
            return ir.Call(g.choice(names), I, *a)
        if k == 3:
            return ir.Ite(ir.Lt(tree(d - 1), tree(d - 1)), tree(d - 1), tree(d - 1))
        if k == 4:
            return ir.Let(V("z"), tree(d - 1), tree(d - 1))
        return ir.Add(*[tree(d - 1) for _ in range(g.randint(2, 3))])

    def ref(e, call):
        if not isinstance(e, ir.Expr):
            return ("s", repr(e))
        if isinstance(e, ir.Call):
            nm, args = call(e.args[0], list(e.args[1:]))
            return ("Call", nm, str(e.type), tuple(ref(a, call) for a in args))
        if isinstance(e, ir.Var):
            return ("Var", e.args[0], str(e.type))
        return (type(e).__name__, str(e.type), tuple(ref(a, call) for a in e.args))
    same = lambda nm, args: (nm, args)
    isf = lambda a: ir.is_fn_decl_type(a.type)
    for k in range(150 if not R.thorough else 4000):
        if R.over():
            return
        e = tree(4)
        R.case("rewrite", e)
        before = dump(e)

        def one(what, f, call):
            try:
                got = ref(f(), same)
            except Exception as ex:
                R.violation(what + ":raises", what, str(e), "an expression", repr(ex))
                return
            want = ref(e, call)
            R.check(got == want, what, what + " changes what it should and nothing else", str(e), want, got)
        one("filter_fn_args", lambda: su.filter_fn_args(e), lambda n, a: (n, [x for x in a if not isf(x)]))
        one("replace_fn_name", lambda: su.replace_fn_name(expr=e, new_fn_name="N", fn_name="F"), lambda n, a: ("N" if n == "F" else n, a))
        one("replace_fn_name_with_in_call", lambda: su.replace_fn_name_with_in_call(expr=e, new_fn_name="N", fn_name="F", in_call="G"),
            lambda n, a: ("N" if n == "F" and any(isf(x) and x.args[0] == "G" for x in a) else n, a))
        one("filter_body", lambda: su.filter_body(fun_def=e, new_fn_call="N", fn_call="F", in_call="G"), lambda n, a: ("N" if n == "F" else n, [x for x in a if not isf(x)]))
        new = [V("p"), V("q")][:g.randint(0, 2)]
        at = g.randint(0, 2)
        # operands are rewritten, the added ones are not
        def aug(n, a):
            return (n, a[:at] + new + a[at:]) if n == "F" else (n, a)
        one("augment_arguments", lambda: su.augment_arguments(expr=e, fn_name="F", new_args=list(new), start_index=at), aug)
        called, direct, passed = set(), set(), set()

        def walk(x):
            if isinstance(x, ir.Expr):
                if isinstance(x, ir.Call):
                    called.add(x.args[0])
                for a in x.args:
                    walk(a)
        walk(e)
        d = ir.FnDeclRecursive("K", I, e, V("x"), V("y"))
        try:
            R.check(sc.get_used_fn_names([d]) == called, "get_used_fn_names", "the functions called", str(e), called, sc.get_used_fn_names([d]))
            want = {c: {"K"} for c in called if c != "K"}
            got = {n: set(v) for n, v in su.get_direct_calls([d]).items()}
            R.check(got == want, "get_direct_calls", "who calls what", str(e), want, got)
        except Exception as ex:
            R.violation("collect:raises", "collected names", str(e), "names", repr(ex))
        R.check(before == dump(e), "rewrite:changed", "the expression is left as it is", str(e), "unchanged", "changed")
