"""the SMT library on concrete values: run by an interpreter, its assertions
evaluated, and cvc5 itself on the prelude"""
import os
import random
import subprocess
import importlib.resources as resources
import env
from pyvc.core import Unsupported
from pyvc.il import *
from contracts import p12 as C


def smtval(v, sort):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v) if v >= 0 else f"(- {-v})"
    names = {"Int": "Int", "L1": "(MLList Int)", "L2": "(MLList (MLList Int))", "L3": "(MLList (MLList (MLList Int)))"}
    out = f"(as nil {names[sort.name()]})"
    for x in reversed(v):
        out = f"(cons {smtval(x, elem(sort))} {out})"
    return out


def prelude(order=("tuples.smt", "integer-fn-axioms.smt", "list-axioms.smt")):
    return "(set-logic ALL)\n" + "\n".join(open(os.path.join(C.UTILS, f)).read() for f in order)


def cvc5(text, name, ms):
    open(name, "w").write(text)
    try:
        r = subprocess.run(["cvc5", "--lang=smt", f"--tlimit={ms}", name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=ms / 1000 + 10)
        return r.stdout.decode().strip().split("\n")[0] or "unknown"
    except subprocess.TimeoutExpired:
        return "unknown"


# cvc5 decides these on concrete lists at once; the others are run instead
SETTLED = [f"{p}_{f}" for p in ("list", "matrix") for f in ("length", "empty", "append", "prepend", "get", "take", "tail")]


def result_sort(name, con):
    try:
        vs = [z3.Const(f"v{i}", s) for i, s in enumerate(con.sorts)]
        return con.ref(*vs).sort() if con.ref else con.ret
    except Exception:
        return con.ret


def facts(R, n):
    """(text, function) of true ground equations about library functions"""
    out = []
    rng = random.Random(R.seed)
    for name, con in C.CONTRACTS.items():
        if name not in SETTLED:
            continue
        k = 0
        cands = list(samples(con.sorts, rng, 60)) if con.sorts else [()]
        rng.shuffle(cands)
        for args in cands:
            try:
                want = con.py(*args)
            except Undef:
                continue
            s = result_sort(name, con)
            call = f"({name} {' '.join(smtval(a, t) for a, t in zip(args, con.sorts))})" if args else name
            out.append((f"(= {call} {smtval(want, s)})", name, call, want))
            k += 1
            if k >= n:
                break
    for t, w in (("(tuple2_get0 (tuple2 4 true))", "4"), ("(tuple2_get1 (tuple2 4 true))", "true"), ("(tuple3_get2 (tuple3 1 2 7))", "7"), ("(tuple3_get1 (tuple3 1 2 7))", "2"),
                 ("(tuple4_get3 (tuple4 1 2 3 9))", "9"), ("(tuple5_get4 (tuple5 1 2 3 4 8))", "8"), ("(tuple1_get0 (tuple1 6))", "6"), ("(tuple5_get2 (tuple5 1 2 3 4 8))", "3")):
        out.append((f"(= {t} {w})", t.split()[0][1:], t, w))
    return out


def run(R):
    try:
        p = C.program()
    except Unsupported as u:
        p = None
    if p is not None:
        b = C.builtins(p)
        n = 400 if not R.thorough else 6000
        for name, con in C.CONTRACTS.items():
            if name not in p.funs:
                continue
            R.case(name)
            bad = refute(p, name, con, b, R.seed, n)
            if bad:
                R.violation(f"smt:{name}", "a library function computes something else", f"{name}{bad[0]}", bad[1], bad[2])
        for k, a in enumerate(p.asserts):
            R.case(f"assertion {k}")
            try:
                v = C.false_at(p, a, R.seed, 2 * n)
            except Unsupported:
                continue
            except (TypeError, ValueError) as ex:
                v = repr(ex)
            if v:
                R.violation(f"smt:assertion{k}", "an assertion of the library is false", v, "true", "false")
        for name in p.funs:
            if name in C.CONTRACTS:
                continue
            r = random.Random(R.seed)
            run_ = Runner(p, b)
            R.case(name)
            if name in ("integer_sqrt", "integer_sqrt_helper"):
                continue
            for args in samples([s for _, s in p.funs[name].params], r, 100):
                try:
                    run_.start(name, list(args))
                except (Undef, Unsupported):
                    pass
                except Diverges:
                    if not tail_recursive(p.funs[name].body, name):
                        R.violation(f"smt:{name}", "a definition of the library does not end", args, "a value", "no end")
                        break
    # the solver itself
    pre = prelude()
    R.case("consistency")
    a = cvc5(pre + "\n(check-sat)\n", "cons.smt", 12000 if not R.thorough else 120000)
    R.check(not a.startswith("unsat"), "smt:inconsistent", "the library alone is unsatisfiable", "tuples.smt, integer-fn-axioms.smt, list-axioms.smt", "not unsat", a)
    R.check(not a.startswith("(error"), "smt:error", "the library is not accepted", "tuples.smt, integer-fn-axioms.smt, list-axioms.smt", "no error", a)
    if a.startswith("unsat") or a.startswith("(error"):
        return
    fs = facts(R, 2 if not R.thorough else 8)
    for f in fs:
        R.case("fact " + f[1])
    a = cvc5(pre + "\n(assert (not (and " + "\n ".join(f[0] for f in fs) + ")))\n(check-sat)\n", "facts.smt", 20000)
    R.evals += len(fs)
    if a == "unsat":
        return
    for f in fs:
        if R.over():
            return
        a = cvc5(pre + f"\n(assert (not {f[0]}))\n(check-sat)\n", "fact.smt", 6000)
        if a != "unsat":
            # the negation of what it should be: does the theory believe that?
            R.violation(f"smt:fact:{f[1]}", "the library does not settle what a function computes", f[2], f[3], a)
