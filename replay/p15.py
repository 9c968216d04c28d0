"""the verdict functions and the synthesis loops with stand-ins for the solvers
(scripts in the scratch directory) that answer sat, unknown, unsat, garbage, or
are killed; and with the real cvc5 on candidates known to be right or wrong"""
import contextlib
import io
import os
import shutil
import stat
import time
import env
from metalift import ir
import metalift.synthesis_common as sc
import metalift.synthesize_rosette as sr
import metalift.synthesize_cvc5 as s5

# (first line, rest, how the process ends), is it a proof?
ANSWERS = [("unsat", "", "0"), ("sat", "", "0"), ("unknown", "", "0"), ("", "", "0"), ("unsat", "", "kill"), ("(error \"unsat\")", "", "1"), ("unsatisfiable", "", "0"),
           ("sat", "unsat", "0"), ("error", "unsat\nunsat", "0"), ("not unsat", "", "0"), ("unknown (unsat)", "", "0"), ("UNSAT", "", "0"), ("unsat", "(error \"no model\")", "1"), ("timeout", "", "kill")]
naps = [0]
PROVED = {("unsat", "", "0"), ("unsat", "(error \"no model\")", "1")}


def script(path, text):
    # a new file each time: one that is still being run is not changed
    with open(path + ".new", "w") as f:
        f.write("#!/bin/bash\n" + text)
    os.chmod(path + ".new", os.stat(path + ".new").st_mode | stat.S_IEXEC)
    os.rename(path + ".new", path)
    return os.path.abspath(path)


def answer(a):
    first, rest, end = a
    out = "".join(f"echo '{l}'\n" for l in ([first] + (rest.split("\n") if rest else [])))
    return out + ("kill -9 $$\n" if end == "kill" else f"exit {end}\n")


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def program(body):
    """f(x) = x + 1 for 0 <= x, candidate body given"""
    x, r = ir.Int("x"), ir.Int("r")
    ps = ir.Synth("f_ps", ir.choose(r == x + 1, r == x).src, x.src, r.src)
    call = ir.Call("f_ps", ir.Bool, x.src, (x + 1).src)
    vc = ir.Implies((x >= 0).src, call)
    cand = ir.FnDeclRecursive("f_ps", ir.Bool, body(x, r).src, x.src, r.src)
    return ps, vc, cand, {x.src}, ir.FnDeclRecursive("f_ps", ir.Bool, None, x.src, r.src)


BODIES = [("right", lambda x, r: r == x + 1, True), ("wrong", lambda x, r: r == x, False), ("wrong at 3", lambda x, r: ir.ite(x == 3, r == 0, r == x + 1), False),
          ("right where it matters", lambda x, r: ir.ite(x < 0, r == 0, r == x + 1), True)]


def verify(solver, body, tag):
    ps, vc, cand, vars_, decl = program(body)
    with quiet():
        return sc.verify_synth_result("p_" + tag, [], vars_, [], vc, [ps], solver, "./", [cand], {"f_ps": cand.body()}, {}, 7)


def outcome(f):
    """(value, exception)"""
    naps[0] = 0
    try:
        with quiet():
            return f(), None
    except Exception as e:
        return None, e


def run(R):
    home = os.getcwd()
    if not os.path.exists("metalift"):
        os.symlink(os.path.join(env.REPO, "metalift"), "metalift")
    os.makedirs("bin", exist_ok=True)
    path = os.environ["PATH"]
    slept = time.sleep

    def nap(s):
        naps[0] += 1
        if naps[0] > 1500:  # waits for a solution that never comes
            raise TimeoutError("no answer")
        slept(min(s, 0.02))
    time.sleep = nap
    try:
        verdicts(R)
        sygus(R)
        rosette(R, path)
        llm(R, path)
    finally:
        time.sleep = slept
        os.environ["PATH"] = path


def verdicts(R):
    for i, a in enumerate(ANSWERS):
        R.case(f"verify_synth_result {a}")
        s = script("bin/solver", answer(a))
        (r, e) = outcome(lambda: verify(s, BODIES[0][1], str(i)))
        got = e is None and r[0] == "unsat"
        R.check(got == (a in PROVED), "verdict:verify_synth_result", "what is verified is not what the solver proved", f"solver answers {a}", a in PROVED, r if e is None else repr(e))
    # a solver that records what it is asked
    s = script("bin/solver", 'for f; do last=$f; done\ncp "$last" seen.smt\necho unsat\n')
    for n, b, ok in BODIES:
        R.case(f"query {n}")
        if os.path.exists("seen.smt"):
            os.remove("seen.smt")
        outcome(lambda: verify(s, b, "same"))
        R.check(os.path.exists("seen.smt") and "f_ps" in open("seen.smt").read(), "verdict:query", "the solver is not asked about the query just written", n, "a query", "none")
    cvc5 = shutil.which("cvc5")
    if cvc5:
        cvc5 = script("bin/real", f'exec timeout -s KILL 5 {cvc5} "$@"\n')
        for n, b, ok in BODIES:
            R.case(f"real solver {n}")
            r, e = outcome(lambda: verify(cvc5, b, "real"))
            first = r[0] if e is None else None
            R.check(first not in (("sat",) if ok else ("unsat",)), "verdict:real", "a candidate is judged wrongly", f"candidate {n}", ok, r if e is None else repr(e))


RIGHT = "(f_ps (= r (+ x 1)))"
WRONG = "(f_ps (= r x))"


def names(fns):
    return [str(f.body().toSMT()) for f in fns]


def sygus(R):
    """the SyGuS loop: candidates, the announcement of a solution, the verdict"""
    cases = [("one candidate", [RIGHT]), ("two candidates", [WRONG, RIGHT])]
    for cn, cands in cases:
        for a in ANSWERS:
            R.case(f"cvc5 {cn} {a}")
            stream = "".join(f"echo '(sygus-candidate {c})'\n" for c in cands)
            s = script("bin/solver", f'case "$1" in\n--lang=sygus2)\n{stream}echo "("\necho "{cands[-1]}"\necho ")"\nexit 0;;\nesac\n' + answer(a))
            ps, vc, cand, vars_, decl = program(BODIES[0][1])
            r, e = outcome(lambda: s5.synthesize("q", [], vars_, [ps], [], vc, [ps], s))
            if a in PROVED:
                good = e is None and names(r) == ["(= r (+ x 1))"]
            else:
                good = e is not None
            R.check(good, "verdict:synthesize_cvc5", "functions are returned that the solver did not prove", f"{cn}, solver answers {a}", "the proved function" if a in PROVED else "an exception",
                    names(r) if e is None else repr(e))
    s = script("bin/solver", 'case "$1" in\n--lang=sygus2)\necho fail\nexit 1;;\nesac\necho unsat\n')
    ps, vc, cand, vars_, decl = program(BODIES[0][1])
    R.case("cvc5 fail")
    r, e = outcome(lambda: s5.synthesize("q", [], vars_, [ps], [], vc, [ps], s))
    R.check(e is not None, "verdict:synthesize_cvc5 fail", "a failed synthesis returns functions", "the solver prints fail", "an exception", r)


def racket(basename, sols):
    """a stand-in for racket: writes the solutions one after the other"""
    out = ""
    for i, t in enumerate(sols):
        out += f"cat > synthesisLogs/tmp <<'EOF'\n{t}\nEOF\nmv synthesisLogs/tmp synthesisLogs/{basename}_sol{i}\nsleep 0.05\n"
    return out + "sleep 0.3\nexit 0\n"


def sol(body):
    return f"#t\n/tmp/x.rkt:10:0\n'(define (f_ps x r) {body})"


def rosette(R, path):
    os.environ["PATH"] = os.path.abspath("bin") + ":" + path
    ps, vc, cand, vars_, decl = program(BODIES[0][1])
    good, bad = sol("(equal? r (+ x 1))"), sol("(equal? r x)")
    for a in ANSWERS if R.thorough else ANSWERS[:8]:
        R.case(f"rosette {a}")
        script("bin/racket", racket("ros", [good]))
        s = script("bin/solver", answer(a))
        r, e = outcome(lambda: sr.synthesize("ros", [], set(vars_), [ps], [], vc, [ps], s))
        ok = (e is None and names(r) == ["(= r (+ x 1))"]) if a in PROVED else e is not None
        R.check(ok, "verdict:synthesize_rosette", "functions are returned that the solver did not prove", f"solver answers {a}", "the proved function" if a in PROVED else "an exception",
                names(r) if e is None else repr(e))
    # several rounds: the verdict belongs to its own solution
    dumb = 'for f; do last=$f; done\nif grep -q "(= r (+ x 1))" "$last" && [ $(grep -c "(+ x 1)" "$last") -ge 2 ]; then echo unsat; else echo sat; fi\n'
    for order in ([bad, good], [bad, bad, good], [good, bad], [bad, bad]):
        R.case(f"rosette rounds {len(order)} {order[0] == good}")
        script("bin/racket", racket("ros", order))
        s = script("bin/solver", dumb)
        r, e = outcome(lambda: sr.synthesize("ros", [], set(vars_), [ps], [], vc, [ps], s, rounds_to_guess=len(order) - 1))
        ok = (e is None and names(r) == ["(= r (+ x 1))"]) if good in order else e is not None
        R.check(ok, "verdict:synthesize_rosette rounds", "another solution is returned than the one that was proved", f"solutions {order}", "the proved function" if good in order else "an exception",
                names(r) if e is None else repr(e))
    R.case("rosette #f")
    script("bin/racket", racket("ros", ["#f"]))
    s = script("bin/solver", "echo unsat\n")
    r, e = outcome(lambda: sr.synthesize("ros", [], set(vars_), [ps], [], vc, [ps], s))
    R.check(e is not None, "verdict:synthesize_rosette #f", "a failed synthesis returns functions", "#f", "an exception", r)


class Tracker:
    def __init__(self, vars_):
        self.vars_ = vars_

    def all(self):
        return list(self.vars_)


class Driver:
    def __init__(self, vars_):
        self.var_tracker = Tracker(vars_)


def llm(R, path):
    from contracts.p15 import llm as load
    try:
        ls = load()
    except Exception:
        return
    os.environ["PATH"] = os.path.abspath("bin") + ":" + path
    os.environ["BITWUZLA_PATH"] = "none"
    if not os.path.exists("synthesisLogs"):
        os.mkdir("synthesisLogs")

    def smt(b):
        ps, vc, cand, vars_, decl = program(b)
        return ls.verify_benchmark_smt(driver=Driver(vars_), benchmark_name="b", synthesized_fn_decls=[cand], in_calls=[], dsl_fns=[], vc=vc, dsl_fn_name_to_axioms={})

    def ros(b):
        ps, vc, cand, vars_, decl = program(b)
        return ls.verify_benchmark_rosette(driver=Driver(vars_), benchmark_name="b", synthesized_fn_decls=[cand], in_calls=[], dsl_fns=[], vc=vc)
    for a in ANSWERS:
        R.case(f"llm smt {a}")
        script("bin/cvc5", answer(a))
        r, e = outcome(lambda: smt(BODIES[0][1]))
        got = e is None and bool(r)
        R.check(got == (a in PROVED), "verdict:verify_benchmark_smt", "what is verified is not what the solver proved", f"solver answers {a}", a in PROVED, r if e is None else repr(e))
        R.case(f"llm rosette {a}")
        b = ("(" + a[0] + ")" if a[0] in ("unsat", "sat", "unknown") else a[0],) + a[1:]
        script("bin/racket", answer(b))
        r, e = outcome(lambda: ros(BODIES[0][1]))
        got, want = e is None and bool(r), b == ("(unsat)", "", "0")
        R.check(got == want, "verdict:verify_benchmark_rosette", "what is verified is not what the solver proved", f"racket answers {b}", want, r if e is None else repr(e))
    os.remove("bin/cvc5")
    cvc5 = shutil.which("cvc5")
    if cvc5:
        script("bin/cvc5", f'exec timeout -s KILL 5 {cvc5} "$@"\n')
        for n, b, ok in BODIES:
            R.case(f"llm real solver {n}")
            r, e = outcome(lambda: smt(b))
            got = e is None and bool(r)
            R.check(ok or not got, "verdict:real llm", "a candidate is judged wrongly", f"candidate {n}", ok, r if e is None else repr(e))
