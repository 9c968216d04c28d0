"""P15: only what the solver proved is reported as verified."""
import inspect
import sys
import types
import subprocess
import z3
from pyvc.core import *
from pyvc import interp as I
from pyvc.havoc import Havoc, HavocInterp
from .irspec import base_contracts, ALL_EXPR
import metalift.ir as ir
import metalift.synthesis_common as sc
import metalift.synthesize_rosette as sr
import metalift.synthesize_cvc5 as s5

PID = "P15"
STR = z3.StringSort()
ASSUMPTIONS = [
    "the solver is sound: the first line of its answer is 'unsat' only for an unsatisfiable query; that the query says what it should is P16",
    "code outside metalift (files, subprocesses, the LLM services) returns anything, raises anything, and changes only the containers it is given",
    "to_rosette, parse_output, to_expr, generate_ast, prune_fn_decls, generate_types, codegen and the parser of LLM answers return anything here",
    "VC simplification (simplify, optimize_useless_equality) is P05",
    "termination is not claimed",
]
BOUNDED = []


def llm():
    """llmlift_scripts.synthesis: the LLM client libraries are not installed"""
    for nm in ("google", "google.generativeai", "anthropic", "openai", "dotenv"):
        if nm not in sys.modules:
            try:
                __import__(nm)
            except ImportError:
                m = types.ModuleType(nm)
                m.__getattr__ = lambda name: (lambda *a, **k: None) if not name.startswith("__") else (_ for _ in ()).throw(AttributeError(name))
                sys.modules[nm] = m
                if "." in nm:
                    setattr(sys.modules[nm.split(".")[0]], nm.split(".")[1], m)
    import os
    for k in ("CLAUDE_API_KEY", "OPENAI_API_KEY", "GEMINI_API_KEY", "ANTHROPIC_API_KEY"):
        os.environ.setdefault(k, "none")
    import llmlift_scripts.synthesis as ls
    return ls


class Log:
    """what the code under verification did, in order"""

    def __init__(self):
        self.runs, self.queries, self.verified, self.printed = [], [], [], []


def interp(ctx):
    con = base_contracts()
    it = HavocInterp(ctx, con)
    it.loops = ctx.__dict__.setdefault("loop_locations", {})
    it.repo_by_havoc |= {"metalift.synthesize_rosette." + f for f in ("parse_output", "to_expr", "generate_ast", "to_synthesize", "convert_expr")}
    it.repo_by_havoc |= {"metalift.synthesize_cvc5." + f for f in ("generateCandidates", "extractFuns", "toExpr", "generateAST", "flatten")}
    it.repo_by_havoc |= {"metalift.synthesis_common." + f for f in ("prune_fn_decls", "generate_types", "parse_candidates", "get_used_fn_names")}
    it.pure |= {"metalift.synthesis_common." + f for f in ("prune_fn_decls", "generate_types", "get_used_fn_names")} | {"metalift.synthesize_rosette.to_synthesize", "tests.python.utils.utils.codegen", "metalift.synthesize_cvc5.extractFuns"}
    def attr(it, v, name):
        # a verification condition is an expression
        if isinstance(v, VC) and not hasattr(ir.Expr, name) and name not in ("args", "type"):
            it.raise_(AttributeError, name)
        return Havoc("attribute " + name) if isinstance(v, VC) else NotImplemented
    con.opaque_attr = attr
    for f in ("augment_arguments", "replace_fn_name"):
        it.repo_by_havoc.add("metalift.smt_util." + f)
        it.pure.add("metalift.smt_util." + f)
    it.kept[VC] = lambda it, v: vc_token(it, v)
    it.repo_by_havoc |= {"metalift.rosette_translator.to_rosette", "metalift.rosette_translator.generate_vars", "tests.python.utils.utils.codegen"}
    return it


def record(it, key, val):
    it.ctx.jset(it.ctx.scratch, key, it.ctx.scratch.get(key, ()) + (val,))


def last(it, key):
    l = it.ctx.scratch.get(key, ())
    return l[-1] if l else None


def bound(f, a, k):
    """arguments by name"""
    try:
        return dict(inspect.signature(f).bind(*[x.v for x in a], **k).arguments)
    except TypeError as e:
        raise SymRaise(e)


# ---- the external solver ---------------------------------------------------------
def spec_run(name):
    """subprocess.run by contract: anything can come back; the text of the answer
    is a list of lines"""
    def run(it, a, k):
        cmd = it.split(a[0].v) if a else it.split(k["args"])
        rc = it.ctx.fresh(z3.IntSort(), "returncode")
        first = it.ctx.fresh(STR, "answer")
        text = Opaque("answer", {})
        lines = VList([One(Rope([Atom(first, "line")])), it.anything()])
        text.attrs["split"] = SpecFn(lambda it, a, k: lines if it.split(a[0].v) == "\n" else Havoc("split"))
        text.attrs["splitlines"] = SpecFn(lambda it, a, k: lines)
        text.attrs["startswith"] = SpecFn(lambda it, a, k: Sym(z3.PrefixOf(it.str_term(rope(it.split(a[0].v))), first)))
        raw = Opaque("stdout", {"decode": SpecFn(lambda it, a, k: text)})
        if "text" in k or "universal_newlines" in k or "encoding" in k:
            raw = text
        r = Opaque("completed", {"returncode": Sym(rc), "stdout": raw, "stderr": Havoc("stderr"), "args": cmd})
        seg = it.seq(cmd)
        record(it, "runs", (seg[0].v if seg and isinstance(seg[0], One) else None, seg[-1].v if seg and isinstance(seg[-1], One) else None, rc, first))
        return r
    return run


def external(con):
    """the ways to run a program and see its output"""
    run = spec_run("run")
    con.native[id(subprocess.run)] = run

    def check_output(it, a, k):
        r = run(it, a, k)
        rc = it.split(r.attrs["returncode"])
        if not it.ctx.branch(rc.t == 0):
            it.raise_(subprocess.CalledProcessError, "non-zero exit status")
        return r.attrs["stdout"]
    con.native[id(subprocess.check_output)] = check_output

    def popen(it, a, k):
        r = run(it, a, k)
        p = Opaque("process", dict(r.attrs))
        p.attrs["communicate"] = SpecFn(lambda it, a, k: VTuple([One(r.attrs["stdout"]), One(r.attrs["stderr"])]))
        p.attrs["wait"] = p.attrs["poll"] = SpecFn(lambda it, a, k: r.attrs["returncode"])
        p.attrs["stdout"] = Opaque("stream", {"read": SpecFn(lambda it, a, k: r.attrs["stdout"])})
        p.attrs["__enter__"] = SpecFn(lambda it, a, k: p)
        p.attrs["__exit__"] = SpecFn(lambda it, a, k: None)
        return p
    con.native[id(subprocess.Popen)] = popen


def same_text(it, a, b):
    a, b = it.split(a), it.split(b)
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, (str, Rope)) and isinstance(b, (str, Rope)):
        ta, tb = it.str_term(rope(a)), it.str_term(rope(b))
        if ta is not None and tb is not None:
            return ta == tb
    return z3.BoolVal(False)


def text(nm):
    return Rope([Atom(z3.Const(nm, STR), "name")])


def judged(it, what, ok, answer):
    """the outcome is 'verified' (a z3 Bool, ok) only if the last query file was
    given to the solver and the answer was the expected one"""
    ctx = it.ctx
    if ctx.sat(ok) == z3.unsat:
        return ctx.prove(z3.Not(ok), f"{what}: verified only if the solver proved it")
    run, query = last(it, "runs"), last(it, "queries")
    if run is None:
        return ctx.prove(z3.Not(ok), f"{what}: verified only if the solver was asked", "no solver was run")
    prog, file, rc, first = run
    ctx.prove(z3.Implies(ok, first == z3.StringVal(answer)), f"{what}: verified only if the solver answered {answer}")
    if answer == "unsat":
        ctx.prove(z3.Implies(ok, rc >= 0), f"{what}: not verified if the solver was killed")
    if query is None:
        return ctx.prove(z3.Not(ok), f"{what}: verified only if the query was written", "no query file")
    ctx.prove(z3.Implies(ok, z3.And(same_text(it, query["file"], file), z3.BoolVal(query["runs"] == len(it.ctx.scratch["runs"]) - 1))),
              f"{what}: the solver is asked about the query just written")


def spec_query(f):
    """toSMT / to_rosette by contract: the query is written to the file"""
    def h(it, a, k):
        d = bound(f, a, k)
        d["file"] = d.get("out_file", d.get("filename"))
        d["cands"] = it.contents(d["inv_and_ps"])
        d["runs"] = len(it.ctx.scratch.get("runs", ()))
        record(it, "queries", d)
        return None
    return h


def unit_verify(rosette):
    def run(ctx):
        def path():
            it = interp(ctx)
            con = it.con
            external(con)
            import metalift.smt_util as su
            import metalift.rosette_translator as rt
            con.by_qual["metalift.smt_util.toSMT"] = spec_query(su.toSMT)
            p = {n: Havoc(n) for n in ("targetLang", "preds", "loopAndPsInfo", "candidateDict", "fnsType")}
            vc, vars_ = Havoc("vc"), Havoc("vars")
            cands = VList([it.anything()])
            before = it.contents(cands)

            def parse(it, a, k):
                # which calls and lambdas there are goes into the lists it is given
                d = bound(sc.parse_candidates, a, k)
                for nm in ("in_calls", "fn_calls", "extracted_lambdas"):
                    if nm in d:
                        it.smash(it.split(d[nm]))
                it.maybe_raise()
                c = it.split(d["candidate"])
                out = Havoc("parsed", c)
                return VTuple([One(out), One(VTuple([One(d["in_calls"]), One(d["fn_calls"])]))])
            con.by_qual["metalift.synthesis_common.parse_candidates"] = parse
            if rosette:
                con.by_qual["metalift.rosette_translator.to_rosette"] = spec_query(rt.to_rosette)
            try:
                r = it.call(sc.verify_synth_result, [], {
                    "basename": text("basename"), "targetLang": p["targetLang"], "vars": vars_, "preds": p["preds"], "vc": vc,
                    "loopAndPsInfo": p["loopAndPsInfo"], "cvcPath": text("cvc"), "synthDir": text("dir"), "candidatesSMT": cands,
                    "candidateDict": p["candidateDict"], "fnsType": p["fnsType"], "uid": Sym(z3.Int("uid")), "use_rosette": rosette})
            except SymRaise:
                return ctx.prove(z3.BoolVal(True), "verify_synth_result: an exception verifies nothing")
            what = "verify_synth_result"
            r = it.split(r)
            if not isinstance(r, VTuple):
                return ctx.fail(f"{what}: an answer and the log", repr(r))
            ans = it.split(r.items[0].v)
            ok = it.eq(ans, "unsat")
            ok = z3.BoolVal(ok) if isinstance(ok, bool) else ok
            judged(it, what, ok, "(unsat)" if rosette else "unsat")
            if not rosette:
                q = last(it, "queries")
                if q is not None:
                    v = it.split(q["vc"])
                    ctx.prove(z3.BoolVal(v is vc or isinstance(v, Havoc) and v.tag == "parsed" and v.origin is vc), f"{what}: the query is about the given condition")
                    ctx.prove(z3.BoolVal(it.split(q["vars"]) is vars_), f"{what}: the query is about the given variables")
                    ctx.prove(z3.BoolVal(q["cands"] == before), f"{what}: the query defines the given candidates")
                    syn = it.split(q.get("is_synthesis", False))
                    ctx.prove(z3.BoolVal(syn is False), f"{what}: the query is a verification query")
                run = last(it, "runs")
                if run is not None:
                    ctx.prove(same_text(it, run[0], text("cvc")), f"{what}: the given solver is run")
        ctx.explore(path)
    return run


# ---- the synthesis loops ------------------------------------------------------------
class VC(Opaque):
    pass


def vc_token(it, origin):
    v = VC("vc", {}, isa=(ir.Expr,))
    v.attrs.update({"simplify": SpecFn(lambda it, a, k: vc_token(it, v)), "optimize_useless_equality": SpecFn(lambda it, a, k: vc_token(it, v)),
                    "count_variable_uses": SpecFn(lambda it, a, k: it.outside("count", a, k) and None), "toSMT": SpecFn(lambda it, a, k: Havoc("text")),
                    "__str__": text("vctext")})
    return v


def spec_verify(it, a, k):
    """verify_synth_result by contract (proved above)"""
    d = bound(sc.verify_synth_result, a, k)
    it.maybe_raise()
    ans = it.ctx.fresh(STR, "verdict")
    d["cands"] = it.contents(d["candidatesSMT"])
    d["ans"] = ans
    record(it, "verified", d)
    return VTuple([One(Rope([Atom(ans, "line")])), One(Havoc("logs"))])


def unit_synth(mod, names):
    def run(ctx):
        def path():
            it = interp(ctx)
            con = it.con
            con.by_qual["metalift.synthesis_common.verify_synth_result"] = spec_verify
            for f in ("metalift.smt_util.toSMT",):
                con.by_qual[f] = lambda it, a, k: it.outside("toSMT", a, k) and None
            it.skip_prints = True
            vc = vc_token(it, None)
            target, preds = Havoc("target_lang"), Havoc("preds")
            noverify = ctx.choose(2) == 1
            args = {names["basename"]: text("basename"), names["target"]: target, "vars": Havoc("vars"), names["inv"]: Havoc("inv_and_ps"), "preds": preds, "vc": vc,
                    names["info"]: Havoc("info"), names["cvc"]: text("cvc"), names["opt"]: Sym(z3.Bool("optimize"))}
            if mod is sr:
                args.update({"rounds_to_guess": Sym(z3.Int("rounds")), "log": Sym(z3.Bool("log"))})
                if noverify:
                    args["no_verify"] = True
            what = mod.__name__.split(".")[-1] + ".synthesize"
            try:
                r = it.call(mod.synthesize, [], args)
            except SymRaise:
                return
            r = it.split(r)
            if r is None:
                return ctx.prove(z3.BoolVal(True), f"{what}: nothing is returned")
            d = last(it, "verified")
            if mod is sr and noverify:
                return
            if d is None:
                return ctx.fail(f"{what}: only verified functions are returned", "no verification")
            ctx.prove(d["ans"] == z3.StringVal("unsat"), f"{what}: functions are returned only if the solver proved them", "returned although the answer was not unsat")
            ctx.prove(z3.BoolVal(it.contents(r) == d["cands"]), f"{what}: the functions returned are those that were verified")
            ctx.prove(z3.BoolVal(isinstance(it.split(d["vc"]), VC)), f"{what}: verified against the verification condition")
            ctx.prove(z3.BoolVal(it.split(d["targetLang"]) is target), f"{what}: verified with the given language")
            ctx.prove(z3.BoolVal(it.split(d["preds"]) is preds), f"{what}: verified with the given predicates")
            ctx.prove(same_text(it, d["cvcPath"], text("cvc")), f"{what}: verified by the given solver")
        ctx.explore(path)
    return run


# ---- LLMLift ---------------------------------------------------------------------------
def unit_llm_smt(ctx):
    ls = llm()

    def path():
        it = interp(ctx)
        external(it.con)
        import metalift.smt_util as su
        it.con.by_qual["metalift.smt_util.toSMT"] = spec_query(su.toSMT)
        it.repo_by_havoc |= {"llmlift_scripts.synthesis." + f for f in ("process_dsl_fns_for_smt", "replace_in_calls", "replace_in_call")}
        vc, fns = Havoc("vc"), VList([it.anything()])
        before = it.contents(fns)
        try:
            r = it.call(ls.verify_benchmark_smt, [], {"driver": Havoc("driver"), "benchmark_name": text("bench"), "synthesized_fn_decls": fns, "in_calls": Havoc("in_calls"),
                                                      "dsl_fns": Havoc("dsl"), "vc": vc, "dsl_fn_name_to_axioms": Havoc("axioms")})
        except SymRaise:
            return
        t = it.truth_term(r)
        judged(it, "verify_benchmark_smt", z3.BoolVal(t) if isinstance(t, bool) else t, "unsat")
        q = last(it, "queries")
        if q is not None:
            ctx.prove(z3.BoolVal(it.split(q["vc"]) is vc), "verify_benchmark_smt: the query is about the given condition")
            ctx.prove(z3.BoolVal(q["cands"] == before), "verify_benchmark_smt: the query defines the given functions")
    ctx.explore(path)


def unit_llm_rosette(ctx):
    ls = llm()

    def path():
        it = interp(ctx)
        external(it.con)
        it.repo_by_havoc |= {"llmlift_scripts.synthesis." + f for f in ("process_dsl_fns_for_rosette", "replace_in_calls", "replace_in_call")}
        vctext = text("vctext")
        vc = Opaque("vc", {"to_rosette": SpecFn(lambda it, a, k: vctext)})

        def opened(it, a, k):
            f = Opaque("file", {"close": SpecFn(lambda it, a, k: record(it, "closed", True)), "write": SpecFn(lambda it, a, k: record(it, "written", (f, it.split(a[0].v))))})
            f.attrs["__enter__"] = SpecFn(lambda it, a, k: f)
            f.attrs["__exit__"] = SpecFn(lambda it, a, k: record(it, "closed", True))
            f.attrs["name"] = it.split(a[0].v)
            return f
        it.con.native[id(open)] = opened

        def printed(it, a, k):
            f = it.split(k.get("file"))
            if isinstance(f, Opaque) and f.tag == "file":
                for x in a:
                    if isinstance(x, One):
                        record(it, "written", (f, it.split(x.v)))
            return None
        it.con.native[id(print)] = printed
        try:
            r = it.call(ls.verify_benchmark_rosette, [], {"driver": Havoc("driver"), "benchmark_name": text("bench"), "synthesized_fn_decls": Havoc("fns"), "in_calls": Havoc("in_calls"),
                                                          "dsl_fns": Havoc("dsl"), "vc": vc})
        except SymRaise:
            return
        t = it.truth_term(r)
        ok = z3.BoolVal(t) if isinstance(t, bool) else t
        what = "verify_benchmark_rosette"
        run = last(it, "runs")
        if run is None:
            return ctx.prove(z3.Not(ok), f"{what}: verified only if the solver was asked")
        ctx.prove(z3.Implies(ok, run[3] == z3.StringVal("(unsat)")), f"{what}: verified only if the solver answered (unsat)")
        wr = [x for f, x in it.ctx.scratch.get("written", ()) if isinstance(x, Rope) and any(p is vctext.parts[0] for p in x.parts)]
        good = False
        for x in wr:
            i = [j for j, p in enumerate(x.parts) if p is vctext.parts[0]][0]
            pre = "".join(p for p in x.parts[:i] if isinstance(p, str))
            good = good or pre.rstrip().endswith("(verify (assert")
        ctx.prove(z3.Implies(ok, z3.BoolVal(good)), f"{what}: the query asserts the given condition")
    ctx.explore(path)


def unit_llm_run(method):
    """'Solution verified' is announced, and the search ends, only after the
    verification of that solution succeeded"""
    def run(ctx):
        ls = llm()

        def path():
            it = interp(ctx)
            it.repo_by_havoc |= {f"llmlift_scripts.synthesis.{f}" for f in ("get_solution_from_llm", "process_synthesized_fn_decls", "replace_in_calls")}
            it.repo_by_havoc |= {"llmlift_scripts.parser.check_solution", "llmlift_scripts.prompts.get_ps_prompt", "llmlift_scripts.prompts.get_inv_prompt"}
            it.con.by_qual["metalift.vc_util.and_objects"] = lambda it, a, k: Havoc("vc")

            def verify(it, a, k):
                ok = it.ctx.fresh(z3.BoolSort(), "verified")
                record(it, "verified", {"ok": ok, "fns": it.contents(k["synthesized_fn_decls"])})
                return Sym(ok)
            it.con.by_qual["llmlift_scripts.synthesis.verify_benchmark_smt"] = verify
            it.con.by_qual["llmlift_scripts.synthesis.verify_benchmark_rosette"] = verify

            def printed(it, a, k):
                v = it.split(a[0].v) if a and isinstance(a[0], One) else None
                if isinstance(v, str) and "solution verified" in v.lower():
                    d = last(it, "verified")
                    it.ctx.prove(d["ok"] if d is not None else z3.BoolVal(False), "run_llm_synthesis_algorithm: a solution is announced as verified only if it was verified")
                return None
            it.con.native[id(print)] = printed
            try:
                it.call(ls.run_llm_synthesis_algorithm, [], {
                    "driver": Havoc("driver"), "loop_info": Havoc("loop"), "output_var": Havoc("out"), "source_code": text("src"), "benchmark_name": text("bench"), "llm_model": Havoc("model"),
                    "dsl_fns": Havoc("dsl"), "dsl_fn_name_to_axioms": Havoc("axioms"), "verification_method": getattr(ls.VerificationMethod, method),
                    "max_num_ps_sols": Sym(z3.Int("nps")), "max_num_inv_sols": Sym(z3.Int("ninv"))})
            except SymRaise:
                pass
            ctx.prove(z3.BoolVal(True), "run_llm_synthesis_algorithm: end")
        ctx.explore(path)
    return run


# ---- the frontends ------------------------------------------------------------------------
def unit_driver(which):
    """Driver.synthesize: all assertions together are the condition, every
    predicate and postcondition is synthesized, verification is not turned off"""
    def run(ctx):
        import importlib
        fm = importlib.import_module("metalift.frontend." + which)

        def path():
            it = interp(ctx)
            it.skip_prints = True
            asserts, synths = VList([it.anything()]), VList([it.anything()])
            preds = Havoc("predicates")
            tracker = Opaque("tracker", {"predicates": Opaque("predicates", {"values": SpecFn(lambda it, a, k: preds)})})
            lang = VList([it.anything()])
            d = VObj((fm.Driver,), None, {"asserts": asserts, "fns_synths": synths, "inv_tracker": tracker, "pred_tracker": tracker, "var_tracker": Havoc("var_tracker"),
                                          "fns": Havoc("fns"), "target_lang_fns": lang, "synthesized_fns": VDict([]), "uninterp_fns": Havoc("uninterp")})
            vc = vc_token(it, None)

            def conj(it, a, k):
                record(it, "conj", it.contents(VList(list(a))))
                return Opaque("bool", {"src": vc})
            for q in ("metalift.vc_util.and_objects", fm.__name__ + ".and_objects"):
                it.con.by_qual[q] = conj
            before, had = it.contents(asserts), it.contents(synths)

            def run_synthesis(it, a, k):
                rec = bound(sr.synthesize, a, k)
                rec["inv"] = it.contents(rec["inv_and_ps"])
                record(it, "asked", rec)
                it.maybe_raise()
                return Havoc("synthesized")
            for m in (sr, s5):
                it.con.by_qual[m.__name__ + ".synthesize"] = run_synthesis
            what = f"{which} Driver.synthesize"
            try:
                it.call(it.getattr(d, "synthesize"), [], {"filename": text("f")} if which == "llvm" else {})
            except SymRaise:
                return ctx.prove(z3.BoolVal(True), f"{what}: an exception reports nothing")
            q = last(it, "asked")
            if q is None:
                return ctx.fail(f"{what}: the synthesizer is called")
            ctx.prove(z3.BoolVal(it.split(q["vc"]) is vc), f"{what}: the condition is the conjunction of the assertions")
            ctx.prove(z3.BoolVal(last(it, "conj") == before), f"{what}: of all assertions, and only of them")
            nv = it.split(q.get("no_verify", False))
            ctx.prove(z3.BoolVal(nv is False), f"{what}: the solution is verified")
            inv = q["inv"][1] if q["inv"][0] == "seq" else ()
            want = VList(it.seq(preds))
            ctx.prove(z3.BoolVal(len(inv) == 2 and inv[0][:2] == it.contents(want)[1][0][:2] and inv[1:] == had[1]), f"{what}: every predicate and every function is synthesized")
        ctx.explore(path)
    return run


R = {"basename": "basename", "target": "target_lang", "inv": "inv_and_ps", "info": "loop_and_ps_info", "cvc": "cvc_path", "opt": "optimize_vc_equality"}
C = {"basename": "basename", "target": "targetLang", "inv": "invAndPs", "info": "loopAndPsInfo", "cvc": "cvcPath", "opt": "optimize_vc_equality"}
UNITS = {
    "verify_synth_result": unit_verify(False),
    "verify_synth_result rosette": unit_verify(True),
    "synthesize_rosette.synthesize": unit_synth(sr, R),
    "synthesize_cvc5.synthesize": unit_synth(s5, C),
    "python Driver.synthesize": unit_driver("python"),
    "llvm Driver.synthesize": unit_driver("llvm"),
    "verify_benchmark_smt": unit_llm_smt,
    "verify_benchmark_rosette": unit_llm_rosette,
    "run_llm_synthesis_algorithm smt": unit_llm_run("SMT"),
    "run_llm_synthesis_algorithm rosette": unit_llm_run("ROSETTE"),
}
