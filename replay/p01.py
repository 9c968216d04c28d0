from .lib import *
from .generic import check_term
import metalift.ir as ir


def run(R):
    E = envs(R.rng, 6)
    for kind, r in cases(R.rng, 1500 if not R.thorough else 30000, 4):
        if R.over():
            break
        e = build(r)
        R.case(kind, show(r))
        check_term(R, "toSMT", kind, r, e, E, "smt", one_sexpr, ev_smt)
    decls(R)


SORT = {INT: "Int", BOOL: "Bool", LINT: ["MLList", "Int"], SINT: ["Set", "Int"], T2: None}


def decls(R):
    for cls, head in ((ir.FnDecl, "define-fun"), (ir.FnDeclRecursive, "define-fun-rec")):
        for n in range(4):
            ps = [var(v, t) for v, t in (("x", INT), ("p", BOOL), ("l", LINT))][:n]
            for ret, body in ((INT, mk("Add", lit(1), lit(-2))), (BOOL, mk("Not", lit(True))), (LINT, None), (INT, "str")):
                kind = f"{cls.__name__}/{n}/{ret}/{'none' if body is None else 'str' if body == 'str' else 'expr'}"
                R.case(kind)
                b = "(+ 1 (- 2))" if body == "str" else None if body is None else build(body)
                d = cls("fn", ty(ret), b, *[build(p) for p in ps])
                try:
                    txt = d.toSMT()
                    x = one_sexpr(txt)
                    if body is None:
                        want = ["declare-fun", "fn", [SORT[p.t] for p in ps], SORT[ret]]
                        ok = x == want
                    else:
                        want = [head, "fn", [[p[2], SORT[p.t]] for p in ps], SORT[ret], "body"]
                        ok = x[:4] == want[:4] and len(x) == 5 and ev_smt(x[4], {}) == (-1 if ret == INT else False)
                    R.check(ok, f"toSMT:{kind}", "declaration text", kind, want, txt)
                except Exception as ex:
                    R.violation(f"toSMT:{kind}", "declaration text", kind, "declaration", repr(ex))
    for n in range(3):
        ps = [var(v, t) for v, t in (("x", INT), ("p", BOOL))][:n]
        kind = f"Axiom/{n}"
        R.case(kind)
        try:
            txt = ir.Axiom(build(mk("Not", lit(True))), *[build(p) for p in ps]).toSMT()
            x = one_sexpr(txt)
            ok = x[:1] == ["assert"] and x[1][0] == "forall" and x[1][1] == [[p[2], SORT[p.t]] for p in ps] and ev_smt(x[1][2], {}) is False
            R.check(ok, f"toSMT:{kind}", "axiom text", kind, "(assert (forall ...))", txt)
        except Exception as ex:
            R.violation(f"toSMT:{kind}", "axiom text", kind, "axiom", repr(ex))
    for cls, h in ((ir.Assert, "assert"), (ir.Constraint, "constraint")):
        R.case(cls.__name__)
        try:
            x = one_sexpr(cls(build(mk("Not", lit(True)))).toSMT())
            R.check(x[0] == h and ev_smt(x[1], {}) is False, f"toSMT:{cls.__name__}", "command text", cls.__name__, h, x)
        except Exception as ex:
            R.violation(f"toSMT:{cls.__name__}", "command text", cls.__name__, h, repr(ex))
