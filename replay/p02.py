from .lib import *
from .generic import check_term
import metalift.ir as ir
import re as _re


def run(R):
    E = envs(R.rng, 6)
    RET["integer_sqrt"] = INT
    for kind, r in cases(R.rng, 1500 if not R.thorough else 30000, 4):
        if R.over():
            break
        R.case(kind, show(r))
        check_term(R, "to_rosette", kind, r, build(r), E, "ros", lambda t: one_sexpr(t), ev_ros)
    names(R)
    decls(R)
    seteq(R)


SIG = {"get": "li", "append": "li", "prepend": "il", "empty": "", "tail": "li", "take": "li", "length": "l"}


def names(R):
    """every library function, on arguments of the right type"""
    src = open(ir.__file__.rsplit("/", 1)[0] + "/utils/utils.rkt").read() + open(ir.__file__.rsplit("/", 1)[0] + "/utils/bounded.rkt").read()
    defined = set(_re.findall(r"\(define(?:-bounded)? \(([^\s()]+)", src)) | {"length", "equal?"}
    ts = {"list": ty(LINT), "matrix": ir.Matrix[ir.Int], "tensor3d": ir.Tensor3D[ir.Int]}
    for rn, name in ROSLIB.items():
        fam = name.split("_")[0]
        fam = "list" if fam in ("vec", "integer") else fam
        l, i = ir.Var("l", ts[fam]), ir.Var("x", ir.Int)
        tail = name.split("_", 1)[1]
        n = {"transpose": [l], "concat": [l, ir.Var("m", ts[fam])], "sqrt": [i], "exp": [i]}.get(tail)
        if n is None:
            n = [l, i, ir.Var("y", ir.Int)] if "slice" in tail else [l if c == "l" else i for c in SIG[tail]]
        kind = f"name/{name}"
        R.case(kind)
        try:
            txt = ir.Call(name, ir.Int, *n).to_rosette()
            x = one_sexpr(txt)
        except Exception as ex:
            R.violation(f"to_rosette:{kind}", "library call", name, rn, repr(ex))
            continue
        R.check(x == [rn] + [a.args[0] for a in n], f"to_rosette:{kind}", "library call", name, [rn] + [a.args[0] for a in n], txt)
        R.check(x[0] in defined, f"to_rosette:{kind}:def", "library function is defined in utils.rkt", name, rn, x[0])


def decls(R):
    for cls, heads in ((ir.FnDecl, ("define",)), (ir.FnDeclRecursive, ("define-bounded", "define"))):
        for n in range(4):
            ps = [var(v, t) for v, t in (("x", INT), ("p", BOOL), ("y", INT))][:n]
            for un in (False, True):
                kind = f"{cls.__name__}/{n}/{un}"
                R.case(kind)
                try:
                    d = cls("fn", ir.Bool, build(mk("Not", lit(True))), *[build(p) for p in ps])
                    txt = d.to_rosette(is_uninterp=un)
                    x = one_sexpr(txt)
                    R.check(len(x) == 3 and x[0] in heads and x[1] == ["fn"] + [p[2] for p in ps] and ev_ros(x[2], {}) is False,
                            f"to_rosette:{kind}", "definition text", kind, "(define (fn params) body)", txt)
                except Exception as ex:
                    R.violation(f"to_rosette:{kind}", "definition text", kind, "definition", repr(ex))
            kind = f"{cls.__name__}/{n}/uninterpreted"
            R.case(kind)
            pr = {INT: "integer?", BOOL: "boolean?"}
            try:
                txt = cls("fn", ir.Bool, None, *[build(p) for p in ps]).to_rosette(is_uninterp=True)
                x = one_sexpr(txt)
                want = ["define-symbolic", "fn", ["~>"] + [pr[p.t] for p in ps] + ["boolean?"]]
                R.check(x == want, f"to_rosette:{kind}", "declaration text", kind, want, txt)
            except Exception as ex:
                R.violation(f"to_rosette:{kind}", "declaration text", kind, "declaration", repr(ex))


def seteq(R):
    R.case("set-eq")
    s = ir.Var("s", ir.Set[ir.Int])
    t = ir.Var("t", ir.Set[ir.Int])
    try:
        txt = ir.Eq(s, t).to_rosette()
        R.check(one_sexpr(txt) == ["set-eq", "s", "t"], "to_rosette:set-eq", "equality of sets", "Eq(s,t)", "(set-eq s t)", txt)
        txt = ir.Axiom(s, t).to_rosette()
        R.check(sexprs(txt) == [], "to_rosette:axiom", "axioms are not printed for Rosette", "Axiom", "", txt)
    except Exception as ex:
        R.violation("to_rosette:set-eq", "equality of sets", "Eq(s,t)", "(set-eq s t)", repr(ex))
