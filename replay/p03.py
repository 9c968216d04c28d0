from .lib import *
import metalift.ir as ir
import warnings

warnings.simplefilter("ignore")
NAMES = ("set-member", "set-insert", "set-union", "map-get")
DROP = ("Implies", "LetI", "LetX") + tuple(f"{n}/{k}" for n in NAMES for k in (1, 2))


def topy(v):
    if isinstance(v, tuple):
        if v[:1] == ("T",):
            return tuple(topy(x) for x in v[1:])
        if v[:1] == ("O",):
            return v
        return [topy(x) for x in v]
    return v


def norm(v):
    if isinstance(v, list):
        return tuple(norm(x) for x in v)
    if isinstance(v, tuple) and v[:1] != ("O",):
        return ("T",) + tuple(norm(x) for x in v)
    return v


def opaque(v):
    return isinstance(v, tuple) and (v[:1] == ("O",) or any(opaque(x) for x in v))


PYLIB = {"list_concat", "list_eq", "integer_sqrt"}


class Scope(dict):
    def __missing__(self, k):
        import builtins
        if hasattr(builtins, k):
            raise KeyError(k)
        if k in FN and k not in PYLIB:
            raise Bad(f"{k} is not a Python function")
        return lambda *a: topy(apply(k, [norm(x) for x in a]))


def pyeval(txt, env):
    sc = Scope({k: topy(v) for k, v in env.items()})
    return norm(eval(txt, {}, sc))


def run(R):
    STRICT[0] = True
    E = envs(R.rng, 6)
    for kind, r in cases(R.rng, 1500 if not R.thorough else 30000, 4, drop=DROP):
        if R.over():
            break
        R.case(kind, show(r))
        one(R, kind, r, E)
    # the names that only exist as methods of the emitted program's lists
    for name, t, a in (("matrix_length", INT, [LINT]), ("matrix_get", INT, [LINT, INT]), ("matrix_append", LINT, [LINT, INT]), ("matrix_prepend", LINT, [INT, LINT]),
                       ("matrix_tail", LINT, [LINT, INT]), ("matrix_take", LINT, [LINT, INT]), ("matrix_row_slice", LINT, [LINT, INT, INT]),
                       ("matrix_row_slice_with_length", LINT, [LINT, INT, INT]), ("matrix_empty", LINT, [])):
        for r in (call(name, t, *[leaves(k)[0] for k in a]), call(name, t, *[leaves(k)[-1] for k in a]),
                  call(name, t, *[mk("Ite", var("p", BOOL), leaves(k)[0], leaves(k)[-1]) if k == INT else leaves(k)[0] for k in a])):
            R.case(name, show(r))
            one(R, name, r, E + [dict(e, x=1, y=2, z=1, l=(4, 5, 6, 7)) for e in E[:2]])
    decls(R)


def one(R, kind, r, E):
    sig = f"to_python:{kind}"
    try:
        txt = build(r).to_python()
    except Exception as ex:
        return R.violation(sig, "to_python raises", show(r), "text", repr(ex))
    try:
        code = compile(txt, "<text>", "eval")
    except SyntaxError as ex:
        return R.violation(sig, "to_python text is not a Python expression", show(r), "an expression", txt)
    for env in E:
        try:
            want = ev(r, env, "py")
        except (Skip, TypeError, RecursionError):
            continue
        if opaque(want):
            continue
        try:
            got = pyeval(code, env)
        except Skip:
            continue
        except Exception as ex:
            return R.violation(sig, f"to_python text does not evaluate: {ex!r}", f"{show(r)} with {env}", want, txt)
        if got != want or isinstance(got, bool) != isinstance(want, bool):
            return R.violation(sig, "to_python text has another value", f"{show(r)} with {env}", want, f"{txt} = {got}")


def decls(R):
    for cls in (ir.FnDecl, ir.FnDeclRecursive):
        for n in range(4):
            ps = [var(v, t) for v, t in (("x", INT), ("y", INT), ("l", LINT))][:n]
            body = mk("Sub", ps[0] if n else lit(3), mk("Sub", lit(1), ps[1] if n > 1 else lit(1)))
            kind = f"{cls.__name__}/{n}"
            R.case(kind)
            try:
                txt = cls("fn", ir.Int, build(body), *[build(p) for p in ps]).to_python()
                g = {}
                import typing
                g["List"] = typing.List
                exec(txt, g)
                vals = {"x": 7, "y": 3, "l": ()}
                want = ev(body, vals, "py")
                got = g["fn"](*[topy(vals[p[2]]) for p in ps])
                R.check(got == want, f"to_python:{kind}", "definition text", kind, want, f"{txt} = {got}")
                an = list(g["fn"].__annotations__.items())
                R.check([a for a, _ in an] == [p[2] for p in ps] + ["return"] and [str(t) for _, t in an[:2]] == [str(int)] * min(2, len(an)),
                        f"to_python:{kind}:ann", "annotations", kind, "names and types", txt)
            except Exception as ex:
                R.violation(f"to_python:{kind}", "definition text", kind, "definition", repr(ex))
