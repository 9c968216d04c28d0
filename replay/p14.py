"""the tensor functions and axioms on concrete values (interpreted), and the
functions that pick the operation for the kind of tensor"""
from pyvc.core import Unsupported
from contracts import p14 as C


def run(R):
    try:
        p = C.program()
        table = C.axioms()
    except Unsupported:
        return
    dispatch(R)
    rounds = 1 if not R.thorough else 20
    n = 500 if not R.thorough else 3000
    for k in range(rounds):
        for name, con in C.CONTRACTS.items():
            if name not in p.funs or R.over():
                continue
            R.case(name)
            R.evals += n
            bad = C.failing(p, name, con, R.seed + k, n)
            if bad:
                R.violation(f"tensor:{name}", "a tensor function computes something else", f"{name}{bad[0]}", bad[1], bad[2])
        for name, a in table.items():
            if R.over():
                return
            R.case(name)
            R.evals += n
            try:
                v = C.axiom_false(p, a, R.seed + k, 3 * n)
            except Unsupported:
                continue
            if v:
                R.violation(f"tensor:{name}", "an axiom is false of the functions it is about", v, "true", "false")


def dispatch(R):
    from metalift import ir
    import metalift.utils.tenspiler.tenspiler_common as T
    s = ir.Int("s")
    kinds = {"vec": (ir.List(ir.Int, "u"), ir.List(ir.Int, "v")), "matrix": (ir.Matrix(ir.Int, "u"), ir.Matrix(ir.Int, "v")), "tensor3d": (ir.Tensor3D(ir.Int, "u"), ir.Tensor3D(ir.Int, "v"))}

    def one(fn, args, name, ty):
        f = getattr(T, fn, None)
        if f is None:
            return
        R.case(f"{fn} {name}")
        r = f(*args)
        e = r.src
        got = (type(e).__name__, e.args[0], [a.args[0] for a in e.args[1:]], r.type)
        want = ("Call", name, [a.src.args[0] for a in args], ty)
        R.check(got == want, f"tensor:{fn}", "the wrong operation is built", f"{fn} of {name.split('_')[0]}", want, got)
    for k, (u, v) in kinds.items():
        for op in ("add", "sub", "mul", "div"):
            if k != "tensor3d" or op in ("add", "mul"):
                one(f"call_elemwise_{op}", (u, v), f"{k}_elemwise_{op}", u.type)
                one(f"call_{'tensor_3d' if k == 'tensor3d' else k}_elemwise_{op}", (u, v), f"{k}_elemwise_{op}", u.type)
            if k != "tensor3d":
                one(f"call_scalar_{op}", (s, u), f"{k}_scalar_{op}", u.type)
                one(f"call_{k}_scalar_{op}", (s, u), f"{k}_scalar_{op}", u.type)
        if k != "tensor3d":
            for op in ("sub", "div"):
                one(f"call_scalar_r{op}", (s, u), f"scalar_{k}_{op}", u.type)
                one(f"call_scalar_{k}_{op}", (s, u), f"scalar_{k}_{op}", u.type)
    vec, mat = kinds["vec"][0], kinds["matrix"][0]
    for op in ("sum", "mul", "max"):
        one(f"call_reduce_{op}", (vec,), f"reduce_{op}", ir.Int)
    one("call_matrix_vec_mul", (mat, vec), "matrix_vec_mul", ir.List[ir.Int])
    one("call_integer_exp", (s,), "integer_exp", ir.Int)
    one("call_integer_sqrt", (s,), "integer_sqrt", ir.Int)
    one("call_map_int_to_int", (s,), "map_int_to_int", ir.Int)
