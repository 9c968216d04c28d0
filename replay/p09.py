from .lib import *
import itertools, typing, collections.abc
import metalift.ir as ir

LV = {"List": 1, "Matrix": 2, "Tensor3D": 3}
S1 = {"List": ir.List, "Matrix": ir.Matrix, "Tensor3D": ir.Tensor3D, "Set": ir.Set}


# a type is described by "Int", "Bool", (name, child) or ("Tuple"|"Fn", [children])
def mk(d):
    if isinstance(d, str):
        return getattr(ir, d)
    if d[0] in S1:
        return S1[d[0]][mk(d[1])]
    return getattr(ir, d[0])[tuple[tuple(mk(x) for x in d[1])]]


def smt(d):
    if isinstance(d, str):
        return d
    if d[0] in LV:
        return "(MLList " * LV[d[0]] + smt(d[1]) + ")" * LV[d[0]]
    if d[0] == "Set":
        return f"(Set {smt(d[1])})"
    return f"(Tuple{len(d[1])} {' '.join(map(smt, d[1]))})"


def name(d):
    if isinstance(d, str):
        return d
    if d[0] in LV:
        return "List " * LV[d[0]] + name(d[1])
    if d[0] == "Set":
        return smt(d)
    if d[0] == "Tuple":
        return "Tuple " + " ".join(map(smt, d[1]))
    return "Function " + " ".join(f"({name(x)})" if x[0] == "Fn" else smt(x) for x in d[1])


def pystr(d):
    if isinstance(d, str):
        return {"Int": "int", "Bool": "bool"}[d]
    if d[0] in LV:
        return "List[" * LV[d[0]] + pystr(d[1]) + "]" * LV[d[0]]
    if d[0] == "Set":
        return f"Set[{pystr(d[1])}]"
    if d[0] == "Tuple":
        return f"Tuple[{', '.join(map(pystr, d[1]))}]"
    return f"Callable[[{', '.join(map(pystr, d[1][1:]))}], {pystr(d[1][0])}]"


def pytype(d):
    if isinstance(d, str):
        return {"Int": int, "Bool": bool}[d]
    if d[0] in LV:
        r = pytype(d[1])
        for _ in range(LV[d[0]]):
            r = list[r]
        return r
    if d[0] == "Set":
        return set[pytype(d[1])]
    if d[0] == "Tuple":
        return tuple[tuple(map(pytype, d[1]))]
    return typing.Callable[[pytype(x) for x in d[1][1:]], pytype(d[1][0])]


def same_pytype(a, b):
    oa, ob = typing.get_origin(a), typing.get_origin(b)
    norm = {typing.List: list, typing.Set: set, typing.Tuple: tuple}
    oa, ob = norm.get(oa, oa), norm.get(ob, ob)
    if oa != ob:
        return False
    if oa is None:
        return a == b
    xa, xb = typing.get_args(a), typing.get_args(b)
    flat = lambda xs: [y for x in xs for y in (["["] + list(x) + ["]"] if isinstance(x, list) else [x])]
    xa, xb = flat(xa), flat(xb)
    return len(xa) == len(xb) and all(x == y if isinstance(x, str) or isinstance(y, str) else same_pytype(x, y) for x, y in zip(xa, xb))


def canon(d):
    if isinstance(d, str):
        return d
    if d[0] in LV:
        r = canon(d[1])
        for _ in range(LV[d[0]]):
            r = ("List", r)
        return r
    if d[0] == "Set":
        return ("Set", canon(d[1]))
    return (d[0], tuple(map(canon, d[1])))


def has_fn(d):
    return not isinstance(d, str) and (d[0] == "Fn" or (any(map(has_fn, d[1])) if d[0] == "Tuple" else has_fn(d[1])))


def call(R, key, shown, f, want, eq=lambda a, b: a == b):
    R.case(key, shown)
    try:
        got = f()
    except Exception as e:
        R.violation(key + ":fails", f"{key} fails", shown, want, repr(e))
        return None
    R.check(eq(got, want), key, f"{key} is wrong", shown, want, got)
    return got


def types(R):
    lvl0 = ["Int", "Bool"]
    lvl1 = [(c, t) for c in S1 for t in lvl0] + [("Tuple", list(p)) for k in (1, 2, 3) for p in itertools.product(lvl0, repeat=k)]
    lvl2 = [(c, t) for c in S1 for t in lvl1] + [("Tuple", [a, b]) for a in lvl0 + lvl1 for b in lvl0 + lvl1 if not (a in lvl0 and b in lvl0)]
    r = R.rng
    some = lambda ts, n: r.sample(ts, min(n, len(ts)))
    lvl3 = [(c, t) for c in S1 for t in (lvl2 if R.tier != "quick" else some(lvl2, 80))]
    allv = lvl0 + lvl1 + lvl2 + lvl3
    for _ in range(200):
        allv.append(("Tuple", [r.choice(allv[:200]) for _ in range(r.randrange(1, 13))]))
    fns = [("Fn", list(p)) for k in (1, 2, 3) for p in itertools.product(lvl0 + lvl1[:10], repeat=k)]
    for _ in range(150):
        fns.append(("Fn", [r.choice(allv[:250]) for _ in range(r.randrange(1, 12))]))
    for _ in range(100):
        fns.append(("Fn", [r.choice(allv[:60] + fns[:300]) for _ in range(r.randrange(1, 5))]))
    return allv, fns


def llvm(R):
    class Ref:
        def __init__(s, t): s.t = t
        def __str__(s): return s.t
    I, T = ir.Int, lambda k: ir.Tuple[tuple[tuple([ir.Int] * k)]]
    tab = {"i32": I, "i32*": I, "i1": ir.Bool, "i8": ir.Bool, "i8*": ir.Bool, "%struct.list*": ir.List[I], "%struct.list**": ir.List[I],
           '%"class.std::__1::List"*': ir.List[I], '%"class.std::__1::List.17"*': ir.List[I], '%"class.std::__1::vector"*': ir.List[ir.List[I]],
           "%struct.set*": ir.Set[I], "%struct.tup*": T(2)}
    for k in range(1, 9):
        tab[f"%struct.tup.{k}*"] = T(k + 1)
    for s, want in tab.items():
        for x in (s, Ref(s)):
            call(R, "parse_type_ref_to_obj", s, lambda: ir.parse_type_ref_to_obj(x), want)
    for s in ("i64", "float", "%struct.map*", "void"):
        R.case("parse_type_ref_to_obj:unknown", s)
        try:
            R.check(False, "parse_type_ref_to_obj:unknown", "an unknown LLVM type is accepted", s, "an exception", ir.parse_type_ref_to_obj(Ref(s)))
        except Exception:
            pass


def run(R):
    llvm(R)
    allv, fns = types(R)
    seen, seen_s = {}, {}
    for d in allv + fns:
        if R.over():
            break
        t = mk(d)
        fn, shown = d[0] == "Fn", str(t).replace("metalift.ir.", "")
        call(R, "get_type_str", shown, lambda: ir.get_type_str(t), name(d))
        call(R, "to_python_type_str", shown, lambda: t.to_python_type_str(ir.get_args(t)), pystr(d))
        call(R, "to_python_type", shown, lambda: t.to_python_type(ir.get_args(t)), pytype(d), same_pytype)
        if not fn:
            call(R, "toSMTType", shown, lambda: t.toSMTType(ir.get_args(t)), smt(d))
            for texts, f, what in ((seen, ir.get_type_str, "name"), (seen_s, lambda x: x.toSMTType(ir.get_args(x)), "sort")):
                try:
                    s = f(t)
                except Exception:
                    continue
                if s in texts:
                    R.check(canon(texts[s]) == canon(d), "distinct", f"two types have the same {what}", f"{shown}, {mk(texts[s])}", "different texts", s)
                texts.setdefault(s, d)
            call(R, "parse_type_ref_to_obj", shown, lambda: ir.parse_type_ref_to_obj(t), t)
        k = d if isinstance(d, str) else d[0]
        prim, lst = k in ("Int", "Bool"), k in LV
        for f, want in ((ir.is_list_type, lst), (ir.is_matrix_type, k == "Matrix"), (ir.is_tensor3d_type, k == "Tensor3D"), (ir.is_set_type, k == "Set"),
                        (ir.is_tuple_type, k == "Tuple"), (ir.is_fn_decl_type, fn), (ir.is_primitive_type, prim), (ir.is_pointer_type, not prim), (ir.is_new_object_type, True)):
            call(R, f.__name__, shown, lambda: bool(f(t)), want)
        if k in S1:
            call(R, "is_nested_list_type", shown, lambda: bool(ir.is_nested_list_type(t)), lst and not isinstance(d[1], str) and d[1][0] in LV)
            call(R, "get_element_type", shown, lambda: ir.get_element_type(t), mk(d[1]))
            call(R, "get_list_element_type", shown, lambda: ir.get_list_element_type(t), mk(d[1]))
        if fn:
            call(R, "get_fn_return_type", shown, lambda: ir.get_fn_return_type(t), mk(d[1][0]))
            call(R, "Fn.return_type", shown, lambda: ir.Fn.return_type(ir.get_args(t)), mk(d[1][0]))
            call(R, "Fn.argument_types", shown, lambda: list(ir.Fn.argument_types(ir.get_args(t))), [mk(x) for x in d[1][1:]])
    for x in (int, bool, str, list, None, 3, "Int", ir.Expr, ir.Lit, tuple):
        call(R, "is_new_object_type", repr(x), lambda: bool(ir.is_new_object_type(x)), False)
