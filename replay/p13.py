"""the functions of utils.rkt on concrete values, by an interpreter"""
import itertools
from pyvc.core import Unsupported
from contracts import p13 as C


def sizes(R):
    n = 400 if not R.thorough else 4000
    k = 0
    while True:
        yield R.seed + k, n
        k += 1
        if k >= (2 if not R.thorough else 40):
            return


def run(R):
    try:
        p = C.program()
    except Unsupported:
        return
    items = list(C.CONTRACTS.items()) + [(n, C.variant(n, s)) for n, s in C.VARIANTS.items()]
    for seed, n in sizes(R):
        for name, con in items:
            if R.over():
                return
            if name not in p.funs:
                continue
            R.case(name)
            R.evals += n
            bad = C.failing(p, name, con, seed, n)
            if bad:
                R.violation(f"racket:{name}", "a library function computes something else", f"({name} {bad[0]})", bad[1], bad[2])
