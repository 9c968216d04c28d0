"""Reading of the texts metalift prints: s-expressions over ropes (SMT-LIB and
Rosette) turned back into denotations."""
import re
import z3
from pyvc.core import *
from .irspec import *


class Tok:
    """a symbol: list of parts (str / Atom / DecAtom)"""

    def __init__(self, parts):
        self.parts = parts

    def text(self):
        return "".join(self.parts) if all(isinstance(p, str) for p in self.parts) else None

    def __repr__(self):
        return "Tok" + repr(self.parts)


class SList:
    def __init__(self, items):
        self.items = items

    def __repr__(self):
        return "(" + " ".join(map(repr, self.items)) + ")"


class Seg:
    """JoinPart parsed: n copies of an s-expression sequence"""

    def __init__(self, many, exprs):
        self.many, self.exprs = many, exprs


class ParseError(Exception):
    pass


def parse_rope(it, r, term_kinds):
    """list of s-expressions of a rope; atoms whose kind is in term_kinds are
    complete s-expressions by the contract of the callee that produced them"""
    stack = [[]]
    cur = None

    def flush():
        nonlocal cur
        if cur is not None:
            stack[-1].append(Tok(cur))
            cur = None
    parts = list(rope(r).parts)
    for i, p in enumerate(parts):
        if isinstance(p, str):
            for ch in p:
                if ch in "([":
                    flush()
                    stack.append([])
                elif ch in ")]":
                    flush()
                    if len(stack) == 1:
                        raise ParseError("unbalanced )")
                    x = stack.pop()
                    stack[-1].append(SList(x))
                elif ch.isspace():
                    flush()
                else:
                    if cur is None:
                        cur = []
                    if cur and isinstance(cur[-1], str):
                        cur[-1] += ch
                    else:
                        cur.append(ch)
        elif isinstance(p, Atom) and p.kind in term_kinds:
            # must stand alone
            prev_ok = cur is None
            nxt = parts[i + 1] if i + 1 < len(parts) else " "
            nxt_ok = isinstance(nxt, str) and (nxt[0].isspace() or nxt[0] in "()[]") or isinstance(nxt, OptSep)
            if not prev_ok or not nxt_ok:
                raise ParseError(f"operand text runs into its neighbour at {p}")
            stack[-1].append(p)
        elif isinstance(p, (Atom, DecAtom)):
            if cur is None:
                cur = []
            cur.append(p)
        elif isinstance(p, JoinPart):
            prev_ok = cur is None
            seg = p.seg
            if isinstance(seg.val, Cases):
                seg = Many(seg.n, seg.idx, merge_tokens(it, seg.val, term_kinds), seg.cond)
            if p.sep and not p.sep.isspace():
                raise ParseError(f"separator {p.sep!r} inside an s-expression")
            body = parse_rope(it, Rope(rope(seg.val).parts + [" "]), term_kinds)
            if not p.sep:
                v = rope(seg.val).parts
                if not (v and isinstance(v[-1], str) and v[-1][-1].isspace()) and not (v and isinstance(v[0], str) and v[0][0].isspace()):
                    raise ParseError("operands are not separated")
            if not prev_ok:
                raise ParseError("operand text runs into its neighbour")
            flush()
            stack[-1].append(Seg(seg, body))
        elif isinstance(p, OptSep):
            if p.sep.isspace():
                flush()
            else:
                raise ParseError(f"separator {p.sep!r}")
        else:
            raise Unsupported(f"text part {p!r}")
    flush()
    if len(stack) != 1:
        raise ParseError("unbalanced (")
    return stack[0]


def merge_tokens(it, cs, term_kinds):
    """conditional texts that are single symbols: one symbol given by an if"""
    out = None
    for c, v in reversed(cs.cases):
        r = rope(v)
        if any(isinstance(p, str) and re.search(r"[\s()\[\]]", p) or isinstance(p, Atom) and p.kind in term_kinds for p in r.parts):
            raise Unsupported("text of a sequence by cases")
        t = it.str_term(r)
        if t is None:
            raise Unsupported("text of a sequence by cases")
        out = t if out is None else z3.If(c, t, out)
    return Rope([Atom(out, "cases", None)])


def tok_z3(it, t):
    return it.str_term(Rope(t.parts))


class Reader:
    """s-expression -> denotation; subclassed for SMT-LIB and Rosette"""

    kinds = ()
    ops = {}

    def __init__(self, it):
        self.it = it

    def one(self, r):
        xs = parse_rope(self.it, Rope(rope(r).parts), self.kinds)
        if len(xs) != 1 or isinstance(xs[0], Seg):
            raise ParseError(f"{len(xs)} s-expressions instead of one")
        return self.den(xs[0])

    def segs(self, xs):
        out = []
        for x in xs:
            if isinstance(x, Seg):
                if len(x.exprs) != 1:
                    raise ParseError("one operand printed as several")
                with_den = self.den(x.exprs[0])
                out.append(Many(x.many.n, x.many.idx, with_den, x.many.cond))
            else:
                out.append(One(self.den(x)))
        return out

    def den(self, x):
        if isinstance(x, Atom):
            return DLeaf(D(x.ref.id))
        if isinstance(x, Tok):
            return self.symbol(x)
        if not x.items:
            raise ParseError("()")
        return self.app(x.items)

    def symbol(self, t):
        s = t.text()
        if s is not None:
            if s in ("true", "false"):
                return DLeaf(B_(z3.BoolVal(s == "true")))
            r = self.number(s)
            if r is not None:
                return DLeaf(I_(z3.IntVal(r)))
        if len(t.parts) == 1 and isinstance(t.parts[0], DecAtom):
            return self.decimal(t.parts[0].t)
        z = tok_z3(self.it, t)
        if z is None:
            raise ParseError(f"symbol {t}")
        return self.name(t, z)

    def name(self, t, z):
        return DLeaf(envf(z))


class SMTReader(Reader):
    kinds = ("smt",)

    def number(self, s):
        return int(s) if re.fullmatch(r"[0-9]+", s) else None

    def decimal(self, t):
        # SMT-LIB numerals are non-negative: a text like -5 is a symbol
        if not self.it.ctx.must(t >= 0):
            raise ParseError("negative number printed as a symbol")
        return DLeaf(I_(t))

    def app(self, items):
        h = items[0]
        if isinstance(h, Tok) and h.text() == "let":
            if len(items) != 3 or not isinstance(items[1], SList) or len(items[1].items) != 1:
                raise ParseError("let form")
            b = items[1].items[0]
            if not isinstance(b, SList) or len(b.items) != 2:
                raise ParseError("let binding")
            nm = self.binder(b.items[0])
            return DApp("let", [One(DBind("var", [nm], DLeaf(envf(nm)))), One(self.den(b.items[1])), One(self.den(items[2]))])
        if isinstance(h, Tok) and h.text() == "as":
            if len(items) == 3 and isinstance(items[1], Tok) and items[1].text() == "set.empty":
                return DApp(z3.Concat(z3.StringVal("as set.empty "), self.sort(items[2])), [])
            raise ParseError("as form")
        if not isinstance(h, (Tok, Atom)):
            raise ParseError("application of a compound term")
        args = self.segs(items[1:])
        if not args:
            raise ParseError("application without arguments")
        if isinstance(h, Atom):
            # a function variable used as head
            return DApp(nameof(h.ref.id), args)
        s = h.text()
        if s in self.OPS:
            return self.builtin(s, args)
        z = self.head(h)
        return DApp(z, args)

    OPS = {"+", "-", "*", "div", "mod", "=", "<", "<=", ">", ">=", "and", "or", "not", "=>", "ite"}

    def builtin(self, s, args):
        if s in ("+", "*") and all(isinstance(a, One) for a in args) and len(args) < 2:
            raise ParseError(f"{s} needs two operands in SMT-LIB")
        return DApp(s, args)

    def binder(self, x):
        if isinstance(x, Atom):
            return nameof(x.ref.id)
        return tok_z3(self.it, x)

    def head(self, h):
        return tok_z3(self.it, h)

    def sort(self, x):
        return sort_z3(self.it, x)


def sort_z3(it, x):
    """text of a sort s-expression as a z3 string (canonical spacing)"""
    if isinstance(x, Atom):
        return x.t
    if isinstance(x, Tok):
        return tok_z3(it, x)
    if isinstance(x, SList):
        parts = [z3.StringVal("(")]
        for i, y in enumerate(x.items):
            if i:
                parts.append(z3.StringVal(" "))
            parts.append(sort_z3(it, y))
        return z3.Concat(*parts, z3.StringVal(")"))
    raise ParseError("sort")
