"""Reading of emitted Python text (ropes) back into denotations."""
import re
import z3
from pyvc.core import *
from .irspec import *
from .smtparse import ParseError, merge_tokens

# tokens: ("op", s) ("name", parts) ("num", int|term) ("py", Atom) ("seg", Many, sep tokens, element tokens) ("nl", indent) ("ty", term)
OPS3 = ["//", "->", "==", "!=", "<=", ">="]


def lex(it, r):
    out = []
    parts = list(rope(r).parts)
    cur = None

    def flush():
        nonlocal cur
        if cur is not None:
            t = "".join(cur) if all(isinstance(p, str) for p in cur) else None
            if t is not None and re.fullmatch(r"[0-9]+", t):
                out.append(("num", int(t)))
            else:
                out.append(("name", cur))
            cur = None
    for p in parts:
        if isinstance(p, str):
            i = 0
            while i < len(p):
                c = p[i]
                if c.isalnum() or c == "_":
                    if out and cur is None and out[-1][0] in ("py", "num", "ty") and not out[-1][2:]:
                        if i == 0 and out[-1] is last_atom[0]:
                            raise ParseError("operand text runs into its neighbour")
                    cur = (cur or [])
                    if cur and isinstance(cur[-1], str):
                        cur[-1] += c
                    else:
                        cur.append(c)
                    i += 1
                    continue
                flush()
                if c == "\n":
                    m = re.match(r"\n( *)", p[i:])
                    out.append(("nl", len(m.group(1))))
                    i += len(m.group(0))
                elif c.isspace():
                    i += 1
                elif p[i:i + 2] in OPS3:
                    out.append(("op", p[i:i + 2]))
                    i += 2
                elif c in "+-*%<>()[],:=.":
                    out.append(("op", c))
                    i += 1
                else:
                    raise ParseError(f"character {c!r}")
        elif isinstance(p, Atom) and p.kind in ("py", "typy"):
            if cur is not None:
                raise ParseError("operand text runs into its neighbour")
            out.append((("py" if p.kind == "py" else "ty"), p))
            last_atom[0] = out[-1]
        elif isinstance(p, DecAtom):
            if cur is not None:
                raise ParseError("number runs into its neighbour")
            out.append(("num", p.t))
        elif isinstance(p, Atom):
            cur = (cur or []) + [p]
        elif isinstance(p, JoinPart):
            flush()
            seg = p.seg
            if isinstance(seg.val, Cases):
                raise Unsupported("text of a sequence by cases")
            out.append(("seg", seg, lex(it, Rope([p.sep])), lex(it, rope(seg.val))))
        elif isinstance(p, OptSep):
            flush()
            st = lex(it, Rope([p.sep]))
            out.append(("optsep", st))
        else:
            raise Unsupported(f"text part {p!r}")
    flush()
    return out


last_atom = [None]
CMP = {"==": "=", "<": "<", "<=": "<=", ">": ">", ">=": ">="}


class PyParser:
    def __init__(self, it, toks):
        self.it, self.t, self.i = it, toks, 0

    def peek(self, *ops):
        return self.i < len(self.t) and self.t[self.i][0] == "op" and self.t[self.i][1] in ops

    def kw(self, *names):
        if self.i < len(self.t) and self.t[self.i][0] == "name":
            x = self.t[self.i][1]
            return len(x) == 1 and x[0] in names
        return False

    def take(self, op):
        if not self.peek(op):
            raise ParseError(f"{op!r} expected at {self.t[self.i:self.i + 3]}")
        self.i += 1

    def segsep(self):
        """operator of the sequence at the cursor, if it is an operator chain"""
        if self.i < len(self.t) and self.t[self.i][0] == "seg":
            st = self.t[self.i][2]
            if len(st) == 1 and st[0][0] == "op":
                return st[0][1]
            if len(st) == 1 and st[0][0] == "name" and len(st[0][1]) == 1:
                return st[0][1][0]
            return ""
        return None

    def seg_den(self):
        _, seg, _, el = self.t[self.i]
        self.i += 1
        d = PyParser(self.it, el).full()
        return Many(seg.n, seg.idx, d, seg.cond)

    def full(self):
        d = self.ternary()
        if self.i != len(self.t):
            raise ParseError(f"text after the expression: {self.t[self.i:self.i + 3]}")
        return d

    def ternary(self):
        a = self.or_()
        if self.kw("if"):
            self.i += 1
            c = self.or_()
            if not self.kw("else"):
                raise ParseError("else expected")
            self.i += 1
            b = self.ternary()
            return DApp("ite", [One(c), One(a), One(b)])
        return a

    def chain(self, op, name, sub):
        if self.segsep() == op:
            m = self.seg_den()
            if self.closed_n(m):
                return DApp(name, [m])
        xs = [One(sub())]
        while (self.peek(op) if op in "+*" else self.kw(op)):
            self.i += 1
            xs.append(One(sub()))
        return xs[0].v if len(xs) == 1 else DApp(name, xs)

    def closed_n(self, m):
        if not self.it.ctx.must(m.n >= 1):
            raise ParseError("empty operator chain")
        return True

    def or_(self):
        return self.chain("or", "or", self.and_)

    def and_(self):
        return self.chain("and", "and", self.not_)

    def not_(self):
        if self.kw("not"):
            self.i += 1
            return DApp("not", [One(self.not_())])
        return self.cmp()

    def cmp(self):
        a = self.sum()
        if self.peek(*CMP):
            op = CMP[self.t[self.i][1]]
            self.i += 1
            b = self.sum()
            if self.peek(*CMP):
                raise ParseError("chained comparison")
            return DApp(op, [One(a), One(b)])
        return a

    def sum(self):
        if self.segsep() == "+":
            m = self.seg_den()
            self.closed_n(m)
            return DApp("+", [m])
        a = self.term()
        n = 0
        while self.peek("+", "-"):
            op = self.t[self.i][1]
            self.i += 1
            a = DApp(op, [One(a), One(self.term())])
        return a

    def term(self):
        if self.segsep() == "*":
            m = self.seg_den()
            self.closed_n(m)
            return DApp("*", [m])
        a = self.unary()
        while self.peek("*", "//", "%"):
            op = {"*": "*", "//": "div", "%": "mod"}[self.t[self.i][1]]
            self.i += 1
            a = DApp(op, [One(a), One(self.unary())])
        return a

    def unary(self):
        if self.peek("-"):
            self.i += 1
            return DApp("-", [One(self.unary())])
        return self.primary()

    def primary(self):
        if self.i >= len(self.t):
            raise ParseError("expression expected")
        k = self.t[self.i]
        if k[0] == "py":
            self.i += 1
            d = DLeaf(D(k[1].ref.id))
            callee = nameof(k[1].ref.id)
        elif k[0] == "num":
            self.i += 1
            t = k[1] if z3.is_expr(k[1]) else z3.IntVal(k[1])
            if z3.is_expr(k[1]) and not self.it.ctx.must(t >= 0) and (self.peek("[", "(") or self.i < len(self.t) and self.t[self.i] == ("op", ".")):
                raise ParseError("negative number as a primary")
            return DLeaf(I_(t))
        elif k[0] == "name":
            s = k[1][0] if len(k[1]) == 1 and isinstance(k[1][0], str) else None
            self.i += 1
            if s in ("True", "False"):
                return DLeaf(B_(z3.BoolVal(s == "True")))
            if s in ("and", "or", "not", "if", "else", "in", "is", "lambda", "return", "def", "None"):
                raise ParseError(f"keyword {s}")
            z = self.it.str_term(Rope(k[1]))
            d, callee = DLeaf(envf(z)), z
            if s == "len" and self.peek("("):
                args = self.arglist()
                if len(args) != 1 or not isinstance(args[0], One):
                    raise ParseError("len takes one argument")
                d, callee = DApp("py-len", args), None
        elif k == ("op", "("):
            self.i += 1
            xs, trailing = self.items(")")
            if len(xs) == 1 and isinstance(xs[0], One) and not trailing:
                d = xs[0].v
            else:
                if len(xs) == 1 and isinstance(xs[0], Many) and not trailing:
                    # (x) is not a tuple
                    if not self.it.ctx.must(xs[0].n != 1):
                        raise ParseError("a one-element tuple needs a trailing comma")
                if not xs or (trailing and isinstance(xs[0], Many) and not self.it.ctx.must(xs[0].n >= 1)):
                    raise ParseError("empty tuple")
                d = DApp("py-tuple", xs)
            callee = None
        elif k == ("op", "["):
            self.i += 1
            xs, _ = self.items("]")
            d = DApp("py-list", xs)
            callee = None
        else:
            raise ParseError(f"expression expected at {k}")
        while True:
            if self.peek("("):
                if callee is None:
                    raise ParseError("call of a compound expression")
                d, callee = DApp(callee, self.arglist()), None
            elif self.peek("["):
                self.i += 1
                lo = hi = None
                if not self.peek(":"):
                    lo = self.ternary()
                if self.peek(":"):
                    self.i += 1
                    if not self.peek("]"):
                        hi = self.ternary()
                    self.take("]")
                    d = DApp("py-slice", [One(d), One(lo or NONE), One(hi or NONE)])
                else:
                    self.take("]")
                    d = DApp("py-index", [One(d), One(lo)])
                callee = None
            else:
                return d

    def arglist(self):
        self.take("(")
        return self.items(")")[0]

    def items(self, close):
        xs, trailing = [], False
        while not self.peek(close):
            trailing = False
            if self.segsep() == ",":
                xs.append(self.seg_den())
            elif self.peek("*"):
                self.i += 1
                xs.append(One(DApp("py-star", [One(self.or_())])))
            else:
                xs.append(One(self.ternary()))
            if self.i < len(self.t) and self.t[self.i][0] == "optsep":
                if self.t[self.i][1] != [("op", ",")]:
                    raise ParseError("separator")
                self.i += 1
                continue
            if self.peek(","):
                self.i += 1
                trailing = True
            elif not self.peek(close):
                raise ParseError(f"{close!r} or ',' expected at {self.t[self.i:self.i + 2]}")
        self.take(close)
        return xs, trailing


NONE = DLeaf(Val.O(z3.Const("py_none", Oth)))


def closed(it, toks):
    """the text can stand as an operand of any operator, be subscripted and
    unpacked: a primary or a number"""
    p = PyParser(it, toks)
    try:
        if p.peek("-"):
            p.i += 1
            if p.t[p.i][0] != "num":
                return False
            p.i += 1
        else:
            p.primary()
        return p.i == len(toks)
    except ParseError:
        return False
