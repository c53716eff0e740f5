"""Positional notation: NumConv analysed with symbolic numbers, digits and radix.

The domain: integers are polynomials over the input n, the radix R and quotients q(x) = x // R (with x % R kept as
x - R*q(x)); a text is (value read forwards, value read backwards, R**length, leading digit), each a polynomial.
Loops are unrolled over the first digits, and closed by induction: every loop variable is replaced by an unknown at
the head of the loop, the relations that hold on entry are assumed, and one more turn must restore them.
"""
import ast

from .entries import STATS, prog
from .layout import Undecided
from .source import AnalysisBroken

TURNS = 4


class P:
    """polynomial with integer coefficients"""

    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if v}

    @staticmethod
    def of(x):
        return x if isinstance(x, P) else P({(): x})

    @staticmethod
    def atom(*a):
        return P({(a,): 1})

    def __add__(self, o):
        d = dict(self.d)
        for k, v in P.of(o).d.items():
            d[k] = d.get(k, 0) + v
        return P(d)

    def __sub__(self, o):
        return self + P.of(o) * P.of(-1)

    def __mul__(self, o):
        d = {}
        for k, v in self.d.items():
            for k2, v2 in P.of(o).d.items():
                kk = tuple(sorted(k + k2, key=repr))
                d[kk] = d.get(kk, 0) + v * v2
        return P(d)

    def key(self):
        return tuple(sorted(self.d.items(), key=repr))

    def const(self):
        return 0 if not self.d else self.d[()] if list(self.d) == [()] else None

    def subst(self, m):
        """replace atoms by polynomials until nothing changes"""
        cur = self
        for _ in range(20):
            out, ch = P(), False
            for k, v in cur.d.items():
                t = P.of(v)
                for a in k:
                    if a in m:
                        t, ch = t * m[a], True
                    else:
                        t = t * P({(a,): 1})
                out = out + t
            cur = out
            if not ch:
                return cur
        raise Undecided("substitution")

    def atoms(self):
        return {a for k in self.d for a in k}

    def __repr__(self):
        def nm(a):
            return a[0] if len(a) == 1 else f"{a[0]}{a[1]}" if not isinstance(a[1], tuple) else f"({P(dict(a[1]))!r})//R"
        return " + ".join(("" if v == 1 and k else str(v)) + "*".join(nm(a) for a in k) for k, v in sorted(self.d.items(), key=repr)) or "0"


R = P.atom("R")
N = P.atom("n")


class Seq:
    """text or list of characters of the alphabet"""

    def __init__(self, v, rv, w, lead, last, n, lst=False, wide=None):
        self.v, self.rv, self.w, self.lead, self.last, self.n, self.lst, self.wide = v, rv, w, lead, last, n, lst, wide

    def cat(self, o):
        return Seq(self.v * o.w + o.v, o.rv * self.w + self.rv, self.w * o.w, self.lead if self.n != 0 else o.lead, o.last if o.n != 0 else self.last,
                   None if self.n is None or o.n is None else self.n + o.n, self.lst, self.wide or o.wide)

    def rev(self):
        return Seq(self.rv, self.v, self.w, self.last, self.lead, self.n, self.lst, self.wide)

    def ref(self, lst):
        return Seq(self.v, self.rv, self.w, self.lead, self.last, self.n, lst, self.wide)


def digit(p, wide=None):
    """wide: an index that is not known to be below the radix"""
    return Seq(p, p, R, p, p, 1, wide=wide)


def empty(lst=False):
    return Seq(P(), P(), P.of(1), None, None, 0, lst)


class Alphabet:
    pass


class Mapping:
    """character -> index in the alphabet (+ off); a missing one: an exception, or a default"""

    def __init__(self, off=0, partial=False):
        self.off, self.partial = off, partial


class Chars:
    """the characters given to str2int: a list of digits (None: not in the alphabet)"""

    def __init__(self, digits, rev=False):
        self.digits, self.rev = digits, rev


class Char:
    def __init__(self, d):
        self.d = d


class Obj:
    def __init__(self, attrs):
        self.attrs = attrs


class Meth:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class St:
    def __init__(self, env, eqs, facts, steps=0, out=None):
        self.env, self.eqs, self.facts = env, eqs, facts

    def copy(self):
        return St(dict(self.env), dict(self.eqs), list(self.facts))


class Raise(Exception):
    def __init__(self, name):
        self.name = name


HAND = {"KeyError": ("KeyError", "LookupError", "Exception"), "ValueError": ("ValueError", "Exception"), "IndexError": ("IndexError", "LookupError", "Exception"), "TypeError": ("TypeError", "Exception")}


class Num:
    """path enumeration over a method of the class"""

    def __init__(self, ci, attrs=None, invariant=None):
        self.ci, self.attrs, self.depth, self.dup = ci, attrs, 0, False

    def method(self, name):
        m = self.ci.body.get(name)
        node = getattr(m, "node", None)
        if not isinstance(node, ast.FunctionDef):
            _, m = prog().class_member(self.ci, name)
            node = getattr(m, "node", None)
        if not isinstance(node, ast.FunctionDef):
            raise AnalysisBroken(f"{self.ci.name}.{name} not found")
        return node

    # -- paths: yields (kind, value, state)
    def call(self, node, args, st):
        if node.decorator_list:
            raise Undecided("decorated method")
        names = [a.arg for a in node.args.args]
        env = dict(zip(names, args))
        dfl = node.args.defaults
        for a, d in zip(names[len(names) - len(dfl):], dfl):
            if a not in env:
                env[a] = None
        if set(names) - set(env):
            raise Undecided("arguments")
        s = st.copy()
        s.env = env
        self.depth += 1
        if self.depth > TURNS + 2:
            self.depth -= 1
            return
        try:
            for k, v, s2 in self.block(node.body, s):
                s3 = s2.copy()
                s3.env = st.env
                yield ("return", None, s3) if k == "next" else (k, v, s3)
        finally:
            self.depth -= 1

    def block(self, body, st):
        if not body:
            yield "next", None, st
            return
        for k, v, s in self.stmt(body[0], st):
            if k == "next":
                yield from self.block(body[1:], s)
            else:
                yield k, v, s

    def evs(self, e, st):
        """all values of an expression: (value, state), or ('raise', name) values as Raise objects"""
        yield from self.ev(e, st)

    def stmt(self, s, st):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, ast.Pass):
            yield "next", None, st
        elif isinstance(s, ast.Expr):
            for v, s2 in self.ev(s.value, st):
                yield ("raise", v.name, s2) if isinstance(v, Raise) else ("next", None, s2)
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                yield "next", None, st
                return
            for v, s2 in self.ev(s.value, st):
                if isinstance(v, Raise):
                    yield "raise", v.name, s2
                    continue
                s3 = s2.copy()
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    self.bind(t, v, s3)
                yield "next", None, s3
        elif isinstance(s, ast.AugAssign):
            load = ast.copy_location(ast.BinOp(left=self.as_load(s.target), op=s.op, right=s.value), s)
            for v, s2 in self.ev(load, st):
                if isinstance(v, Raise):
                    yield "raise", v.name, s2
                    continue
                s3 = s2.copy()
                self.bind(s.target, v, s3)
                yield "next", None, s3
        elif isinstance(s, ast.Return):
            for v, s2 in (self.ev(s.value, st) if s.value is not None else [(None, st)]):
                yield ("raise", v.name, s2) if isinstance(v, Raise) else ("return", v, s2)
        elif isinstance(s, ast.Raise):
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            if e is None:
                yield "raise", st.env.get("<handled>"), st
            elif isinstance(e, ast.Name):
                yield "raise", e.id, st
            else:
                raise Undecided("raise")
        elif isinstance(s, ast.If):
            for c, s2 in self.test(s.test, st):
                if isinstance(c, Raise):
                    yield "raise", c.name, s2
                else:
                    yield from self.block(s.body if c else s.orelse, s2)
        elif isinstance(s, ast.Assert):
            for c, s2 in self.test(s.test, st):
                if isinstance(c, Raise) or not c:
                    yield "raise", "AssertionError", s2
                else:
                    yield "next", None, s2
        elif isinstance(s, ast.While):
            yield from self.loop(s, st, 0)
        elif isinstance(s, ast.For):
            for it, s2 in self.ev(s.iter, st):
                if isinstance(it, Raise):
                    yield "raise", it.name, s2
                    continue
                yield from self.forloop(s, self.items(it), s2)
        elif isinstance(s, ast.Try):
            if s.finalbody:
                raise Undecided("finally")
            for k, v, s2 in self.block(s.body, st):
                if k == "raise":
                    for h in s.handlers:
                        ts = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
                        if h.type is None or any(isinstance(t, ast.Name) and t.id in HAND.get(v, (v, "Exception")) for t in ts):
                            s3 = s2.copy()
                            s3.env["<handled>"] = v
                            yield from self.block(h.body, s3)
                            break
                    else:
                        yield k, v, s2
                elif k == "next":
                    yield from self.block(s.orelse, s2)
                else:
                    yield k, v, s2
        elif isinstance(s, ast.Break):
            yield "break", None, st
        elif isinstance(s, ast.Continue):
            yield "continue", None, st
        else:
            raise Undecided("statement " + type(s).__name__)

    def as_load(self, t):
        if isinstance(t, ast.Name):
            return ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
        raise Undecided("assignment target")

    def bind(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Tuple) and isinstance(v, tuple) and len(v) == len(t.elts):
            for a, b in zip(t.elts, v):
                self.bind(a, b, st)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and isinstance(st.env.get(t.value.id), Obj):
            st.env[t.value.id].attrs[t.attr] = v
        else:
            raise Undecided("assignment target")

    def loop(self, s, st, turn):
        for c, s2 in self.test(s.test, st):
            if isinstance(c, Raise):
                yield "raise", c.name, s2
            elif not c:
                yield from self.block(s.orelse, s2)
            elif turn < TURNS:
                for k, v, s3 in self.block(s.body, s2):
                    if k in ("next", "continue"):
                        yield from self.loop(s, s3, turn + 1)
                    elif k == "break":
                        yield "next", None, s3
                    else:
                        yield k, v, s3
            # else: more digits than are unrolled; covered by induction

    def forloop(self, s, items, st):
        if not items:
            yield from self.block(s.orelse, st)
            return
        s2 = st.copy()
        self.bind(s.target, items[0], s2)
        for k, v, s3 in self.block(s.body, s2):
            if k in ("next", "continue"):
                yield from self.forloop(s, items[1:], s3)
            elif k == "break":
                yield "next", None, s3
            else:
                yield k, v, s3

    def items(self, it):
        if isinstance(it, Chars):
            ds = [Char(d) for d in it.digits]
            return ds[::-1] if it.rev else ds
        if isinstance(it, tuple):
            return list(it)
        raise Undecided("iteration")

    # -- conditions
    def norm(self, p, st):
        return p.subst(st.eqs)

    def qof(self, p, st):
        """p // R, for a p that is known not to be negative"""
        p = self.norm(p, st)
        c = p.const()
        if c == 0:
            return P()
        # (x*R + y) // R = x + y // R when every term of x*R has the factor R and y is a single digit
        return self.norm(P({((("q", p.key()),)): 1}), st)

    def decide(self, p, st):
        """sign facts: returns '0', '+', None"""
        p = self.norm(p, st)
        c = p.const()
        if c is not None:
            return "0" if c == 0 else "+" if c > 0 else "-"
        for k, q in st.facts:
            if k == "pos" and q.key() == p.key():
                return "+"
        return None

    def zero(self, p, st):
        """branch on p == 0 for a p that is not negative"""
        p = self.norm(p, st)
        d = self.decide(p, st)
        if d is not None:
            yield d == "0", st
            return
        if len(p.d) == 1 and list(p.d.values()) == [1] and len(list(p.d)[0]) == 1:
            a = list(p.d)[0][0]
            s1 = st.copy()
            s1.eqs[a] = P()
            if a == ("n",):
                s1.eqs[("q", N.key())] = P()
            yield True, s1
            s2 = st.copy()
            s2.facts.append(("pos", p))
            yield False, s2
            return
        raise Undecided("test of a number")

    def less(self, a, b, st):
        """branch on a < b"""
        d = self.norm(a - b, st)
        c = d.const()
        if c is not None:
            yield c < 0, st
            return
        if (d - R + P.atom("D")).key() == P().key() or (d + R - P.atom("D")).key() == P().key():  # len(alphabet) against len(set(alphabet))
            yield self.dup and d.d[(("D",),)] == 1, st
            return
        if d.d.get((("R",),)) == 1 or d.d.get((("n",),)) == -1 and not self.is_nonneg(P() - d, st):
            for v, s in self.less(b, a + 1, st):
                yield not v, s
            return
        xr = self.norm(d + R, st)
        if ("R",) not in xr.atoms() or all("R" not in a for a in xr.atoms()):
            off = xr.d.get((), 0)
            if off == 0 and self.is_nonneg(xr, st):  # x < R
                q = ("q", xr.key())
                s1 = st.copy()
                s1.eqs[q] = P()
                s2 = st.copy()
                s2.facts.append(("pos", P({(q,): 1})))
                s2.facts.append(("pos", xr))
                dq = self.decide(P({(q,): 1}), st)
                if dq != "+":
                    yield True, s1
                if dq != "0":
                    yield False, s2
                return
            if off and self.is_nonneg(xr - off, st):  # x + c < R: compares with another number than the radix
                s1, s2 = st.copy(), st.copy()
                s1.facts.append(("other", xr))
                s2.facts.append(("other", xr))
                yield True, s1
                yield False, s2
                return
        if d.key() == self.norm(N, st).key() or d.key() == N.key():  # n < 0
            s1 = st.copy()
            s1.facts.append(("neg", d))
            if not any(f[0] == "nonneg" for f in st.facts):
                yield True, s1
            s2 = st.copy()
            s2.facts.append(("nonneg", d))
            yield False, s2
            return
        if (d - N).const() is not None and (d - N).const() > 0:  # n < -c
            s1 = st.copy()
            s1.facts.append(("neg", d))
            if not any(f[0] == "nonneg" for f in st.facts):
                yield True, s1
            yield False, st
            return
        if len(d.d) == 1 and list(d.d.values()) == [-1] or (P.of(0) - d).key() in [f[1].key() for f in st.facts if f[0] == "pos"]:  # 0 < x
            for z, s2 in self.zero(P() - d, st):
                yield not z, s2
            return
        if d.d.get((), 0) == -1 and len(d.d) == 2 and list((d + 1).d.values()) == [1]:  # x < 1
            if (d + 1).key() == N.key() and not any(f[0] == "nonneg" for f in st.facts):
                s0 = st.copy()
                s0.facts.append(("neg", N))
                yield True, s0
                st = st.copy()
                st.facts.append(("nonneg", N))
            yield from self.zero(d + 1, st)
            return
        if self.is_nonneg(d, st):
            yield False, st
            return
        raise Undecided("comparison")

    def below(self, p, st):
        """p < R is known: p is x % R, or its quotient is 0"""
        if p.const() is not None:
            return p.const() == 0
        if self.norm(P({(("q", p.key()),): 1}), st).const() == 0:
            return True
        return any(v == -1 and len(m) == 2 and ("R",) in m and any(a[0] == "q" and self.norm(P(dict(a[1])) - p - P({m: 1}), st).const() == 0 for a in m)
                   for m, v in p.d.items())

    def is_nonneg(self, p, st):
        p = self.norm(p, st)
        return len(p.d) <= 1 and all(v > 0 for v in p.d.values()) or p.const() is not None and p.const() >= 0

    def test(self, e, st):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            for c, s in self.test(e.operand, st):
                yield (c, s) if isinstance(c, Raise) else (not c, s)
            return
        if isinstance(e, ast.BoolOp):
            yield from self.boolop(e.values, isinstance(e.op, ast.And), st)
            return
        if isinstance(e, ast.Compare):
            if len(e.ops) > 1:
                mids = [ast.copy_location(ast.Compare(left=a, ops=[o], comparators=[b]), e) for a, o, b in zip([e.left] + e.comparators, e.ops, e.comparators)]
                yield from self.boolop(mids, True, st)
                return
            for (a, b), s in self.ev_all([e.left, e.comparators[0]], st):
                if isinstance(a, Raise):
                    yield a, s
                    continue
                yield from self.compare(e.ops[0], a, b, s)
            return
        for v, s in self.ev(e, st):
            if isinstance(v, (Raise, bool)):
                yield v, s
            elif isinstance(v, P):
                for z, s2 in self.zero(v, s):
                    yield not z, s2
            elif isinstance(v, Seq):
                if v.n is None:
                    raise Undecided("test of a text")
                yield v.n > 0, s
            elif isinstance(v, Chars):
                yield bool(v.digits), s
            elif v is None:
                yield False, s
            elif isinstance(v, str):
                yield bool(v), s
            elif v == "DUP":
                yield v, s
            else:
                raise Undecided("condition")

    def boolop(self, vals, conj, st):
        if not vals:
            yield conj, st
            return
        for c, s in self.test(vals[0], st):
            if isinstance(c, Raise):
                yield c, s
            elif c != conj:
                yield c, s
            else:
                yield from self.boolop(vals[1:], conj, s)

    def compare(self, op, a, b, st):
        if isinstance(a, P) and isinstance(b, P):
            if isinstance(op, ast.Lt):
                yield from self.less(a, b, st)
            elif isinstance(op, ast.GtE):
                for c, s in self.less(a, b, st):
                    yield not c, s
            elif isinstance(op, ast.Gt):
                yield from self.less(b, a, st)
            elif isinstance(op, ast.LtE):
                for c, s in self.less(b, a, st):
                    yield not c, s
            elif isinstance(op, (ast.Eq, ast.NotEq)):
                eq = isinstance(op, ast.Eq)
                k = {self.norm(a - b, st).key(), self.norm(b - a, st).key()}
                if (R - P.atom("D")).key() in k:  # len(alphabet) against len(set(alphabet))
                    yield (not self.dup) == eq, st
                    return
                d = self.norm(a - b, st)
                if self.is_nonneg(d, st):
                    for z, s in self.zero(d, st):
                        yield z == eq, s
                    return
                if self.is_nonneg(P() - d, st):
                    for z, s in self.zero(P() - d, st):
                        yield z == eq, s
                    return
                raise Undecided("comparison")
            else:
                raise Undecided("comparison")
            return
        if isinstance(op, (ast.Is, ast.IsNot)) and (a is None or b is None):
            yield ((a is None and b is None) == isinstance(op, ast.Is)), st
            return
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(a, Char) and isinstance(b, (Alphabet, Mapping)):
            yield ((a.d is not None) == isinstance(op, ast.In)), st
            return
        if isinstance(a, str) and isinstance(b, Seq) or isinstance(b, str) and isinstance(a, Seq):
            s, q = (a, b) if isinstance(a, str) else (b, a)
            if s == "" and q.n is not None and isinstance(op, (ast.Eq, ast.NotEq)):
                yield ((q.n == 0) == isinstance(op, ast.Eq)), st
                return
        raise Undecided("comparison")

    # -- expressions
    def ev_all(self, es, st):
        if not es:
            yield (), st
            return
        for v, s in self.ev(es[0], st):
            if isinstance(v, Raise):
                yield (v, None), s
                continue
            for vs, s2 in self.ev_all(es[1:], s):
                if vs and isinstance(vs[0], Raise):
                    yield (vs[0], None), s2
                else:
                    yield (v,) + vs, s2

    def ev(self, e, st):
        if isinstance(e, ast.Constant):
            v = e.value
            yield (P.of(v) if isinstance(v, int) and not isinstance(v, bool) else v), st
        elif isinstance(e, ast.Name):
            if e.id in st.env:
                yield st.env[e.id], st
            else:
                yield ("global", e.id), st
        elif isinstance(e, ast.JoinedStr):
            yield "text", st
        elif isinstance(e, ast.NamedExpr):
            for v, s in self.ev(e.value, st):
                s = s.copy()
                if not isinstance(v, Raise):
                    s.env[e.target.id] = v
                yield v, s
        elif isinstance(e, ast.Attribute):
            for v, s in self.ev(e.value, st):
                if isinstance(v, Raise):
                    yield v, s
                elif isinstance(v, Obj):
                    if e.attr in v.attrs:
                        yield v.attrs[e.attr], s
                    elif e.attr in self.ci.body:
                        yield Meth(v, e.attr), s
                    else:
                        raise Undecided("attribute")
                else:
                    yield Meth(v, e.attr), s
        elif isinstance(e, (ast.Tuple, ast.List)):
            for vs, s in self.ev_all(e.elts, st):
                if vs and isinstance(vs[0], Raise):
                    yield vs[0], s
                elif isinstance(e, ast.List):
                    r = empty(True)
                    for v in vs:
                        if not isinstance(v, Seq):
                            raise Undecided("list")
                        r = r.cat(v)
                    yield r, s
                else:
                    yield tuple(vs), s
        elif isinstance(e, ast.BinOp):
            for vs, s in self.ev_all([e.left, e.right], st):
                yield (vs[0] if isinstance(vs[0], Raise) else self.binop(e.op, vs[0], vs[1], s)), s
        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            for v, s in self.ev(e.operand, st):
                yield (P() - v if isinstance(v, P) else v), s
        elif isinstance(e, ast.IfExp):
            for c, s in self.test(e.test, st):
                if isinstance(c, Raise):
                    yield c, s
                else:
                    yield from self.ev(e.body if c else e.orelse, s)
        elif isinstance(e, ast.BoolOp):
            yield from self.valop(e.values, isinstance(e.op, ast.And), st)
        elif isinstance(e, (ast.Compare, ast.UnaryOp)):
            yield from self.test(e, st)
        elif isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                for v, s in self.ev(e.value, st):
                    sl = e.slice
                    if sl.lower is None and sl.upper is None and isinstance(sl.step, ast.UnaryOp) and ast.dump(sl.step).count("Constant(value=1)") == 1:
                        yield self.reverse(v), s
                    elif sl.lower is None and sl.upper is None and sl.step is None:
                        yield v, s
                    else:
                        raise Undecided("slice")
                return
            for vs, s in self.ev_all([e.value, e.slice], st):
                yield (vs[0] if isinstance(vs[0], Raise) else self.index(vs[0], vs[1], s)), s
        elif isinstance(e, ast.Call):
            yield from self.evcall(e, st)
        elif isinstance(e, ast.DictComp):
            yield self.mapping(e, st), st
        else:
            raise Undecided("expression " + type(e).__name__)

    def valop(self, vals, conj, st):
        if len(vals) == 1:
            yield from self.ev(vals[0], st)
            return
        for v, s in self.ev(vals[0], st):
            if isinstance(v, Raise):
                yield v, s
                continue
            s2 = s.copy()
            s2.env["<v>"] = v
            for c, s3 in self.test(ast.Name(id="<v>", ctx=ast.Load()), s2):
                if c == conj:
                    yield from self.valop(vals[1:], conj, s3)
                else:
                    yield v, s3

    def reverse(self, v):
        if isinstance(v, Seq):
            return v.rev()
        if isinstance(v, Chars):
            return Chars(v.digits, not v.rev)
        if isinstance(v, tuple):
            return v[::-1]
        raise Undecided("reversed")

    def index(self, c, i, st):
        if isinstance(c, Alphabet) and isinstance(i, P):
            i = self.norm(i, st)
            return digit(i, None if self.below(i, st) else i)
        if isinstance(c, Mapping) and isinstance(i, Char):
            return i.d + c.off if i.d is not None else Raise("KeyError")
        if isinstance(c, tuple) and isinstance(i, P) and i.const() is not None and 0 <= i.const() < len(c):
            return c[i.const()]
        raise Undecided("subscript")

    def binop(self, op, a, b, st):
        if isinstance(a, str) and a == "":
            a = empty() if isinstance(b, Seq) else a
        if isinstance(b, str) and b == "":
            b = empty() if isinstance(a, Seq) else b
        if isinstance(a, Seq) and isinstance(b, Seq) and isinstance(op, ast.Add) and a.lst == b.lst:
            return a.cat(b)
        if isinstance(a, str) and isinstance(b, str):
            return "text"
        if isinstance(a, str):
            return "text"
        if a is None and isinstance(b, P) or b is None and isinstance(a, P):
            return Raise("TypeError")
        if not (isinstance(a, P) and isinstance(b, P)):
            raise Undecided("operator")
        a, b = self.norm(a, st), self.norm(b, st)
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, ast.Pow) and b.const() is not None and 0 <= b.const() <= 8:
            r = P.of(1)
            for _ in range(b.const()):
                r = r * a
            return r
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and b.key() == R.key():
            q = self.qof(a, st)
            return q if isinstance(op, ast.FloorDiv) else a - R * q
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and (b - R).const() is not None:
            return P({((type(op).__name__, a.key(), b.key()),): 1})
        raise Undecided("arithmetic")

    def mapping(self, e, st):
        """{char: i for i, char in enumerate(alphabet)}"""
        g = e.generators
        if len(g) == 1 and not g[0].ifs and isinstance(g[0].target, ast.Tuple) and len(g[0].target.elts) == 2 and isinstance(g[0].iter, ast.Call):
            its = list(self.ev(g[0].iter, st))
            if len(its) == 1 and isinstance(its[0][0], tuple) and its[0][0][:1] == ("pairs",):
                x, y = (t.id if isinstance(t, ast.Name) else None for t in g[0].target.elts)
                ch, ix = (y, x) if its[0][0][1] == "ic" else (x, y)
                if isinstance(e.key, ast.Name) and e.key.id == ch and isinstance(e.value, ast.Name) and e.value.id == ix:
                    return Mapping(*its[0][0][2:])
        raise Undecided("mapping")

    def evcall(self, e, st):
        f = e.func
        if e.keywords and not all(k.arg in ("start", "strict", "key") for k in e.keywords):
            raise Undecided("keywords")
        if isinstance(f, ast.Name) and f.id not in st.env and f.id == "super":
            yield ("super",), st
            return
        for fn, s in self.ev(f, st):
            if isinstance(fn, Raise):
                yield fn, s
                continue
            for vs, s2 in self.ev_all(e.args, s):
                if vs and isinstance(vs[0], Raise):
                    yield vs[0], s2
                elif isinstance(fn, Meth) and isinstance(fn.obj, Obj):
                    node = self.method(fn.name)
                    for k, v, s3 in self.call(node, [fn.obj] + list(vs), s2):
                        yield (v if k == "return" else Raise(v)), s3
                elif isinstance(fn, tuple) and fn[0] == "global" and isinstance(getattr(self.ci.module.names.get(fn[1]), "node", None), ast.FunctionDef):
                    for k, v, s3 in self.call(self.ci.module.names[fn[1]].node, list(vs), s2):
                        yield (v if k == "return" else Raise(v)), s3
                else:
                    for v in self.builtin(fn, vs, e, s2):
                        yield v

    def builtin(self, fn, a, e, st):
        if isinstance(fn, Meth):
            o, n = fn.obj, fn.name
            if isinstance(o, Mapping) and n == "get" and isinstance(a[0], Char):
                yield (a[0].d + o.off if a[0].d is not None else a[1] if len(a) > 1 else None), st
            elif isinstance(o, Alphabet) and n in ("index", "find") and len(a) == 1 and isinstance(a[0], Char):
                yield (a[0].d if a[0].d is not None else Raise("ValueError") if n == "index" else P.of(-1)), st
            elif o == "" and n == "join" and len(a) == 1 and isinstance(a[0], Seq):
                yield a[0].ref(False), st
            elif isinstance(o, Seq) and o.lst and n in ("append", "insert") and isinstance(e.func.value, ast.Name):
                s = st.copy()
                if n == "append":
                    s.env[e.func.value.id] = o.cat(a[0].ref(True))
                elif isinstance(a[0], P) and a[0].const() == 0:
                    s.env[e.func.value.id] = a[1].ref(True).cat(o)
                else:
                    raise Undecided("insert")
                yield None, s
            elif isinstance(o, Seq) and o.lst and n == "reverse" and isinstance(e.func.value, ast.Name):
                s = st.copy()
                s.env[e.func.value.id] = o.rev()
                yield None, s
            else:
                raise Undecided("method " + str(n))
            return
        n = fn[1] if isinstance(fn, tuple) and fn[0] == "global" else None
        if n == "len" and isinstance(a[0], Alphabet):
            yield R, st
        elif n == "len" and a[0] == "SET":
            yield P.atom("D"), st
        elif n == "len" and isinstance(a[0], Mapping):
            yield (P.atom("D") if self.dup else R), st
        elif n == "len" and isinstance(a[0], Seq) and a[0].n is not None:
            yield P.of(a[0].n), st
        elif n == "len" and isinstance(a[0], Chars):
            yield P.of(len(a[0].digits)), st
        elif n in ("set", "frozenset") and isinstance(a[0], Alphabet):
            yield "SET", st
        elif n == "range" and len(a) == 1 and a[0].key() == R.key():
            yield "RANGE", st
        elif n == "range" and len(a) == 1 and (a[0] - R).const() is not None:
            yield ("RANGE", (a[0] - R).const()), st
        elif n == "range" and len(a) == 1 and a[0].const() is not None:
            yield tuple(P.of(i) for i in range(a[0].const())), st
        elif n == "zip" and len(a) == 2 and isinstance(a[0], Alphabet) and (a[1] == "RANGE" or isinstance(a[1], tuple) and a[1] and a[1][0] == "RANGE"):
            yield ("pairs", "ci", 0, a[1] != "RANGE" and a[1][1] < 0), st
        elif n == "enumerate" and isinstance(a[0], Alphabet) and all(k.arg == "start" and isinstance(k.value, ast.Constant) for k in e.keywords):
            yield ("pairs", "ic", a[1].const() if len(a) > 1 else e.keywords[0].value.value if e.keywords else 0, False), st
        elif n == "enumerate" and isinstance(a[0], Chars) and len(a) == 1 and not e.keywords:
            yield tuple((P.of(i), c) for i, c in enumerate(self.items(a[0]))), st
        elif n == "dict" and len(a) == 1 and isinstance(a[0], tuple) and a[0][:2] == ("pairs", "ci"):
            yield Mapping(*a[0][2:]), st
        elif n == "divmod":
            q = self.binop(ast.FloorDiv(), a[0], a[1], st)
            yield (q, self.binop(ast.Mod(), a[0], a[1], st)), st
        elif n in ("reversed",):
            yield self.reverse(a[0]), st
        elif n in ("list", "tuple") and isinstance(a[0], Seq):
            yield a[0].ref(True), st
        elif n in ("list", "tuple") and isinstance(a[0], (Chars, Alphabet)):
            yield a[0], st
        elif n in ("str", "int") and isinstance(a[0], (Seq, P, Chars)):
            if n == "str" and isinstance(a[0], P):
                raise Undecided("str of a number")
            yield a[0], st
        elif n == "list" and not a:
            yield empty(True), st
        else:
            raise Undecided("call of " + str(n))


def induction(ci, attrs, node):
    """the loop of int2str for any number of digits: n == x * R**len(s) + value(s) at its head is kept by every turn"""
    loops = [s for s in node.body if isinstance(s, ast.While)]
    if len(loops) != 1:
        return False
    w = loops[0]
    i = node.body.index(w)
    A = Num(ci, attrs)
    num = node.args.args[1].arg
    ok = True
    for k, _, st in A.block(node.body[:i], St({node.args.args[0].arg: Obj(attrs), num: N}, {}, [("nonneg", N)])):
        if k != "next":
            continue
        seqs = [x for x, v in st.env.items() if isinstance(v, Seq) or v == ""]
        if len(seqs) != 1 or self_value(st.env[seqs[0]]).n != 0:
            return False
        s = seqs[0]
        if A.norm(st.env[num], st).key() != N.key():
            return False
        lst = getattr(st.env[s], "lst", False)
        for back in (False, True):
            # head of the loop: x and s unknown, n = x * w + v
            x, wgt, val, oth = P.atom("x"), P.atom("w"), P.atom("v"), P.atom("o")
            h = st.copy()
            h.env[num] = x
            h.env[s] = Seq(val if not back else oth, oth if not back else val, wgt, P.atom("lead"), P.atom("last"), None, lst)
            good, h.facts = True, []
            try:
                for c, s2 in A.test(w.test, h):
                    if not c:
                        good &= exits(A, node.body[i + 1:], s2, wgt, val)
                        continue
                    for k2, v2, s3 in A.block(w.body, s2):
                        if k2 in ("next", "continue"):
                            y, t = s3.env[num], s3.env[s]
                            tv = t.v if not back else t.rv
                            good &= A.norm(y * t.w + tv - (x * wgt + val), s3).const() == 0
                        elif k2 == "break":
                            good &= exits(A, node.body[i + 1:], s3, wgt, val)
                        elif k2 == "return":
                            good &= isinstance(v2, Seq) and A.norm(v2.v - (x * wgt + val), s3).const() == 0
                        else:
                            good = False
            except Undecided:
                good = False
            if good:
                break
        ok &= good
    return ok


def reading(ci, attrs, node):
    """the loop of str2int for any number of characters: one turn takes the value v to v*R + d"""
    loops = [s for s in node.body if isinstance(s, ast.For)]
    last = node.body[-1]
    if len(loops) != 1 or not isinstance(last, ast.Return) or not isinstance(last.value, ast.Name) or loops[0].orelse or node.body[-2] is not loops[0]:
        return False
    A, f, acc = Num(ci, attrs), loops[0], last.value.id
    if not isinstance(f.iter, ast.Name) or f.iter.id != node.args.args[1].arg:
        return False
    try:
        for k, _, st in A.block(node.body[:node.body.index(f)], St({node.args.args[0].arg: Obj(attrs), node.args.args[1].arg: Chars([])}, {}, [])):
            if k != "next" or not isinstance(st.env.get(acc), P) or st.env[acc].const() != 0:
                return False
            for d in (P.atom("d"), None):
                h = st.copy()
                h.env[acc] = P.atom("v")
                A.bind(f.target, Char(d), h)
                for k2, v2, s2 in A.block(f.body, h):
                    if d is None and (k2, v2) != ("raise", "ValueError"):
                        return False
                    if d is not None and (k2 not in ("next", "continue") or (s2.env[acc] - P.atom("v") * R - d).const() != 0):
                        return False
        return True
    except Undecided:
        return False


def self_value(v):
    return empty() if isinstance(v, str) else v


def exits(A, rest, st, wgt, val):
    return all(k == "return" and isinstance(v, Seq) and A.norm(v.v - (P.atom("x") * wgt + val), s).const() == 0 for k, v, s in A.block(rest, st))


def rule_numconv():
    ci = prog().find_class("NumConv")
    if ci is None:
        raise AnalysisBroken("class NumConv not found")
    rel = ci.module.rel
    devs, n, seen = [], 0, []

    def dev(meth, key, what, path=()):
        if not any(d["key"] == f"{meth}|{key}" for d in devs):
            devs.append({"key": f"{meth}|{key}", "what": what, "construct": f"{rel}:{A.method(meth).lineno} (NumConv.{meth})", "path": list(path)})
    # the object
    attrs = None
    for dup in (True, False):
        A = Num(ci)
        A.dup = dup
        init = A.method("__init__")
        for k, v, st in A.call(init, [Obj({}), Alphabet()][:1] + [Alphabet()], St({}, {}, [])):
            n += 1
            if dup and (k, v) != ("raise", "ValueError"):
                dev("__init__", "duplicates", "an alphabet with duplicate characters is accepted" if k == "return" else f"raises {v} for an alphabet with duplicate characters")
            if not dup and k == "raise":
                dev("__init__", "raise", f"raises {v} for an alphabet without duplicates")
        if not dup:
            o = Obj({})
            for k, v, st in A.call(init, [o, Alphabet()], St({}, {}, [])):
                attrs = o.attrs
    if any(isinstance(v, Mapping) and v.partial for v in (attrs or {}).values()):
        dev("__init__", "values", "the last characters of the alphabet are given no value")
    if devs:
        return devs, n, seen
    STATS["functions"].update(f"{ci.module.name}.{ci.name}.{m}" for m in ("__init__", "int2str", "str2int"))
    # numbers to text
    A = Num(ci, attrs)
    node = A.method("int2str")
    count = 0
    for k, v, st in A.call(node, [Obj(attrs), N], St({}, {}, [])):
        n += 1
        count += 1
        neg = any(f[0] == "neg" for f in st.facts)
        cond = [f"{f[0]} {f[1]!r}" for f in st.facts] + [f"{P({(a,): 1})!r} = {p!r}" for a, p in st.eqs.items()]
        if neg:
            if (k, v) != ("raise", "ValueError"):
                dev("int2str", "negative", "a negative number is converted instead of being refused with ValueError", cond)
            continue
        if k == "raise":
            dev("int2str", "raise", f"raises {v} for a number that is not negative", cond)
            continue
        if isinstance(v, str) and v == "":
            v = empty()
        if not isinstance(v, Seq):
            raise Undecided("result of int2str")
        if not any(f[0] == "nonneg" for f in st.facts) and A.norm(N, st).const() is None:
            dev("int2str", "negative", "a negative number is converted instead of being refused with ValueError", cond)
            continue
        if v.n == 0:
            dev("int2str", "empty", "a number is converted to the empty text", cond)
            continue
        diff = A.norm(v.v - N, st)
        if diff.const() != 0:
            dev("int2str", "value", f"the text of {v.n} digits has the value {A.norm(v.v, st)!r}, not n", cond)
        elif v.wide is not None:
            dev("int2str", "digit", f"the character number {v.wide!r} of the alphabet is asked for, which may be beyond its end", cond)
        elif v.n and v.n > 1 and A.decide(v.lead, st) != "+":
            if A.decide(v.lead, st) is None and not any(f[0] == "other" for f in st.facts):
                raise Undecided("leading digit")
            dev("int2str", "leading", f"a text of {v.n} digits may begin with the digit zero: it is longer than needed", cond)
    if not count:
        raise AnalysisBroken("no path through int2str")
    refused = any(k == "raise" for k, v, st in A.call(node, [Obj(attrs), N], St({}, {}, [])))
    if not refused:
        dev("int2str", "negative", "a negative number is not refused with ValueError")
    ind = not devs and induction(ci, attrs, node)
    seen.append(f"int2str: {count} paths of up to {TURNS} digits, " + ("and any number of digits by induction (n = x*R^len(s) + value(s) at the head of the loop)" if ind else "longer numbers not proved"))
    # text to numbers
    node = A.method("str2int")
    for m in range(1, TURNS + 1):
        for bad in [None] + list(range(m)):
            ds = [None if i == bad else P.atom("d", i) for i in range(m)]
            for k, v, st in A.call(node, [Obj(attrs), Chars(ds)], St({}, {}, [])):
                n += 1
                if bad is not None:
                    if (k, v) != ("raise", "ValueError"):
                        dev("str2int", "unknown", f"character {bad + 1} of {m} is not in the alphabet and the text is " + ("converted" if k == "return" else f"refused with {v}") + ", must be refused with ValueError")
                    continue
                if k == "raise":
                    dev("str2int", "raise", f"raises {v} for a text of {m} digits")
                    continue
                if not isinstance(v, P):
                    raise Undecided("result of str2int")
                want = P()
                for d in ds:
                    want = want * R + d
                if (A.norm(v, st) - want).const() != 0:
                    dev("str2int", "value", f"the value of {m} digits is {A.norm(v, st)!r}, must be {want!r}")
    seen.append(f"str2int: texts of 1 to {TURNS} characters, with and without an unknown one, " + ("and of any length by induction (v becomes v*R + d in every turn)" if not devs and reading(ci, attrs, node) else "longer texts not proved"))
    return devs, n, seen


def constant_text(e, mod):
    """a text written in the source (with the constants of the string module)"""
    import string
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = constant_text(e.left, mod), constant_text(e.right, mod)
        return None if a is None or b is None else a + b
    n = e.attr if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "string" else e.id if isinstance(e, ast.Name) else None
    if n in ("digits", "ascii_uppercase", "ascii_lowercase", "ascii_letters"):
        return getattr(string, n)
    for s in mod.tree.body if n else ():
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in s.targets):
            return constant_text(s.value, mod)
    return None


def rule_alphabet():
    """the default alphabet ascends; converters are built with the alphabet of the model"""
    devs, n, seen = [], 0, []
    p = prog()
    for mod in p.modules.values():
        for cd in ast.walk(mod.tree):
            if isinstance(cd, ast.ClassDef):
                for s in cd.body:
                    tg = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) and s.value is not None else []
                    if any(isinstance(t, ast.Name) and t.id == "alphabet" for t in tg):
                        v = constant_text(s.value, mod)
                        if v is None:
                            raise Undecided("alphabet of " + cd.name)
                        n += 1
                        seen.append(f"{mod.rel}:{s.lineno} {cd.name}.alphabet")
                        if any(a >= b for a, b in zip(v, v[1:])) or len(v) < 2:
                            devs.append({"key": f"{cd.name}|alphabet", "what": "the characters of the default alphabet do not ascend: paths do not sort like the numbers of their steps", "construct": f"{mod.rel}:{s.lineno} ({cd.name}.alphabet)"})
            elif isinstance(cd, ast.Call) and isinstance(cd.func, (ast.Name, ast.Attribute)) and (cd.func.id if isinstance(cd.func, ast.Name) else cd.func.attr) == "NumConv":
                a = cd.args[0] if cd.args else next((k.value for k in cd.keywords if k.arg == "alphabet"), None)
                n += 1
                seen.append(f"{mod.rel}:{cd.lineno} NumConv(...)")
                if a is None or isinstance(a, ast.Constant) or isinstance(a, ast.Name) and constant_text(a, mod) is not None:
                    devs.append({"key": "NumConv|alphabet", "what": "the numbers of steps are converted with a fixed alphabet, not with the alphabet of the model", "construct": f"{mod.rel}:{cd.lineno}"})
    return devs, n, seen
