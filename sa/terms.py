"""Hash-consed value terms: the abstract values of the analysis.

A term is an immutable expression over *atoms* (attributes of rows at the moment
they were read, parameters, class constants).  Constructors keep terms in a
canonical form, so that two expressions that denote the same value are (mostly)
the same object: integers are polynomials over atoms (affine domain; products
occur only with ``steplen``), materialised paths are prefixes of known paths
followed by known steps.
"""
from fractions import Fraction


class T:
    __slots__ = ("op", "args", "_h", "_k")
    _pool = {}

    def __new__(cls, op, *args):
        key = (op, tuple((type(a), a) if isinstance(a, (bool, int, float)) else a for a in args))
        t = cls._pool.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args = op, args
            t._h = hash(key)
            t._k = None
            cls._pool[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __repr__(self):
        return show(self)

    @property
    def key(self):
        if self._k is None:
            self._k = repr_raw(self)
        return self._k


def repr_raw(t):
    if isinstance(t, T):
        return "(" + t.op + " " + " ".join(a.key if isinstance(a, T) else repr_raw(a) for a in t.args) + ")"
    if isinstance(t, tuple):
        return "[" + ",".join(repr_raw(a) for a in t) + "]"
    return repr(t)


TOP = T("top")


def const(v):
    return T("c", v)


NONE, TRUE, FALSE = const(None), const(True), const(False)
EMPTY = const("")


def is_const(t):
    return isinstance(t, T) and t.op == "c"


def cval(t):
    return t.args[0]


def num(n):
    if isinstance(n, Fraction) and n.denominator == 1:
        n = int(n)
    return const(n)


def has_top(t):
    if isinstance(t, T):
        if t.op in ("top", "unk"):
            return True
        return any(has_top(a) for a in t.args)
    if isinstance(t, (tuple, list, frozenset)):
        return any(has_top(a) for a in t)
    w = getattr(t, "where", None)  # QS
    if isinstance(w, T):
        return has_top(w)
    return False


def subterms(t):
    if isinstance(t, T):
        yield t
        for a in t.args:
            yield from subterms(a)
    elif isinstance(t, (tuple, list, frozenset)):
        for a in t:
            yield from subterms(a)
    else:
        w = getattr(t, "where", None)
        if isinstance(w, T):
            yield from subterms(w)


def mentions(t, ops):
    return any(s.op in ops for s in subterms(t))


# ---------------------------------------------------------------- polynomials

def to_poly(t):
    """-> dict monomial(tuple of atoms sorted) -> coef, or None if not numeric-able"""
    if is_const(t):
        v = cval(t)
        if isinstance(v, bool):
            return {(): int(v)} if v else {}
        if isinstance(v, (int, Fraction)):
            return {(): v} if v else {}
        return None
    if t.op == "poly":
        return dict(t.args[0])
    return {(t,): 1}


def from_poly(p):
    p = {m: (int(c) if isinstance(c, Fraction) and c.denominator == 1 else c) for m, c in p.items() if c}
    if not p:
        return const(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(p.items(), key=lambda mc: tuple(a.key for a in mc[0])))
    return T("poly", items)


def add(a, b, sign=1):
    pa, pb = to_poly(a), to_poly(b)
    if pa is None or pb is None:
        return None
    r = dict(pa)
    for m, c in pb.items():
        r[m] = r.get(m, 0) + sign * c
    return from_poly(r)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return sub(const(0), a)


def mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if pa is None or pb is None:
        return None
    r = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.key))
            r[m] = r.get(m, 0) + c1 * c2
    return from_poly(r)


def div_exact(a, b):
    """a / b when b is a non-zero constant dividing or a single atom factor; else None."""
    pa, pb = to_poly(a), to_poly(b)
    if pa is None or pb is None or len(pb) != 1:
        return None
    (mb, cb), = pb.items()
    r = {}
    for m, c in pa.items():
        ml = list(m)
        for at in mb:
            if at not in ml:
                return None
            ml.remove(at)
        q = Fraction(c) / Fraction(cb)
        if q.denominator != 1:
            return None
        r[tuple(ml)] = int(q)
    return from_poly(r)


def subst(t, mapping):
    """Simultaneous substitution of sub-terms, rebuilding canonically."""
    if isinstance(t, T):
        if t in mapping:
            return mapping[t]
        if not t.args or t.op == "c":
            return t
        if t.op == "poly":
            acc = const(0)
            for m, c in t.args[0]:
                mm = num(c)
                for at in m:
                    nx = mul(mm, subst(at, mapping))
                    if nx is None:
                        return TOP
                    mm = nx
                acc = add(acc, mm)
                if acc is None:
                    return TOP
            return acc
        na = tuple(subst(a, mapping) if isinstance(a, (T, tuple)) else a for a in t.args)
        if na == t.args:
            return t
        return rebuild(t.op, na)
    if isinstance(t, tuple):
        return tuple(subst(a, mapping) if isinstance(a, (T, tuple)) else a for a in t)
    return t


def rebuild(op, args):
    if op == "pfx":
        return pfx(*args)
    if op == "sfx":
        return sfx(*args)
    if op == "cat":
        return cat(*args[0])
    if op == "and":
        return pand(*args[0])
    if op == "or":
        return por(*args[0])
    if op == "not":
        return pnot(args[0])
    if op == "lastpos":
        return lastpos(args[0])
    if op == "steps":
        return steps(args[0])
    return T(op, *args)


# ---------------------------------------------------------------- rows

def attr(row, name):
    """Value of a column of a row as it was when `row` was read."""
    return T("attr", row, name)


# hooks set by the orm layer: facts that follow from the query a row came from
ROW_EQ = [lambda row, name: None]
ROW_PREFIX = [lambda row: ()]
TRUST_DEPTH = [True]

# ---------------------------------------------------------------- paths
# unit: the length of one step in characters / items (steplen for MP, 1 for LT)
STEPLEN = T("steplen")
UNIT = [STEPLEN]


def is_path(t):
    if not isinstance(t, T):
        return False
    if t.op in ("pfx", "sfx", "step", "steps_of", "pathop"):
        return True
    if t.op == "attr" and t.args[1] == "path":
        return True
    if t.op == "F" and t.args[0] in ("path",):
        return True
    if t.op == "outer" and t.args[0] == "path":
        return True
    if t.op == "cat":
        return all(is_path(p) for p in t.args[0])
    if t.op == "pathvar":
        return True
    if is_const(t) and cval(t) == "":
        return True
    return False


def steps(p):
    """number of steps of a path"""
    if is_const(p) and cval(p) == "":
        return const(0)
    if p.op == "attr" and p.args[1] == "path":
        if UNIT[0] is STEPLEN and TRUST_DEPTH[0]:
            e = ROW_EQ[0](p.args[0], "depth")
            return e if e is not None else attr(p.args[0], "depth")
        return T("steps", p)
    if p.op == "step":
        return const(1)
    if p.op == "pfx":
        return p.args[1]
    if p.op == "sfx":
        return sub(steps(p.args[0]), p.args[1])
    if p.op == "cat":
        r = const(0)
        for q in p.args[0]:
            r = add(r, steps(q))
        return r
    return T("steps", p)


def plen(p):
    if not TRUST_DEPTH[0] and UNIT[0] is STEPLEN and isinstance(p, T) and p.op == "attr" and p.args[1] == "path":
        return T("len", p)
    return mul(UNIT[0], steps(p))


def _ge(a, b):
    """a >= b decidable from constants?"""
    d = sub(a, b)
    if d is not None and is_const(d):
        return cval(d) >= 0
    return None


def pfx(p, k):
    """first k steps of p"""
    if is_const(k) and isinstance(cval(k), int) and cval(k) <= 0:
        return EMPTY
    if is_const(p) and cval(p) == "":
        return EMPTY
    if steps(p) is k:
        return p
    if p.op == "pfx":
        g = _ge(p.args[1], k)
        if g:
            return pfx(p.args[0], k)
        if g is False:
            return p
    if p.op == "cat":
        acc = const(0)
        out = []
        for q in p.args[0]:
            nxt = add(acc, steps(q))
            d = sub(k, nxt)
            if is_const(d):
                if cval(d) >= 0:
                    out.append(q)
                    acc = nxt
                    if cval(d) == 0:
                        return cat(*out)
                    continue
            # k falls inside q (or unknown)
            d0 = sub(k, acc)
            if is_const(d0) and cval(d0) <= 0:
                return cat(*out)
            if not out:
                # unknown relation for the first piece: if k = steps(first) - c, c>=0
                if is_const(d) and cval(d) < 0:
                    return pfx(q, d0)
            else:
                if is_const(d) and cval(d) < 0:
                    return cat(*out, pfx(q, d0))
            break
    if p.op == "attr":
        for pre in ROW_PREFIX[0](p.args[0]):
            g = _ge(steps(pre), k)
            if g:
                return pfx(pre, k)
    return T("pfx", p, k)


def sfx(p, k):
    """p without its first k steps"""
    if is_const(k) and isinstance(cval(k), int) and cval(k) <= 0:
        return p
    if steps(p) is k:
        return EMPTY
    return T("sfx", p, k)


def step(n):
    """one path step encoding the number n"""
    if isinstance(n, T) and n.op == "lastpos":
        p = n.args[0]
        return sfx(p, sub(steps(p), const(1)))
    return T("step", n)


def lastpos(p):
    if p.op == "step":
        return p.args[0]
    if p.op == "cat":
        return lastpos(p.args[0][-1])
    if p.op == "sfx":
        return lastpos(p.args[0])
    return T("lastpos", p)


def textof(t):
    """the characters of a (possibly safe) string"""
    return t.args[0] if t.op == "safe" else t


def cat(*parts):
    flat = []
    for p in parts:
        if p.op == "cat":
            flat.extend(p.args[0])
        elif is_const(p) and cval(p) == "":
            continue
        else:
            flat.append(p)
    # merge adjacent constants; recognise padded step numbers; pfx+sfx
    out = []
    for p in flat:
        if out and is_const(out[-1]) and is_const(p) and isinstance(cval(p), str) and isinstance(cval(out[-1]), str):
            out[-1] = const(cval(out[-1]) + cval(p))
            continue
        if out and p.op == "int2str":
            q = out[-1]
            if q.op == "rep" and q.args[0] is T("alpha0"):
                want = sub(STEPLEN, T("len", p))
                if q.args[1] is want:
                    out.pop()
                    p = step(p.args[0])
            elif q.op == "rep" and is_const(q.args[0]) and q.args[1] is sub(STEPLEN, T("len", p)):
                out.pop()
                p = T("fmt", p, q.args[0])
        if out and p.op == "sfx":
            q = out[-1]
            base = p.args[0]
            if q is base and False:
                pass
            if q.op == "pfx" and q.args[0] is base and q.args[1] is p.args[1]:
                out[-1] = base
                continue
            if q is pfx(base, p.args[1]):
                out[-1] = base
                continue
            if q.op == "sfx" and False:
                pass
        out.append(p)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    # pfx(p, d-1) + sfx(p, d-1) -> p handled above
    return T("cat", tuple(out))


# ---------------------------------------------------------------- predicates

def pand(*ps):
    s = []
    for p in ps:
        if p.op == "and":
            s.extend(p.args[0])
        elif p is TRUE:
            continue
        elif p is FALSE:
            return FALSE
        else:
            s.append(p)
    s = sorted(set(s), key=lambda x: x.key)
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return T("and", tuple(s))


def por(*ps):
    s = []
    for p in ps:
        if p.op == "or":
            s.extend(p.args[0])
        elif p is FALSE:
            continue
        elif p is TRUE:
            return TRUE
        else:
            s.append(p)
    s = sorted(set(s), key=lambda x: x.key)
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return T("or", tuple(s))


def pnot(p):
    if p.op == "not":
        return p.args[0]
    if p is TRUE:
        return FALSE
    if p is FALSE:
        return TRUE
    return T("not", p)


def conjuncts(p):
    if p is TRUE:
        return ()
    return p.args[0] if p.op == "and" else (p,)


# ---------------------------------------------------------------- display

def show(t):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x) for x in t) + ")"
        return str(t)
    o, a = t.op, t.args
    if o == "c":
        return repr(a[0])
    if o == "poly":
        out = []
        for m, c in a[0]:
            s = "*".join(show(x) for x in m)
            if not m:
                s = str(abs(c))
            elif abs(c) != 1:
                s = f"{abs(c)}*{s}"
            out.append(("-" if c < 0 else "+") + s)
        return "".join(out).lstrip("+")
    if o == "attr":
        return f"{show(a[0])}.{a[1]}"
    if o == "param":
        return str(a[0])
    if o == "cat":
        return "<" + "|".join(show(x) for x in a[0]) + ">"
    if o == "pfx":
        return f"{show(a[0])}[:{show(a[1])} steps]"
    if o == "sfx":
        return f"{show(a[0])}[{show(a[1])} steps:]"
    if o == "step":
        return f"step({show(a[0])})"
    if o in ("and", "or"):
        return "(" + f" {o} ".join(show(x) for x in a[0]) + ")"
    if o == "not":
        return f"not {show(a[0])}"
    if o == "lk":
        return f"{a[0]}__{a[1]}={show(a[2])}"
    if o == "F":
        return f"F({a[0]})"
    if not a:
        return o
    return f"{o}({', '.join(show(x) for x in a)})"
