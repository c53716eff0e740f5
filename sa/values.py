"""Abstract values other than terms."""
from dataclasses import dataclass, field, replace
from .terms import *


class Cut(Exception):
    """path abandoned (bound reached or infeasible)"""


class PyRaise(Exception):
    def __init__(self, exc, args=(), loc=None):
        self.exc, self.eargs, self.loc = exc, args, loc  # exc: Cls | Ext


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ModelV:
    """an abstract user model class (T: declares the tree fields, M: the manager's model, K: class of a node)"""

    def __init__(self, name, base, cfg):
        self.name, self.base, self.cfg = name, base, cfg
        self.concrete = self

    def __repr__(self):
        return f"<model {self.name}>"


def is_child_model(m):
    return isinstance(m, ModelV) and m.concrete is not getattr(m, "treebase", m.concrete)


@dataclass(frozen=True)
class QS:
    model: object
    qcls: object  # ClassInfo or None
    where: T = TRUE
    order: object = None  # tuple of (field or term) strings
    rev: bool = False
    lock: bool = False
    lockargs: tuple = ()
    values: object = None
    annots: tuple = ()
    cut: tuple = ()
    using: object = NONE
    distinct: bool = False
    flat: bool = False
    only: object = None

    def __repr__(self):
        s = f"{self.model.name}[{show(self.where)}]"
        if self.rev:
            s += ".rev"
        if self.cut:
            s += f"[{show(self.cut)}]"
        return s

    def key_(self):
        return T("qs", self)

    def core(self):
        """identity for emptiness: ignore order/lock/projection"""
        return replace(self, order=None, rev=False, lock=False, lockargs=(), values=None, flat=False, only=None, qcls=None, annots=self.annots,
                       using=NONE if self.using.op in ("dbwrite", "rowdb", "defaultdb") else self.using)


class Row:
    """a model instance held by Python code"""

    def __init__(self, rowid, model, adding=False, label=None):
        self.rowid, self.model, self.adding = rowid, model, adding
        self.attrs = {}
        self.label = label
        self.maybe = set()
        self.dropped = set()
        self.touched = []
        self.version = 0

    def __repr__(self):
        return f"<row {show(self.rowid)}>"

    def pk(self):
        return row_pk(self.rowid)


def row_pk(rowid):
    e = ROW_EQ[0](rowid, "pk")
    return e if e is not None else T("attr", rowid, "pk")


class Many:
    """zero or more list entries, one per iteration of `src`, in order (rev: reversed)"""

    def __init__(self, value, src, rev=False, order=None, loops=()):
        self.value, self.src, self.rev, self.order, self.loops = value, src, rev, order, loops

    def __repr__(self):
        return f"*{self.value!r}"


class Lst:
    shared = None  # name of the module or class variable that holds it

    def __init__(self, items=(), kind="list", depth=0, site=None):
        self.items, self.kind, self.depth, self.site = list(items), kind, depth, site
        self.ordered = None
        self.src = None

    def copy(self):
        l = Lst(self.items, self.kind, self.depth, self.site)
        l.ordered = self.ordered
        return l

    def many(self):
        return any(isinstance(i, Many) for i in self.items)

    def __repr__(self):
        return f"{self.kind}{self.items!r}"


class Dct:
    shared = None

    def __init__(self, kind="dict", depth=0, site=None, default=None):
        self.kind, self.depth, self.site, self.default = kind, depth, site, default
        self.entries = []  # [key, value, loops(src) or None]
        self.opaque = False

    def __repr__(self):
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v, _ in self.entries) + "}"


class Inst:
    def __init__(self, ci, attrs=None):
        self.ci = ci
        self.attrs = attrs or {}

    def __repr__(self):
        return f"<inst {self.ci.name}>"


class Frame:
    __slots__ = ("vars", "parent", "module", "nonlocals", "fn", "first")

    def __init__(self, parent, module, fn=None):
        self.vars, self.parent, self.module, self.fn = {}, parent, module, fn
        self.nonlocals = {}
        self.first = None


class Fn:
    def __init__(self, info, frame, defaults=None, owner=None):
        self.info, self.frame, self.defaults, self.owner = info, frame, defaults, owner

    def __repr__(self):
        return repr(self.info)


class Bound:
    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn

    def __repr__(self):
        return f"<bound {self.fn!r}>"


class Builtin:
    """a method of a modelled object: callable(interp, args, kwargs)"""

    def __init__(self, name, f, self_=None):
        self.name, self.f, self.self_ = name, f, self_

    def __repr__(self):
        return f"<builtin {self.name}>"


class Partial:
    def __init__(self, fn, args, kwargs, method=False):
        self.fn, self.args, self.kwargs, self.method = fn, args, kwargs, method


class Ext:
    def __init__(self, dotted):
        self.dotted = dotted
        self.last = dotted.split(".")[-1]

    def __repr__(self):
        return f"<ext {self.dotted}>"

    def __eq__(self, o):
        return isinstance(o, Ext) and o.last == self.last

    def __hash__(self):
        return hash(self.last)


class Cls:
    def __init__(self, ci, frame=None):
        self.ci, self.frame = ci, frame

    def __repr__(self):
        return f"<cls {self.ci.name}>"

    def __eq__(self, o):
        return isinstance(o, Cls) and o.ci is self.ci

    def __hash__(self):
        return hash(id(self.ci))


class ModV:
    def __init__(self, m):
        self.m = m


class AttrDict:
    """the __dict__ of an object"""

    def __init__(self, obj):
        self.obj = obj


class SuperV:
    def __init__(self, owner, obj):
        self.owner, self.obj = owner, obj


class MetaV:
    def __init__(self, model):
        self.model = model


class StateV:
    def __init__(self, row):
        self.row = row


class Sig:
    def __init__(self, fn):
        self.fn = fn


class SliceV:
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class Eff:
    def __init__(self, kind, loc, conds, loops, atomic, stack, **d):
        self.kind, self.loc, self.nconds, self.loops, self.atomic, self.stack = kind, loc, conds, loops, atomic, stack
        self.d = d
        self.idx = -1

    def __getattr__(self, n):
        try:
            return self.__dict__["d"][n]
        except KeyError:
            raise AttributeError(n)

    def get(self, n, default=None):
        return self.d.get(n, default)

    def __repr__(self):
        return f"{self.kind}@{self.loc[0]}:{self.loc[1]} " + " ".join(f"{k}={v!r}" for k, v in self.d.items())

    @property
    def where(self):
        return f"{self.loc[0]}:{self.loc[1]} ({self.loc[2]})"


class Trace:
    def __init__(self):
        self.effects = []
        self.conds = []
        self.outcome = None  # ('return', v) | ('raise', exc, args, loc) | ('cut', why)
        self.entry = None
        self.params = {}
        self.unsupported = []
        self.returned_at = None

    def holds(self, atom):
        for a, b in self.conds:
            if a is atom:
                return b
        return None

    def describe(self):
        c = ", ".join(("" if b else "not ") + show(a) for a, b in self.conds)
        return f"{self.entry}: [{c}] -> {self.outcome}"


# facts that follow from the query a row was read with ------------------------

def _row_eq(rowid, name):
    if rowid.op in ("row", "elem"):
        q = rowid.args[1] if rowid.op == "row" else rowid.args[0]
        if isinstance(q, QS):
            for p in conjuncts(q.where):
                if p.op == "lk" and p.args[1] == "exact" and p.args[0] == name:
                    v = p.args[2]
                    if isinstance(v, T):
                        return v
    return None


def _interval(v):
    if isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, T) for x in v):
        lo, hi = v
        if lo.op == "cat" and hi.op == "cat" and lo.args[0][:-1] == hi.args[0][:-1]:
            a, b = lo.args[0][-1], hi.args[0][-1]
            if a.op == "rep" and b.op == "rep" and a.args[1] is STEPLEN and b.args[1] is STEPLEN:
                if a.args[0].op == "alpha0" and b.args[0].op == "alphaZ":
                    return cat(*lo.args[0][:-1])
        if lo.op == "rep" and hi.op == "rep":
            return EMPTY
    return None


def _row_prefix(rowid):
    out = []
    if rowid.op in ("row", "elem"):
        q = rowid.args[1] if rowid.op == "row" else rowid.args[0]
        if isinstance(q, QS):
            for p in conjuncts(q.where):
                if p.op == "lk" and p.args[0] == "path":
                    if p.args[1] in ("startswith", "descendants"):
                        out.append(p.args[2])
                    elif p.args[1] == "range":
                        b = _interval(p.args[2])
                        if b is not None:
                            out.append(b)
                    elif p.args[1] == "exact":
                        out.append(p.args[2])
    return [o for o in out if isinstance(o, T)]


ROW_EQ[0] = _row_eq
ROW_PREFIX[0] = _row_prefix
