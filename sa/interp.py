"""Path-sensitive interprocedural abstract interpreter over the Python syntax tree.

Each call of `run` follows one abstract path; the driver (`explore`) enumerates
the paths depth first by replaying the list of branch decisions.  Loops over
collections are abstracted to a generic iteration (plus its successor), helper
functions are inlined, unknown constructs evaluate to TOP.  Nothing of the
analysed repository is imported or executed.
"""
import ast
import builtins
import re
import string
import sys

from .terms import *
from .source import *
from .values import *
from .orm import OrmMixin
from .builtins_ import BuiltinsMixin
from .framework import FrameworkMixin

sys.setrecursionlimit(20000)

MAX_STEPS = 60000
UNDEF = object()
MODULE_NAMES = {"__name__", "__file__", "__doc__", "__package__", "__spec__", "__loader__", "__builtins__", "__debug__", "__class__", "__path__", "__dict__"}


class Config:
    def __init__(self, **kw):
        self.sorted = None  # node_order_by truthiness: True/False/None(unknown)
        self.mysql = False
        self.fork_counts = False
        self.cached_parent = False
        self.unit = STEPLEN
        self.trust_depth = True
        self.trust_cols = True
        self.proxy = False
        self.plain = False
        self.max_paths = 3000
        self.may_fail = ()  # names of ext calls that may raise, as (name, ExtName)
        self.get_may_fail = False
        self.opaque = ()  # qualnames not inlined
        self.rec_limit = 4
        self.while_limit = 3
        self.__dict__.update(kw)


CALLED = set()  # functions walked through, for the evidence


class Interp(OrmMixin, BuiltinsMixin, FrameworkMixin):
    def __init__(self, prog, cfg):
        self.prog, self.cfg = prog, cfg
        self.default_mgr, self.base_errors = None, []
        self.plain_mgr = self.other_mgr = None

    # ------------------------------------------------------------ driver
    def explore(self, name, setup):
        """setup(interp) -> (callable value, args, kwargs, params) for each path"""
        UNIT[0] = self.cfg.unit
        TRUST_DEPTH[0] = self.cfg.trust_depth
        traces = []
        decisions = []
        n = 0
        self.truncated = False
        while True:
            self.decisions, self.dpos = decisions, 0
            tr = self.run(name, setup)
            n += 1
            if tr.outcome[0] != "cut":
                traces.append(tr)
            decisions = self.decisions[: self.dpos]
            while decisions and decisions[-1][0] + 1 >= decisions[-1][1]:
                decisions.pop()
            if not decisions:
                break
            decisions[-1] = (decisions[-1][0] + 1, decisions[-1][1])
            if n >= self.cfg.max_paths:
                self.truncated = True
                break
        self.npaths = n
        return traces

    def choose(self, n, kind="any", *data):
        if self.dpos < len(self.decisions):
            d = self.decisions[self.dpos][0]
        else:
            d = self.decider(n, kind, data) if self.decider is not None else 0
            self.decisions.append((0, n))
        self.dpos += 1
        self.declog.append((d, kind, data, len(self.effects)))
        return d

    decider = None

    def run(self, name, setup):
        self.effects, self.conds, self.known_ = [], [], {}
        self.condinfo = []
        self.declog = []
        self.qcache = {}
        self.bounds = {}
        self.bases = {}
        self.same = {}
        self.loops, self.atomic, self.stack, self.handlers = [], 0, [], []
        self.epoch = 0
        self.ctr = 0
        self.steps = 0
        self.tattrs = {}
        self.unsupported = []
        self.siteseq = {}
        self.loc = ("?", 0, "?")
        self.curexc = []
        self.clscache = {}
        self.modcache = {}
        self.yields = []
        self.rowcache = {}
        self.entry_params = {}
        tr = Trace()
        tr.entry = name
        try:
            fn, args, kwargs, params = setup(self)
            tr.params = params
            tr.entry_model = getattr(self, "entry_model", None)
            self.entry_params = params
            self.last_return = None
            v = self.call(fn, args, kwargs)
            tr.outcome = ("return", v)
            if self.last_return:
                tr.returned_at = "%s:%s (%s)" % self.last_return
        except PyRaise as e:
            tr.outcome = ("raise", e.exc, e.eargs, e.loc)
        except Cut as c:
            tr.outcome = ("cut", str(c))
        tr.effects, tr.conds, tr.unsupported = self.effects, self.conds, self.unsupported
        for i, e in enumerate(tr.effects):
            e.idx = i
        tr.bounds = self.bounds
        tr.declog = self.declog
        tr.condinfo = self.condinfo
        return tr

    def fresh(self):
        self.ctr += 1
        return self.ctr

    def eff(self, kind, **d):
        e = Eff(kind, self.loc, len(self.conds), tuple(self.loops), self.atomic, tuple(self.stack), **d)
        self.effects.append(e)
        return e

    def unsup(self, what):
        self.unsupported.append((what, self.loc))
        return TOP

    def raise_(self, exc, args=()):
        if isinstance(exc, str):
            exc = Ext("builtins." + exc)
        raise PyRaise(exc, args, self.loc)

    # ------------------------------------------------------------ conditions
    def branch(self, a):
        if isinstance(a, bool):
            return a
        if is_const(a):
            return bool(cval(a))
        if a.op == "not":
            return not self.branch(a.args[0])
        if a.op == "and" or a.op == "or":
            for x in a.args[0]:
                r = self.branch(x)
                if a.op == "and" and not r:
                    return False
                if a.op == "or" and r:
                    return True
            return a.op == "and"
        k = self.known(a)
        if k is not None:
            return k
        d = self.choose(2, "branch", a) == 0
        self.assume(a, d)
        return d

    def known(self, a):
        if a in self.known_:
            return self.known_[a]
        if a.op == "vendor" and not self.cfg.fork_counts:
            return False
        if a.op in ("pos", "eq0"):
            P, c = self.split(a.args[0])
            if P is None:
                return None
            if not self.cfg.fork_counts and P.op == "rowcount":
                return (a.op == "pos") == (True)
            lo, hi, ne = self.getb(P)
            if a.op == "pos":  # P + c > 0
                if lo is not None and lo + c > 0:
                    return True
                if hi is not None and hi + c <= 0:
                    return False
            else:
                v = -c
                if lo is not None and hi is not None and lo == hi == v:
                    return True
                if (lo is not None and v < lo) or (hi is not None and v > hi) or v in ne:
                    return False
        if a.op == "isnull":
            t = a.args[0]
            if t.op in ("pkval",):
                return False
        return None

    def split(self, t):
        """poly -> (non-constant part, const)"""
        p = to_poly(t)
        if p is None:
            return None, None
        c = p.pop((), 0)
        return from_poly(p), c

    LB = {"depth": 1, "lft": 1, "numchild": 0, "tree_id": 1, "sib_order": 1, "rgt": 2}

    def getb(self, P):
        b = self.bounds.get(P)
        if b is None:
            lo = hi = None
            np = self.bounds.get(neg(P))
            if np is not None:
                return (-np[1] if np[1] is not None else None, -np[0] if np[0] is not None else None, {-x for x in np[2]})
            if P.op == "attr":
                lo = self.LB.get(P.args[1]) if self.cfg.trust_cols else None
            elif P.op in ("steps", "count", "len", "idx", "rowcount"):
                lo = 0
            elif P.op == "steplen":
                lo = 1
            elif P.op == "poly" and self.cfg.trust_cols:
                # rgt(x) - lft(x) >= 1
                its = P.args[0]
                if len(its) == 2 and all(len(m) == 1 for m, _ in its):
                    d = {m[0]: c for m, c in its}
                    for x, c in d.items():
                        if c == 1 and x.op == "attr" and x.args[1] == "rgt":
                            if d.get(attr(x.args[0], "lft")) == -1:
                                lo = 1
                        if c == -1 and x.op == "attr" and x.args[1] == "rgt":
                            if d.get(attr(x.args[0], "lft")) == 1:
                                hi = -1
            return (lo, hi, set())
        return b

    def addcond(self, a, v):
        self.conds.append((a, v))
        self.condinfo.append((self.loc, tuple(self.loops)))

    def assume(self, a, v):
        self.known_[a] = v
        self.addcond(a, v)
        if a.op in ("pos", "eq0"):
            P, c = self.split(a.args[0])
            if P is None:
                return
            if P.op == "c":
                return
            lo, hi, ne = self.getb(P)
            ne = set(ne)
            if a.op == "pos":
                if v:
                    n = 1 - c
                    lo = n if lo is None else max(lo, n)
                else:
                    n = -c
                    hi = n if hi is None else min(hi, n)
            else:
                if v:
                    lo = hi = -c
                else:
                    ne.add(-c)
            while lo is not None and lo in ne:
                lo += 1
            while hi is not None and hi in ne:
                hi -= 1
            if lo is not None and hi is not None and lo > hi:
                raise Cut("infeasible")
            self.bounds[P] = (lo, hi, ne)
            self.bounds.pop(neg(P), None)
        if a.op == "same" and v:
            pass

    # numeric comparison atoms -------------------------------------------
    def norm_poly(self, p):
        q = div_exact(p, STEPLEN)
        return q if q is not None and not is_const(p) else p

    def a_pos(self, p):
        """p > 0"""
        if p is None or has_top(p):
            return T("unk", p if p is not None else TOP, self.fresh())
        p = self.norm_poly(p)
        if is_const(p):
            return const(cval(p) > 0)
        P, c = self.split(p)
        # canonical sign: leading coefficient positive
        lead = self.lead(P)
        if lead < 0:
            # p>0  <=> not (-p >= 0) <=> not(1-p > 0) ; -p+1
            return pnot(T("pos", add(neg(p), const(1))))
        return T("pos", p)

    def lead(self, P):
        if P.op == "poly":
            return P.args[0][0][1]
        return 1

    def a_eq0(self, p):
        if p is None or has_top(p):
            return T("unk", p if p is not None else TOP, self.fresh())
        p = self.norm_poly(p)
        if is_const(p):
            return const(cval(p) == 0)
        P, c = self.split(p)
        if self.lead(P) < 0:
            p = neg(p)
            P, c = self.split(p)
        lo, hi, ne = self.getb0(P)
        if lo is not None and -c == lo:
            return pnot(self.a_pos(p))
        if lo is not None and -c < lo:
            return FALSE
        if hi is not None and -c == hi:
            # P == hi  <=> P > hi-1
            return self.a_pos(add(P, const(1 - hi)))
        return T("eq0", p)

    def getb0(self, P):
        sv = self.bounds
        self.bounds = {}
        try:
            return self.getb(P)
        finally:
            self.bounds = sv

    def numeric(self, t):
        if not isinstance(t, T):
            return False
        if is_const(t):
            return isinstance(cval(t), (int, Fraction)) and not isinstance(cval(t), bool)
        if t.op in ("poly", "count", "steps", "lastpos", "len", "steplen", "floordiv", "mod", "str2int", "rowcount", "intof", "truediv", "idx", "rangevar", "max", "min", "acc", "prevnum"):
            return True
        if t.op == "attr":
            return t.args[1] in ("depth", "numchild", "lft", "rgt", "tree_id", "sib_order")
        if t.op == "phi":
            return t.args[-1] == "n"
        if t.op == "param":
            return len(t.args) > 1 and t.args[1] == "int"
        if t.op in ("F", "item") and isinstance(t.args[-1], str):
            return t.args[-1] in ("depth", "numchild", "lft", "rgt", "tree_id", "sib_order")
        return False

    def eq(self, a, b):
        """abstract == ; returns TRUE/FALSE or an atom"""
        if a is b:
            return TRUE
        if isinstance(a, Row) and isinstance(b, Row):
            r = self.a_same(a.pk(), b.pk())
            if r is not FALSE and is_child_model(a.model) != is_child_model(b.model):
                return pand(T("no_mti"), r)  # instances of different concrete models are never equal
            return r
        if isinstance(a, Row) or isinstance(b, Row):
            r, o = (a, b) if isinstance(a, Row) else (b, a)
            if o is NONE:
                return FALSE
            if isinstance(o, T) and not is_const(o):
                return T("unk", o, self.fresh())
            return FALSE
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return FALSE
            return pand(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, Lst) and isinstance(b, Lst):
            if a.many() or b.many():
                return T("unk", TOP, self.fresh())
            if len(a.items) != len(b.items):
                return FALSE
            return pand(*[self.eq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, T) and isinstance(b, T):
            if is_const(a) and is_const(b):
                return const(cval(a) == cval(b))
            if a.op in ("top", "unk") or b.op in ("top", "unk"):
                return T("unk", TOP, self.fresh())
            if a is NONE or b is NONE:
                return self.is_none(b if a is NONE else a)
            if "clsname" in (a.op, b.op):
                # the models of a project are not named like the classes of the library
                return const(a == b)
            if a.op == "attr" and b.op == "attr" and a.args[1] == "pk" and b.args[1] == "pk":
                return self.a_same(a, b)
            if self.numeric(a) or self.numeric(b):
                for x, y in ((a, b), (b, a)):
                    if is_const(x) and not isinstance(cval(x), (int, Fraction)):
                        return FALSE
                return self.a_eq0(sub(a, b))
            if is_path(a) and is_path(b):
                return self.path_eq(a, b)
            x, y = sorted((a, b), key=lambda t: t.key)
            return T("eq", x, y)
        if isinstance(a, (ModelV, Cls, Ext)) and isinstance(b, (ModelV, Cls, Ext)):
            return const(a == b)
        if a is NONE or b is NONE:
            o = b if a is NONE else a
            if not isinstance(o, T):
                return FALSE
        if isinstance(a, T) and not is_const(a) or isinstance(b, T) and not is_const(b):
            t = a if isinstance(a, T) else b
            o = b if isinstance(a, T) else a
            if isinstance(o, (ModelV,)):
                return T("eqv", t, T("v", o))
            return T("unk", TOP, self.fresh())
        return FALSE

    def path_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if is_const(x) and cval(x) == "":
                return self.a_eq0(steps(y))
        # same parent prefix, compare last step
        if a.op == "cat" and b.op == "cat" and len(a.args[0]) == len(b.args[0]) == 2:
            if a.args[0][0] is b.args[0][0] and a.args[0][1].op == "step" and b.args[0][1].op == "step":
                return self.eq(a.args[0][1].args[0], b.args[0][1].args[0])
        x, y = sorted((a, b), key=lambda t: t.key)
        return T("eq", x, y)

    def a_same(self, p, q):
        if p is q:
            return TRUE
        x, y = sorted((p, q), key=lambda t: t.key)
        return T("same", x, y)

    def is_none(self, v):
        if v is NONE:
            return TRUE
        if isinstance(v, T):
            if is_const(v):
                return FALSE
            if v.op in ("top", "unk"):
                return T("unk", v, self.fresh())
            if v.op == "attr":
                if v.args[1] in ("parent_id",) or v.args[1] not in (
                    "path", "depth", "lft", "rgt", "tree_id", "numchild", "pk", "sib_order"):
                    return T("isnull", v)
                return FALSE
            if v.op in ("poly", "cat", "pfx", "sfx", "step", "steps", "count", "len", "str", "lst", "rel"):
                return FALSE
            return T("isnull", v)
        return FALSE

    def lt(self, a, b):
        """abstract a < b"""
        if isinstance(a, T) and isinstance(b, T):
            if is_const(a) and is_const(b):
                try:
                    return const(cval(a) < cval(b))
                except TypeError:
                    return T("unk", TOP, self.fresh())
            if a.op in ("top", "unk") or b.op in ("top", "unk"):
                return T("unk", TOP, self.fresh())
            if self.numeric(a) or self.numeric(b):
                return self.a_pos(sub(b, a))
            if a.op == "truediv" or b.op == "truediv":
                return T("slt", a, b)
            if a is b:
                return FALSE
            if is_path(a) and is_path(b) and a.op == "cat" and b.op == "cat":
                if a.args[0][:-1] == b.args[0][:-1] and a.args[0][-1].op == "step" and b.args[0][-1].op == "step":
                    return self.lt(a.args[0][-1].args[0], b.args[0][-1].args[0])
            return T("slt", a, b)
        return T("unk", TOP, self.fresh())

    def truth_atom(self, v):
        """TRUE/FALSE or atom for bool(v)"""
        if isinstance(v, bool):
            return const(v)
        if isinstance(v, T):
            if is_const(v):
                return const(bool(cval(v)))
            if v.op in ATOMS:
                return v
            if v.op in ("top",):
                return T("unk", v, self.fresh())
            if v.op in ("nob", "dbwrite", "dbread", "rowdb", "defaultdb", "alias"):
                return TRUE
            if is_path(v):
                return self.a_pos(steps(v))
            if v.op == "cat":
                if any(is_const(x) and isinstance(cval(x), str) and cval(x) for x in v.args[0]):
                    return TRUE
                return T("truth", v)
            if self.numeric(v):
                return pnot(self.a_eq0(v))
            if v.op == "attr" and v.args[1] in ("parent_id", "pk"):
                return pnot(self.is_none(v))
            if v.op in ("step", "alphabet", "inst", "lst"):
                return TRUE
            return T("truth", v)
        if isinstance(v, QS):
            return self.nonempty(v)
        if isinstance(v, Lst):
            if any(not isinstance(i, Many) for i in v.items):
                return TRUE
            if not v.items:
                return FALSE if not v.src else T("truth", v.src)
            if any(i.order == "filled" for i in v.items):
                return TRUE
            return T("nonempty", T("lst", v.site, id(v) if v.site is None else 0))
        if isinstance(v, Dct):
            if v.opaque:
                return T("unk", TOP, self.fresh())
            return const(bool(v.entries))
        if isinstance(v, tuple):
            return const(bool(v))
        return TRUE

    def truth(self, v):
        return self.branch(self.truth_atom(v))

    # ------------------------------------------------------------ names
    def frame_lookup(self, fr, name):
        f = fr
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            f = f.parent
        return UNDEF

    def mod_lookup(self, module, name):
        key = (module.name, name)
        if key in self.modcache:
            return self.modcache[key]
        r = self.prog.lookup(module, name)
        v = UNDEF
        if r is None:
            v = UNDEF
        elif isinstance(r, FuncInfo):
            v = self.make_fn(r, Frame(None, r.module))
        elif isinstance(r, ClassInfo):
            v = Cls(r)
        elif isinstance(r, Module):
            v = ModV(r)
        elif r[0] == "ext":
            v = Ext(r[1])
        elif r[0] == "expr":
            self.modcache[key] = T("global", r[2].name, name)
            fr = Frame(None, r[2])
            sv = self.loc
            v = self.ev(r[1], fr)
            self.loc = sv
            if isinstance(v, T) and v.op == "top":
                v = T("global", r[2].name, name)
            if isinstance(v, (Dct, Lst)):
                v.shared = f"{r[2].name}.{name}"
        self.modcache[key] = v
        return v

    def lookup(self, fr, name):
        v = self.frame_lookup(fr, name)
        if v is not UNDEF:
            return v
        f = fr
        while f is not None:
            if f.fn is not None and name not in f.nonlocals and name in self.local_names(f.fn.info.node):
                self.raise_("UnboundLocalError")
            f = f.parent
        v = self.mod_lookup(fr.module, name)
        if v is not UNDEF:
            return v
        if not hasattr(builtins, name) and name not in MODULE_NAMES:
            self.raise_("NameError")
        return Ext("builtins." + name)

    _locals = {}

    def local_names(self, node):
        """the names a function binds by a statement"""
        if node not in self._locals:
            out, other = set(), set()
            todo = list(node.body) if isinstance(node.body, list) else [node.body]
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    other |= set(n.names)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    out.add(n.name)
                    todo.extend(n.decorator_list)
                    continue
                elif isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    out |= {x.target.id for x in ast.walk(n) if isinstance(x, ast.NamedExpr)} if not isinstance(n, ast.Lambda) else set()
                    continue
                elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    out.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    out |= {(a.asname or a.name).split(".")[0] for a in n.names}
                elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    out.add(n.name)
                elif isinstance(n, ast.MatchMapping) and n.rest:
                    out.add(n.rest)
                todo.extend(ast.iter_child_nodes(n))
            self._locals[node] = out - other
        return self._locals[node]

    def make_fn(self, info, frame, defaults=None):
        """apply decorators"""
        f = Fn(info, frame, owner=info.cls)
        node = info.node
        decs = getattr(node, "decorator_list", [])
        v = f
        for d in reversed(decs):
            v = self.decorate(v, d, frame, info)
        return v

    def decorate(self, v, d, frame, info):
        nm = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
        if nm in ("classmethod", "staticmethod", "property", "cached_property"):
            return (nm, v)
        c = d.func if isinstance(d, ast.Call) else d
        if (c.id if isinstance(c, ast.Name) else c.attr if isinstance(c, ast.Attribute) else None) in ("cache", "lru_cache"):
            return Partial(Builtin("memo_call", self.b_memo_call), (v,), {}, method=True)
        if nm in ("setter", "deleter", "getter"):
            return v
        sv = self.loc
        dec = self.ev(d, frame)
        self.loc = sv
        if isinstance(dec, Ext):
            l = dec.last
            if l in ("classmethod", "staticmethod", "property", "cached_property"):
                return (l, v)
            if l == "atomic":
                return Partial(Builtin("atomic_call", self.b_atomic_call), (v,), {}, method=True)
            if l in ("cache", "lru_cache", "wraps", "override", "abstractmethod", "final", "simple_tag", "no_type_check", "singledispatch"):
                return v
            return self.call(dec, [v], {})
        if isinstance(dec, tuple) and dec and dec[0] == "atomic_dec":
            return Partial(Builtin("atomic_call", self.b_atomic_call), (v,), {"__using": dec[1]}, method=True)
        if isinstance(dec, T):
            return v  # register.simple_tag and similar registrations
        r = self.call(dec, [v], {})
        if isinstance(r, T):
            return v
        return r

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs, node=None):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Cut("step bound")
        args = list(args)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + args, kwargs)
        if isinstance(f, Builtin):
            return f.f(args, kwargs)
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.fn, list(f.args) + args, kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, ModelV):
            return self.new_row(f, args, kwargs)
        if isinstance(f, Ext):
            return self.call_ext(f, args, kwargs)
        if isinstance(f, T):
            if f.op == "top":
                self.eff("unknown", fn=f, args=tuple(args), kwargs=kwargs)
                return self.unsup("call of unknown value")
            if f.op == "cls_of" or f.op == "modelterm":
                return self.unsup("instantiate")
            if is_const(f):
                self.raise_("TypeError")
            return self.call_sym(f, args, kwargs)
        if isinstance(f, Inst):
            o, m = self.prog.class_member(f.ci, "__call__")
            if m is not None:
                return self.call(Bound(f, self.make_fn(m, self.cls_frame(f.ci))), args, kwargs)
            return self.call_sym(T("inst", f.ci.name), args, kwargs)
        if isinstance(f, tuple) and len(f) == 2 and f[0] in ("classmethod", "staticmethod"):
            return self.call(f[1], args, kwargs)
        if isinstance(f, tuple) and f and f[0] == "atomic_dec":
            return Partial(Builtin("atomic_call", self.b_atomic_call), (args[0],), {"__using": f[1]}, method=True)
        return self.unsup(f"call {type(f).__name__}")

    def call_sym(self, f, args, kwargs):
        a = tuple(self.as_term(x) for x in args)
        k = tuple((n, self.as_term(x)) for n, x in sorted(kwargs.items()))
        self.eff("call", fn=f, args=list(args), kwargs=dict(kwargs))
        for nm, exc in self.cfg.may_fail:
            if f.op == "ga" and f.args[1] == nm and self.choose(2, "fail", nm) == 1:
                self.raise_(Ext(exc))
        return T("call", f, a, k)

    def as_term(self, v):
        if isinstance(v, T):
            return v
        if isinstance(v, Row):
            return T("rowv", v.rowid)
        if isinstance(v, QS):
            return T("qs", v)
        if isinstance(v, tuple):
            return T("tup", tuple(self.as_term(x) for x in v))
        if isinstance(v, Lst) and not v.many():
            return T("lst", tuple(self.as_term(x) for x in v.items))
        if isinstance(v, (ModelV, Cls, Ext)):
            return T("v", v)
        if isinstance(v, Dct) and not v.opaque:
            return T("dct", tuple((self.as_term(k), self.as_term(x)) for k, x, _ in v.entries))
        return T("obj", type(v).__name__, id(v))

    def b_memo_call(self, args, kwargs):
        """a function behind functools.cache: what it returned is returned again for equal arguments"""
        f, rest = args[0], list(args[1:])
        n, m = len(self.effects), len(self.conds)
        r = self.call(f, rest, dict(kwargs))
        if isinstance(f, Fn):
            self.loc = (f.info.module.rel, f.info.node.lineno, f.info.qual)
        self.eff("memo", where_kept="the cache of the function", key=tuple(rest) + tuple(kwargs.values()), value=r, queries=[e.kind for e in self.effects[n:]], under=self.conds[m:])
        return r

    def b_atomic_call(self, args, kwargs):
        using = kwargs.pop("__using", NONE)
        f, rest = args[0], args[1:]
        self.atomic += 1
        self.eff("atomic", what="enter", using=using)
        try:
            r = self.call(f, rest, kwargs)
        except PyRaise:
            self.eff("atomic", what="rollback")
            self.atomic -= 1
            raise
        except (Cut,):
            raise
        self.eff("atomic", what="exit")
        self.atomic -= 1
        return r

    def bind(self, f, args, kwargs):
        a = f.info.node.args
        loc = {}
        kwargs = dict(kwargs)
        opaque_kw = kwargs.pop("**", None)
        opaque_args = None
        if args and isinstance(args[-1], tuple) and args[-1] and args[-1][0] == "*opaque":
            opaque_args = args.pop()[1]
        pos = [x.arg for x in a.posonlyargs + a.args]
        defs = f.defaults[0] if f.defaults else None
        if defs is None:
            fr = f.frame
            defs = [self.ev(d, fr) for d in a.defaults] if a.defaults else []
        kwd = f.defaults[1] if f.defaults else None
        if kwd is None:
            kwd = {x.arg: self.ev(d, f.frame) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        if not f.defaults:
            for d in list(defs) + list(kwd.values()):
                if isinstance(d, (Lst, Dct)):
                    d.shared = f"default value of an argument of {f.info.qual}"
        for i, nme in enumerate(pos):
            if i < len(args):
                loc[nme] = args[i]
        extra = args[len(pos):]
        for nme in pos + [x.arg for x in a.kwonlyargs]:
            if nme in kwargs:
                if nme in loc:
                    self.raise_("TypeError")
                loc[nme] = kwargs.pop(nme)
        if a.vararg:
            loc[a.vararg.arg] = tuple(extra) if opaque_args is None else opaque_args
        elif extra:
            self.raise_("TypeError")
        if a.kwarg:
            d = Dct(depth=len(self.loops))
            for k, v in kwargs.items():
                d.entries.append([const(k) if isinstance(k, str) else k, v, None])
            if opaque_kw is not None:
                d.opaque = True
                d.src = opaque_kw
            loc[a.kwarg.arg] = d
        elif kwargs:
            self.raise_("TypeError")
        nd = len(pos) - len(defs)
        for i, nme in enumerate(pos):
            if nme not in loc:
                if i >= nd:
                    loc[nme] = defs[i - nd]
                elif opaque_kw is not None or opaque_args is not None:
                    loc[nme] = TOP
                else:
                    self.raise_("TypeError")
        for x in a.kwonlyargs:
            if x.arg not in loc:
                if x.arg in kwd:
                    loc[x.arg] = kwd[x.arg]
                elif opaque_kw is not None:
                    loc[x.arg] = TOP
                else:
                    self.raise_("TypeError")
        return loc

    def call_fn(self, f, args, kwargs):
        info = f.info
        qual = f"{info.module.name}.{info.qual}"
        prim = self.primitive(info, args, kwargs)
        if prim is not UNDEF:
            return prim
        depth = sum(1 for q in self.stack if q == qual)
        lim = 1 if any(True for _ in self.loops) and self.cfg.rec_limit > 2 else self.cfg.rec_limit
        if depth > lim or qual in self.cfg.opaque:
            self.eff("recurse", fn=qual, args=args, kwargs=kwargs)
            if qual in self.cfg.opaque:
                return T("call", T("fn", qual), tuple(self.as_term(a) for a in args), ())
            return TOP
        svloc = self.loc
        loc = self.bind(f, args, kwargs)
        fr = Frame(f.frame, info.module, f)
        fr.vars.update(loc)
        if args:
            fr.first = args[0]
        self.stack.append(qual)
        CALLED.add(qual)
        try:
            if isinstance(info.node, ast.Lambda):
                r = self.ev(info.node.body, fr)
            else:
                isgen = self.is_gen(info.node)
                if isgen:
                    self.yields.append(Lst(depth=len(self.loops), site=self.site(info.node)))
                try:
                    try:
                        self.block(info.node.body, fr)
                        r = NONE
                    except ReturnX as x:
                        r = x.v
                finally:
                    if isgen:
                        y = self.yields.pop()
                if isgen:
                    y.kind = "gen"
                    r = y
            if len(self.stack) >= 1:
                pass
            return r
        finally:
            self.stack.pop()
            self.loc = svloc

    _gen = {}

    def is_gen(self, node):
        k = id(node)
        if k not in self._gen:
            res = False
            st = list(node.body)
            while st:
                n = st.pop()
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                    continue
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    res = True
                    break
                st.extend(ast.iter_child_nodes(n))
            self._gen[k] = (res, node)
        return self._gen[k][0]

    def primitive(self, info, args, kwargs):
        """functions modelled rather than inlined"""
        if info.cls is not None and info.cls.name == "NumConv":
            if info.name == "int2str":
                a = args[1] if len(args) > 1 else kwargs.get("num", TOP)
                return T("int2str", a) if isinstance(a, T) else TOP
            if info.name == "str2int":
                a = args[1] if len(args) > 1 else kwargs.get("chars", TOP)
                return self.str2int(a)
            if info.name == "__init__":
                return NONE
        if info.name == "generate_label" and info.cls is None:
            names = ["skip", "before", "after"]
            v = dict(zip(names, args))
            v.update(kwargs)
            self.eff("genlabel", **{n: v.get(n, NONE) for n in names})
            if self.choose(2, "label", self.as_term(v.get("before", NONE)), self.as_term(v.get("after", NONE))) == 1:
                for m in self.prog.modules.values():
                    c = m.names.get("InvalidLabelConstraints")
                    if isinstance(c, ClassInfo):
                        raise PyRaise(Cls(c), (), self.loc)
                raise PyRaise(Ext("InvalidLabelConstraints"), (), self.loc)
            t = T("label", self.as_term(v.get("before", NONE)), self.as_term(v.get("after", NONE)), self.fresh())
            return t
        return UNDEF

    def str2int(self, a):
        if isinstance(a, T):
            if a.op == "step":
                return a.args[0]
            if is_path(a):
                d = steps(a)
                if is_const(d) and cval(d) == 1:
                    if a.op == "sfx" and a.args[1] is sub(steps(a.args[0]), const(1)):
                        return lastpos(a.args[0])
                    return lastpos(a)
            if a.op == "int2str":
                return a.args[0]
            return T("str2int", a)
        return TOP

    # ------------------------------------------------------------ statements
    def setloc(self, node, fr):
        q = self.stack[-1].split(".", 1)[-1] if self.stack else "?"
        self.loc = (fr.module.rel, getattr(node, "lineno", 0), q)

    def site(self, node):
        return T("site", getattr(node, "lineno", 0), getattr(node, "col_offset", 0), len(self.stack))

    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Cut("step bound")
        self.setloc(s, fr)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unsup("statement " + type(s).__name__)
            self.eff("unknown", fn=TOP, args=(), kwargs={})
            return
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            tgt = a.name if a.asname else a.name.split(".")[0]
            m = self.prog.modules.get(tgt)
            fr.vars[nm] = ModV(m) if m else Ext(tgt)

    def s_ImportFrom(self, s, fr):
        base = s.module or ""
        if s.level:
            parts = fr.module.name.split(".")
            if not fr.module.is_pkg:
                parts = parts[:-1]
            if s.level > 1:
                parts = parts[: -(s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            m = self.prog.modules.get(base)
            if f"{base}.{a.name}" in self.prog.modules:
                v = ModV(self.prog.modules[f"{base}.{a.name}"])
            elif m:
                v = self.mod_lookup(m, a.name)
                if v is UNDEF:
                    v = Ext(f"{base}.{a.name}")
            else:
                v = Ext(f"{base}.{a.name}")
            fr.vars[a.asname or a.name] = v

    def s_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else NONE
        self.setloc(s, fr)
        self.setloc(s, fr)
        self.last_return = self.loc
        raise ReturnX(v)

    def s_If(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        self.block(s.body if c else s.orelse, fr)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        self.setloc(s, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(fr, t.id)
            new = self.aug(s.op, old, self.ev(s.value, fr))
            self.assign(t, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.getattr(o, t.attr)
            new = self.aug(s.op, old, self.ev(s.value, fr))
            self.setloc(s, fr)
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            old = self.getitem(o, k, aug=True)
            new = self.aug(s.op, old, self.ev(s.value, fr))
            self.setloc(s, fr)
            self.setitem(o, k, new)
        else:
            self.unsup("augassign")

    def aug(self, op, old, val):
        if isinstance(old, Lst) and isinstance(op, ast.Add):
            self.lst_extend(old, val)
            return old
        return self.binop(op, old, val)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, fr), t.attr)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev(t.slice, fr))

    def s_FunctionDef(self, s, fr):
        info = FuncInfo(s, fr.module, None, (self.stack[-1].split(".", 1)[-1] + "." if self.stack else "") + s.name)
        fr.vars[s.name] = self.make_fn(info, fr)

    def s_ClassDef(self, s, fr):
        ci = ClassInfo(s, fr.module)
        ci.scope = fr
        fr.vars[s.name] = Cls(ci, fr)

    def s_Raise(self, s, fr):
        if s.exc is None:
            if self.curexc:
                raise self.curexc[-1]
            raise Cut("bare raise")
        e = s.exc
        v = self.ev(e, fr)
        self.setloc(s, fr)
        if isinstance(v, PyRaise):
            v.loc = v.loc if v.loc and v.loc[1] != 0 and v in self.curexc else self.loc
            raise v
        if isinstance(v, (Cls, Ext)):
            raise PyRaise(v, (), self.loc)
        if isinstance(v, T):
            raise PyRaise(Ext("builtins.Exception?"), (v,), self.loc)
        raise PyRaise(Ext("builtins.Exception?"), (), self.loc)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            self.raise_("AssertionError")

    def s_Global(self, s, fr):
        for n in s.names:
            fr.nonlocals[n] = "global"

    def s_Nonlocal(self, s, fr):
        for n in s.names:
            f = fr.parent
            while f is not None and n not in f.vars:
                f = f.parent
            fr.nonlocals[n] = f

    def s_Break(self, s, fr):
        raise BreakX()

    def s_Continue(self, s, fr):
        raise ContinueX()

    def s_With(self, s, fr, i=0):
        if i >= len(s.items):
            return self.block(s.body, fr)
        it = s.items[i]
        cm = self.ev(it.context_expr, fr)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, cm if isinstance(cm, (T, Inst)) else TOP, fr)
        nxt = lambda: self.s_With(s, fr, i + 1)
        if isinstance(cm, tuple) and cm and cm[0] == "atomic_dec":
            self.atomic += 1
            self.eff("atomic", what="enter", using=cm[1])
            try:
                nxt()
            except PyRaise:
                self.eff("atomic", what="rollback")
                self.atomic -= 1
                raise
            except (ReturnX, BreakX, ContinueX):
                self.eff("atomic", what="exit")
                self.atomic -= 1
                raise
            self.eff("atomic", what="exit")
            self.atomic -= 1
        elif isinstance(cm, tuple) and cm and cm[0] == "suppress":
            self.handlers.append(cm[1])
            self.eff("try", swallows=[x for x in cm[1] if self.catches_db(x)])
            try:
                try:
                    nxt()
                finally:
                    self.handlers.pop()
                    self.eff("tryend")
            except PyRaise as e:
                if not any(self.exc_match(e.exc, c) for c in cm[1]):
                    raise
        else:
            self.eff("with", cm=cm)
            nxt()

    def s_Try(self, s, fr):
        types = []
        for h in s.handlers:
            if h.type is None:
                types.append([Ext("builtins.BaseException")])
            else:
                v = self.ev(h.type, fr)
                types.append(list(v) if isinstance(v, tuple) else v.items if isinstance(v, Lst) else [v])
        flat = [t for ts in types for t in ts]
        try:
            self.handlers.append(flat)
            self.eff("try", swallows=[t for h, ts in zip(s.handlers, types) for t in ts if self.catches_db(t) and not any(isinstance(x, ast.Raise) for b in h.body for x in ast.walk(b))])
            try:
                try:
                    self.block(s.body, fr)
                finally:
                    self.handlers.pop()
                    self.eff("tryend")
            except PyRaise as e:
                for h, ts in zip(s.handlers, types):
                    if any(self.exc_match(e.exc, t) for t in ts):
                        if h.name:
                            fr.vars[h.name] = e
                        self.eff("caught", exc=e.exc, origin=e.loc)
                        self.curexc.append(e)
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.curexc.pop()
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PyRaise, ReturnX, BreakX, ContinueX):
            self.block(s.finalbody, fr)
            raise
        self.block(s.finalbody, fr)

    EXC_UP = {
        "KeyError": ["LookupError"], "IndexError": ["LookupError"], "LookupError": ["Exception"],
        "DoesNotExist": ["ObjectDoesNotExist"], "ObjectDoesNotExist": ["Exception"],
        "MultipleObjectsReturned": ["Exception"],
        "AttributeError": ["Exception"], "ValueError": ["Exception"], "TypeError": ["Exception"],
        "PermissionDenied": ["Exception"], "Exception": ["BaseException"], "AssertionError": ["Exception"],
        "UnboundLocalError": ["NameError"], "NameError": ["Exception"], "NotImplementedError": ["RuntimeError"], "RuntimeError": ["Exception"], "StopIteration": ["Exception"],
        "Http404": ["Exception"], "IntegrityError": ["DatabaseError"], "DatabaseError": ["Exception"],
    }

    def exc_names(self, e):
        out = set()
        todo = [e]
        while todo:
            x = todo.pop()
            if isinstance(x, Cls):
                for c in self.prog.mro(x.ci):
                    if isinstance(c, ClassInfo):
                        out.add(c.name)
                    else:
                        todo.append(Ext(c[1]))
            elif isinstance(x, Ext):
                if x.last in out:
                    continue
                out.add(x.last)
                for u in self.EXC_UP.get(x.last, ["Exception"] if x.last not in ("BaseException",) else []):
                    todo.append(Ext(u))
        return out

    def exc_match(self, e, t):
        n = t.ci.name if isinstance(t, Cls) else t.last if isinstance(t, Ext) else None
        return n in self.exc_names(e)

    def catches_db(self, t):
        n = t.ci.name if isinstance(t, Cls) else t.last if isinstance(t, Ext) else None
        return n in ("BaseException", "Exception", "Error", "DatabaseError", "IntegrityError", "OperationalError", "DataError")

    def would_catch(self, name):
        e = Ext(name)
        return any(self.exc_match(e, t) for h in self.handlers for t in h)

    # -- loops -----------------------------------------------------------
    _asg = {}

    def assigned(self, stmts):
        k = id(stmts[0]) if stmts else 0
        if k in self._asg:
            return self._asg[k][0]
        out = set()
        todo = list(stmts)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            todo.extend(ast.iter_child_nodes(n))
        self._asg[k] = (out, stmts)
        return out

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        self.setloc(s, fr)
        broke = self.iterate(it, lambda v: self.assign(s.target, v, fr), lambda: self.block(s.body, fr), s, fr, s.body)
        if not broke:
            self.block(s.orelse, fr)

    def iterate(self, it, assign, body, node, fr, stmts):
        """run `body` over the items of `it`; True if left by break"""
        it = self.to_iter(it, node)
        if isinstance(it, list):  # concrete/mixed sequence
            for x in it:
                if isinstance(x, Many):
                    r = self.generic(x, assign, body, node, fr, stmts)
                    if r:
                        return True
                else:
                    self.loops.append(("item", self.site(node), None, 0))
                    n = len(self.loops)
                    try:
                        # concrete items: not a loop context for accumulation
                        self.loops.pop()
                        assign(x)
                        try:
                            body()
                        except ContinueX:
                            pass
                    except BreakX:
                        return True
                    finally:
                        del self.loops[n - 1:]
            return False
        return self.generic(it, assign, body, node, fr, stmts)

    def generic(self, m, assign, body, node, fr, stmts):
        site = T("site", getattr(node, "lineno", 0), getattr(node, "col_offset", 0), len(self.stack))
        names = self.assigned(stmts) if stmts else set()
        carried = [n for n in names if n in fr.vars and self.carry_const(fr.vars[n])]
        src = m.src
        opts = 2
        if stmts and (carried or self.has_break(stmts)):
            opts = 3
        c = self.choose(opts)
        # 0: one generic iteration; 1: no iteration; 2: two consecutive
        if c == 1:
            self.addcond(T("zeroiter", site, self.src_term(src), self.epoch, m.loops[-1][0] if m.loops else NONE, m.loops[-1][3] if m.loops else 0), True)
            return False
        iters = 2 if c == 2 else 1
        hav = []
        for n in names:
            if n in fr.vars:
                v = fr.vars[n]
                if isinstance(v, T) and not is_const(v) or (isinstance(v, T) and is_const(v) and isinstance(cval(v), int) and not isinstance(cval(v), bool)):
                    if v.op in ("top",):
                        continue
                    if is_path(v):
                        fr.vars[n] = T("pathvar", site, n, v)
                    elif self.numeric(v):
                        fr.vars[n] = T("phi", site, n, v, "n")
                    elif v.op in ATOMS:
                        continue
                    else:
                        fr.vars[n] = T("phi", site, n, v, "x")
                    hav.append(n)
        broke = False
        origin = (m.loops[-1][0], m.loops[-1][3]) if m.loops else None
        for k in range(iters):
            self.loops.append((site, src, m.rev, k, origin))
            n = len(self.loops)
            try:
                val = self.element(m, site, k)
                assign(val)
                try:
                    body()
                except ContinueX:
                    pass
                self.eff("carry", site=site, vals={x: fr.vars.get(x) for x in hav})
            except BreakX:
                broke = True
            finally:
                del self.loops[n - 1:]
            if broke:
                break
        self.eff("loopend", site=site, broke=broke)
        return broke

    _brk = {}

    def has_break(self, stmts):
        k = id(stmts[0])
        if k not in self._brk:
            todo, res = list(stmts), False
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.For, ast.While)):
                    continue
                if isinstance(n, ast.Break):
                    res = True
                todo.extend(ast.iter_child_nodes(n))
            self._brk[k] = (res, stmts)
        return self._brk[k][0]

    def carry_const(self, v):
        return isinstance(v, T) and is_const(v) and (cval(v) is None or isinstance(cval(v), (bool, str)))

    def src_term(self, src):
        return T("qs", src) if isinstance(src, QS) else src if isinstance(src, T) else T("obj", type(src).__name__)

    def element(self, m, site, k):
        """generic element number k of Many m"""
        if isinstance(m.value, Builtin):
            return m.value.f(site, k)
        if k == 0:
            return m.value
        return self.successor(m.value, k)

    def successor(self, v, k):
        if isinstance(v, Row) and v.rowid.op == "elem":
            a = v.rowid.args
            return Row(T("elem", a[0], a[1], a[2], a[3] + k), v.model)
        if isinstance(v, tuple):
            return tuple(self.successor(x, k) for x in v)
        if isinstance(v, Dct):
            d = Dct(v.kind, v.depth, v.site)
            d.entries = [[kk, self.successor(x, k), l] for kk, x, l in v.entries]
            d.rowid = getattr(v, "rowid", None)
            return d
        if isinstance(v, T):
            mp = {}
            for s in subterms(v):
                if s.op == "elem":
                    a = s.args
                    mp[s] = T("elem", a[0], a[1], a[2], a[3] + k)
            return subst(v, mp) if mp else T("succ", v, k)
        return v

    def s_While(self, s, fr):
        site = self.site(s)
        n = 0
        while True:
            c = self.ev(s.test, fr)
            a = self.truth_atom(c)
            if n >= self.cfg.while_limit:
                if is_const(a) and cval(a):
                    raise Cut("while bound")
                if not is_const(a):
                    k = self.known(a) if a.op != "not" else None
                    if k:
                        raise Cut("while bound")
                    if self.branch(a):
                        raise Cut("while bound")
                    break
            if not self.branch(a):
                break
            n += 1
            self.loops.append((site, None, None, n - 1, None))
            ln = len(self.loops)
            try:
                try:
                    self.block(s.body, fr)
                except ContinueX:
                    pass
            except BreakX:
                return
            finally:
                del self.loops[ln - 1:]
        self.block(s.orelse, fr)

    def s_Match(self, s, fr):
        v = self.ev(s.subject, fr)
        for case in s.cases:
            if self.match(case.pattern, v, fr) and (case.guard is None or self.truth(self.ev(case.guard, fr))):
                return self.block(case.body, fr)

    def match(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.branch(self.eq(v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.branch(self.eq(v, const(p.value)))
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, fr):
                return False
            if p.name:
                fr.vars[p.name] = v
            return True
        if isinstance(p, ast.MatchSequence) and isinstance(v, tuple) and len(v) == len(p.patterns):
            return all(self.match(q, x, fr) for q, x in zip(p.patterns, v))
        self.unsup("match pattern")
        return self.branch(T("unk", TOP, self.fresh()))

    # -- assignment ------------------------------------------------------
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            o = fr.nonlocals.get(t.id)
            if isinstance(o, Frame):
                o.vars[t.id] = v
            elif o == "global":
                self.eff("memo", where_kept=f"the module variable {t.id}", key=(), value=v, queries=[], under=self.conds)
                self.modcache[(fr.module.name, t.id)] = v
            else:
                fr.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            self.setloc(t, fr)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            self.setloc(t, fr)
            self.setitem(o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            self.unsup("assign target")

    def unpack(self, elts, v, fr):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, Lst) and not v.many():
            v = tuple(v.items)
        if isinstance(v, tuple):
            if star:
                i = star[0]
                k = len(elts) - i - 1
                parts = list(v[:i]) + [Lst(v[i: len(v) - k])] + list(v[len(v) - k:] if k else [])
                for e, x in zip(elts, parts):
                    self.assign(e, x, fr)
                return
            if len(v) != len(elts):
                self.raise_("ValueError")
            for e, x in zip(elts, v):
                self.assign(e, x, fr)
            return
        if isinstance(v, T) and not v.op == "top":
            for i, e in enumerate(elts):
                self.assign(e, T("item", v, const(i)), fr)
            return
        for e in elts:
            self.assign(e, TOP, fr)

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unsup("expression " + type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        if e.value is Ellipsis:
            return TOP
        return const(e.value)

    def e_Name(self, e, fr):
        return self.lookup(fr, e.id)

    def e_Attribute(self, e, fr):
        o = self.ev(e.value, fr)
        self.setloc(e, fr)
        return self.getattr(o, e.attr)

    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and self.frame_lookup(fr, "super") is UNDEF:
            if not e.args:
                f = fr
                while f is not None and (f.fn is None or f.fn.owner is None):
                    f = f.parent
                if f is None:
                    return TOP
                a = f.fn.info.node.args
                first = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else None
                return SuperV(f.fn.owner, f.vars.get(first) if first in f.vars else f.first)
            c = self.ev(e.args[0], fr)
            o = self.ev(e.args[1], fr)
            return SuperV(c.ci if isinstance(c, Cls) else None, o)
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                if isinstance(v, Lst) and not v.many():
                    args.extend(v.items)
                elif isinstance(v, tuple):
                    args.extend(v)
                elif isinstance(v, Lst):
                    args.extend(v.items)  # Many entries are passed through (Q(*[...]))
                elif isinstance(v, T) and v.op == "nob":
                    args.append(v)
                else:
                    args.append(("*opaque", v))
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is not None:
                kwargs[k.arg] = self.ev(k.value, fr)
            else:
                d = self.ev(k.value, fr)
                if isinstance(d, Dct):
                    for kk, vv, l in d.entries:
                        if isinstance(kk, T) and is_const(kk) and isinstance(cval(kk), str):
                            kwargs[cval(kk)] = vv
                        else:
                            kwargs[kk] = vv
                    if d.opaque:
                        kwargs["**"] = getattr(d, "src", TOP)
                elif d is NONE:
                    self.raise_("TypeError")
                else:
                    kwargs["**"] = d
        self.setloc(e, fr)
        return self.call(f, args, kwargs, e)

    def e_BoolOp(self, e, fr):
        v = None
        for x in e.values:
            v = self.ev(x, fr)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return self.falsy(v)
            if isinstance(e.op, ast.Or) and t:
                return self.truthy(v)
        return v

    def falsy(self, v):
        if isinstance(v, T) and v.op in ATOMS:
            return FALSE
        if isinstance(v, T) and not is_const(v):
            if self.numeric(v):
                return const(0)
            if is_path(v):
                return EMPTY
        return v

    def truthy(self, v):
        if isinstance(v, T) and v.op in ATOMS:
            return TRUE
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            a = self.truth_atom(v)
            if isinstance(a, T) and a.op in ("and", "or"):
                return const(not self.branch(a))
            return pnot(a) if not is_const(a) else const(not cval(a))
        if isinstance(e.op, ast.USub):
            r = neg(v) if isinstance(v, T) else None
            return r if r is not None else TOP
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, T):
                return pnot(v)
        return TOP

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        self.setloc(e, fr)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        o = type(op).__name__
        if isinstance(a, Ext) or isinstance(b, Ext):
            if o == "BitOr":
                return TOP
        if isinstance(a, PyRaise) or isinstance(b, PyRaise):
            return TOP
        if o in ("BitOr", "BitAnd") and isinstance(a, T) and isinstance(b, T):
            if self.is_pred(a) and self.is_pred(b):
                return por(a, b) if o == "BitOr" else pand(a, b)
            if a.op in ATOMS or b.op in ATOMS or (is_const(a) and isinstance(cval(a), bool)):
                return por(a, b) if o == "BitOr" else pand(a, b)
        if isinstance(a, Lst) or isinstance(b, Lst) or isinstance(a, Dct):
            return self.setop(o, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and o == "Add":
            return a + b
        if isinstance(a, tuple) and isinstance(b, Lst) and o == "Add":
            return Lst(list(a) + b.items)
        if isinstance(a, QS) and isinstance(b, QS):
            if o == "BitOr":
                return replace(a, where=por(a.where, b.where))
            if o == "BitAnd":
                return replace(a, where=pand(a.where, b.where))
        if not (isinstance(a, T) and isinstance(b, T)):
            if isinstance(a, T) and o == "Mod":
                if is_const(a) and isinstance(cval(a), str) and isinstance(b, (tuple, str)):
                    r = self.percent(cval(a), b)
                    if r is not None:
                        return r
                return T("fmt", a, self.as_term(b))
            return TOP
        if a.op == "top" or b.op == "top":
            return TOP
        if is_const(a) and is_const(b):
            try:
                x, y = cval(a), cval(b)
                if o == "Add":
                    return const(x + y)
                if o == "Sub":
                    return num(x - y)
                if o == "Mult":
                    return const(x * y)
                if o == "Mod":
                    return const(x % y)
                if o == "FloorDiv":
                    return const(x // y)
                if o == "Div":
                    return T("truediv", a, b) if x % y else const(x // y)
                if o == "Pow":
                    return const(x ** y)
            except Exception:
                return TOP
        if o == "Add":
            if a.op == "safe" or b.op == "safe":
                r = cat(textof(a), textof(b))
                return T("safe", r) if a.op == b.op else r
            if self.stringy(a) or self.stringy(b):
                return cat(a, b)
            r = add(a, b)
            return r if r is not None else cat(a, b)
        if o == "Sub":
            if isinstance(a, T) and a.op == "setof":
                return T("setop", "-", a, b)
            r = sub(a, b)
            return r if r is not None else TOP
        if o == "Mult":
            for x, y in ((a, b), (b, a)):
                if x.op in ("alpha0", "alphaZ", "rep") or (is_const(x) and isinstance(cval(x), str)) or x.op in ("safe", "esc", "ga", "call"):
                    if not (x.op in ("ga", "call") and self.numeric(y) is False):
                        return self.mkrep(textof(x), y)
            r = mul(a, b)
            return r if r is not None else TOP
        if o in ("Div", "FloorDiv"):
            r = div_exact(a, b)
            if r is not None and (b is not const(1)):
                return r if o == "FloorDiv" or STEPLEN is b or b is UNIT[0] else T("truediv", a, b)
            return T("truediv" if o == "Div" else "floordiv", a, b)
        if o == "Mod":
            if self.stringy(a):
                r = self.percent(cval(a), (b,)) if is_const(a) else None
                return r if r is not None else T("fmt", a, b)
            r = div_exact(a, b)
            if r is not None and b is STEPLEN and TRUST_DEPTH[0]:
                return const(0)
            return T("mod", a, b)
        if o in ("BitOr", "BitAnd"):
            return T("setop", o, a, b)
        return TOP

    def mkrep(self, s, n):
        if is_const(n) and isinstance(cval(n), int):
            if cval(n) == 1:
                return s
            if cval(n) <= 0:
                return EMPTY
        return T("rep", s, n)

    def stringy(self, t):
        if is_const(t):
            return isinstance(cval(t), str)
        return is_path(t) or t.op in ("cat", "str", "int2str", "alpha0", "alphaZ", "rep", "label", "fmt", "item", "esc", "safe", "lit") and not self.numeric(t)

    def is_pred(self, t):
        return t.op in ("lk", "and", "or", "not", "existsq") or t in (TRUE, FALSE) or t.op == "predalias"

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            self.setloc(e, fr)
            c = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return c
            if not self.branch(self.truth_atom(c)):
                return FALSE
            left = right
        return res

    def compare(self, o, a, b):
        if o == "Eq":
            return self.eq(a, b)
        if o == "NotEq":
            return self.neg_atom(self.eq(a, b))
        if o in ("Is", "IsNot"):
            if a is NONE or b is NONE:
                x = b if a is NONE else a
                r = self.is_none(x) if isinstance(x, T) else FALSE
            else:
                r = self.eq(a, b)
            return r if o == "Is" else self.neg_atom(r)
        if o == "Lt":
            return self.lt(a, b)
        if o == "Gt":
            return self.lt(b, a)
        if o == "LtE":
            return self.neg_atom(self.lt(b, a))
        if o == "GtE":
            return self.neg_atom(self.lt(a, b))
        if o in ("In", "NotIn"):
            r = self.contains(a, b)
            return r if o == "In" else self.neg_atom(r)
        return TOP

    def neg_atom(self, a):
        if is_const(a):
            return const(not cval(a))
        return pnot(a)

    def contains(self, x, c):
        if isinstance(c, AttrDict):
            return const(self.adict_has(c, x) is not None)
        if isinstance(c, Lst) or isinstance(c, tuple):
            items = c.items if isinstance(c, Lst) else c
            unknown = []
            for i in items:
                if isinstance(i, Many):
                    unknown.append(i)
                    continue
                r = self.eq(x, i)
                if r is TRUE:
                    return TRUE
                if r is FALSE:
                    continue
                if self.branch(r):
                    return TRUE
            if unknown or (isinstance(c, Lst) and c.depth < len(self.loops) and not c.items and c.site is not None and self.loops and not is_const(self.as_term(x))):
                return T("in", self.as_term(x), T("lst", c.site, c.kind))
            return FALSE
        if isinstance(c, Dct):
            for k, v, l in c.entries:
                if l is None:
                    r = self.eq(x, k)
                    if r is TRUE:
                        return TRUE
                    if r is FALSE:
                        continue
                    if self.branch(r):
                        return TRUE
            if c.opaque or any(l is not None for _, _, l in c.entries) or (c.depth < len(self.loops)):
                return T("in", self.as_term(x), T("dict", c.site))
            return FALSE
        if isinstance(c, QS):
            return T("inqs", self.as_term(x), T("qs", c))
        if isinstance(c, T) and is_const(c) and isinstance(cval(c), str) and isinstance(x, T) and is_const(x):
            return const(cval(x) in cval(c))
        if isinstance(c, T):
            if c.op == "top":
                return T("unk", TOP, self.fresh())
            return T("in", self.as_term(x), c)
        return T("unk", TOP, self.fresh())

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Tuple(self, e, fr):
        out = []
        many = False
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                if isinstance(v, (tuple,)):
                    out.extend(v)
                elif isinstance(v, Lst):
                    out.extend(v.items)
                    many = many or v.many()
                else:
                    out.append(Many(TOP, v))
                    many = True
            else:
                out.append(self.ev(x, fr))
        if many:
            return Lst(out, "tuple", len(self.loops), self.site(e))
        return tuple(out)

    def seq_display(self, e, fr, kind):
        l = Lst((), kind, len(self.loops), self.site(e))
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                if isinstance(v, tuple):
                    l.items.extend(v)
                elif isinstance(v, Lst):
                    l.items.extend(v.items)
                elif isinstance(v, T) and v.op == "nob":
                    l.items.append(Many(T("nobfield"), v))
                else:
                    l.items.append(Many(T("item_of", self.as_term(v)), self.as_term(v)))
            else:
                l.items.append(self.ev(x, fr))
        return l

    def e_List(self, e, fr):
        return self.seq_display(e, fr, "list")

    def e_Set(self, e, fr):
        return self.seq_display(e, fr, "set")

    def e_Dict(self, e, fr):
        d = Dct(depth=len(self.loops), site=self.site(e))
        for k, v in zip(e.keys, e.values):
            if k is None:
                s = self.ev(v, fr)
                if isinstance(s, Dct):
                    for a, b, l in s.entries:
                        self.dset(d, a, b)
                    d.opaque = d.opaque or s.opaque
                else:
                    d.opaque = True
                continue
            self.dset(d, self.ev(k, fr), self.ev(v, fr))
        return d

    def textpart(self, x, plain=True):
        """the characters a value contributes to formatted text"""
        if not isinstance(x, T):
            return T("str", self.as_term(x))
        x = textof(x)
        if is_const(x) and isinstance(cval(x), str) or self.stringy(x):
            return x
        return T("str", x) if plain else T("fmt", x)

    def joinparts(self, parts):
        if any(p.op == "top" for p in parts):
            return T("str", TOP)
        return cat(*parts) if parts else EMPTY

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.textpart(self.ev(v.value, fr), v.format_spec is None and v.conversion in (-1, 115)))
        return self.joinparts(parts)

    def percent(self, template, args):
        """``template % args`` for the plain conversions; None for anything else"""
        parts, i, n = [], 0, 0
        for m in re.finditer(r"%(.)", template, re.S):
            if m.group(1) not in "sd%" or m.group(1) != "%" and n >= len(args):
                return None
            parts.append(const(template[i:m.start()]))
            i = m.end()
            if m.group(1) == "%":
                parts.append(const("%"))
            else:
                parts.append(self.textpart(args[n]))
                n += 1
        if n != len(args):
            return None
        return self.joinparts(parts + [const(template[i:])])

    def strformat(self, template, args, kwargs):
        """``template.format(*args, **kwargs)`` where every field is a plain argument; None for anything else"""
        parts, auto = [], 0
        try:
            fields = list(string.Formatter().parse(template))
        except ValueError:
            return None
        for text, name, spec, conv in fields:
            parts.append(const(text))
            if name is None:
                continue
            if name == "":
                name, auto = str(auto), auto + 1
            if name.isdigit() and int(name) < len(args):
                v = args[int(name)]
            elif name in kwargs:
                v = kwargs[name]
            else:
                return None
            parts.append(self.textpart(v, not spec and conv in (None, "s")))
        return self.joinparts(parts)

    def e_FormattedValue(self, e, fr):
        return T("str", self.as_term(self.ev(e.value, fr)))

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        k = self.ev(e.slice, fr)
        self.setloc(e, fr)
        return self.getitem(o, k)

    def e_Slice(self, e, fr):
        f = lambda x: self.ev(x, fr) if x is not None else None
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_Lambda(self, e, fr):
        info = FuncInfo(e, fr.module, None, (self.stack[-1].split(".", 1)[-1] if self.stack else "") + ".<lambda>")
        return Fn(info, fr)

    def e_Starred(self, e, fr):
        return self.ev(e.value, fr)

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else NONE
        if self.yields:
            self.lst_append(self.yields[-1], v)
        return NONE

    def e_YieldFrom(self, e, fr):
        v = self.ev(e.value, fr)
        if self.yields:
            self.lst_extend(self.yields[-1], v)
        return NONE

    def comp(self, e, fr, leaf, kind):
        res = Lst((), kind, len(self.loops), self.site(e))
        f = Frame(fr, fr.module)
        self._comp(e.generators, 0, f, leaf, res, e)
        return res

    def _comp(self, gens, i, fr, leaf, res, e):
        if i == len(gens):
            v = leaf(fr)
            self.lst_append(res, v)
            return
        g = gens[i]
        it = self.to_iter(self.ev(g.iter, fr if i else fr.parent), g)
        seq = it if isinstance(it, list) else [it]
        for x in seq:
            if isinstance(x, Many):
                site = T("site", e.lineno, e.col_offset, len(self.stack))
                self.loops.append((site, x.src, x.rev, 0, (x.loops[-1][0], x.loops[-1][3]) if x.loops else None))
                n = len(self.loops)
                try:
                    self.assign(g.target, self.element(x, site, 0), fr)
                    if all(self.truth(self.ev(c, fr)) for c in g.ifs):
                        self._comp(gens, i + 1, fr, leaf, res, e)
                finally:
                    del self.loops[n - 1:]
                for it2 in res.items:
                    if isinstance(it2, Many) and it2.order == "filled":
                        it2.order = None  # the source may be empty
            else:
                self.assign(g.target, x, fr)
                if all(self.truth(self.ev(c, fr)) for c in g.ifs):
                    self._comp(gens, i + 1, fr, leaf, res, e)

    def e_ListComp(self, e, fr):
        return self.comp(e, fr, lambda f: self.ev(e.elt, f), "list")

    def e_SetComp(self, e, fr):
        return self.comp(e, fr, lambda f: self.ev(e.elt, f), "set")

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr, lambda f: self.ev(e.elt, f), "gen")

    def e_DictComp(self, e, fr):
        pairs = self.comp(e, fr, lambda f: (self.ev(e.key, f), self.ev(e.value, f)), "list")
        d = Dct(depth=len(self.loops), site=self.site(e))
        for p in pairs.items:
            if isinstance(p, Many):
                d.entries.append([p.value[0], p.value[1], p])
            else:
                self.dset(d, p[0], p[1])
        return d

    def e_Await(self, e, fr):
        return self.ev(e.value, fr)


ATOMS = {"eq0", "pos", "eq", "eqv", "slt", "startswith", "endswith", "nonempty", "isnull", "in", "inqs", "truth", "not", "same", "unk",
         "isinst", "hasattr", "all", "any", "and", "or", "vendor", "permok", "sorted?", "lk"}
