"""Entry points of the analysis: public operations with symbolic arguments."""
import ast
import itertools
import time

from .interp import *
from .unroll import UInterp
from .source import *
from .layout import *

BACKENDS = {"MP": "MP_Node", "NS": "NS_Node", "AL": "AL_Node", "LT": "LT_Node"}
POSITIONS = ("first-sibling", "left", "right", "last-sibling", "sorted-sibling", "first-child", "last-child", "sorted-child")

_prog = None


def prog():
    global _prog
    if _prog is None:
        _prog = Program()
    return _prog


_cache = {}
STATS = {"entries": 0, "paths": 0, "effects": 0, "functions": set(), "unsupported": {}, "truncated": []}


class Summary:
    def __init__(self, key, interp, traces, seconds):
        self.key, self.interp, self.traces, self.seconds = key, interp, traces, seconds

    def __iter__(self):
        return iter(self.traces)


def setup_for(I, base, backend, meth, argspec, on, cfg):
    Tm, M, K = (ModelV(n, base, I.cfg) for n in "TMK")
    for m in (Tm, M, K):
        m.treebase = Tm
    if cfg.get("proxy"):
        M.proxy_for = Tm
        M.concrete = Tm
    if "manager" in cfg.get("base", ()):
        M = Tm
    if cfg.get("models"):
        m = cfg["models"]
        K = M
        if m == "plain":
            M = K = Tm
        elif m in ("proxy", "proxy2", "childproxy"):
            base = Tm
            if m != "proxy":
                base = ModelV("P", Tm.base, I.cfg)
                base.treebase = Tm
                if m == "proxy2":
                    base.proxy_for = base.concrete = Tm
            M.proxy_for, M.concrete = base, base.concrete
    if cfg.get("plain"):
        M = K = Tm

    def setup(I):
        mgr = I.mgr(M)
        if not isinstance(mgr, Inst):
            raise AnalysisBroken(f"manager of {base.name} not found")
        mgr.attrs["_db"] = NONE
        args, kw, params = [], {}, {}
        for a in argspec:
            if isinstance(a, str):
                params[a] = Row(T("param", a), Tm if a in cfg.get("base", ()) else K)
                args.append(params[a])
            elif a[0] == "new":
                params[a[1]] = I.new_row(M, [], {})
                kw["instance"] = params[a[1]]
            elif a[0] == "kw":
                for k, v in a[1].items():
                    if isinstance(v, tuple) and v and v[0] == "row":
                        params[v[1]] = Row(T("param", v[1]), K)
                        kw[k] = params[v[1]]
                    else:
                        kw[k] = const(v) if not isinstance(v, T) else v
            elif a[0] == "const":
                args.append(const(a[1]))
            elif a[0] == "val":
                args.append(a[1])
            elif a[0] == "int":
                params[a[1]] = T("param", a[1], "int")
                args.append(params[a[1]])
            elif a[0] == "kwdict":
                for k, v in a[1].items():
                    d = Dct()
                    d.entries = [[const(x), const(y), None] for x, y in v.items()]
                    kw[k] = d
            elif a[0] == "make":
                args.append(a[1].make(I))
        I.deser_model = I.entry_model = M
        obj = mgr
        if on == "handler":
            return handler(I, meth, args, kw, M, params)
        if on == "node":
            obj = args.pop(0)
        elif on == "model":
            obj = M
        elif on == "qs":
            obj = I.call(I.getattr(mgr, "get_queryset"), [], {})
            if not isinstance(obj, QS):
                raise AnalysisBroken("queryset of the manager")
            obj = replace(obj, where=pand(obj.where, T("lk", "sel", "exact", TRUE)))
            if cfg.get("alias"):
                obj = replace(obj, using=T("alias"))
        oci = obj.ci if isinstance(obj, Inst) else base if isinstance(obj, (Row, ModelV)) else (obj.qcls or base)
        if I.prog.class_member(oci, meth)[1] is None and I.injected_attr(oci, meth) is None:
            raise AnalysisBroken(f"{backend}: no method {meth}")
        I.effects.clear()
        return I.getattr(obj, meth), args, kw, params
    return setup


def handler(I, cname, args, kw, M, params):
    """a call of process() of one of the old handler classes"""
    ci = I.prog.find_class(cname)
    if ci is None:
        raise AnalysisBroken(f"class {cname} not found")
    if cname == "MP_AddRootHandler":
        args = [M]
    elif cname != "MP_MoveHandler":
        d = Dct()
        d.entries = [[const(k), v, None] for k, v in kw.items()]
        args, kw = args + [d], {}
    fn = FuncInfo(ast.parse("def call(cls, *args, **kwargs):\n    return cls(*args, **kwargs).process()").body[0], ci.module)
    I.effects.clear()
    return I.make_fn(fn, Frame(None, ci.module)), [Cls(ci), *args], kw, params


def get_base(backend):
    base = prog().find_class(BACKENDS[backend])
    if base is None:
        raise AnalysisBroken(f"class {BACKENDS[backend]} not found")
    return base


def summarise(backend, meth, argspec, on="manager", **cfg):
    """every path summary of `meth` (generic loops)

    argspec: list of argument descriptors:
      'name'            -> a saved row of the tree (symbolic)
      ('new', name)     -> an unsaved instance passed by keyword `instance`
      ('kw', {..})      -> keyword arguments (constants, or ('row', name))
      ('const', v)      -> a constant positional argument
      ('int', name)     -> a symbolic integer
    """
    key = (backend, meth, repr(argspec), on, repr(sorted(cfg.items(), key=str)))
    if key in _cache:
        return _cache[key]
    base = get_base(backend)
    c = Config(**{**({"unit": const(1)} if backend == "LT" else {}), **cfg})
    I = Interp(prog(), c)
    t0 = time.time()
    tr = I.explore(f"{BACKENDS[backend]}.{meth}", setup_for(I, base, backend, meth, argspec, on, cfg))
    s = Summary(key, I, tr, time.time() - t0)
    if not tr:
        raise AnalysisBroken(f"no path through {backend}.{meth}")
    STATS["entries"] += 1
    STATS["paths"] += len(tr)
    for t in tr:
        count_trace(t)
    if I.truncated:
        STATS["truncated"].append(f"{backend}.{meth}{argspec}")
    _cache[key] = s
    return s


def count_trace(t):
    STATS["effects"] += len(t.effects)
    for e in t.effects:
        STATS["functions"].update(e.stack)
    for u in t.unsupported:
        STATS["unsupported"][u] = STATS["unsupported"].get(u, 0) + 1


class PNode:
    """decision tree of an entry point: effects up to the next decision"""
    __slots__ = ("effects", "kind", "data", "kids", "trace")

    def __init__(self, effects):
        self.effects, self.kind, self.data, self.kids, self.trace = effects, None, None, {}, None


class Paths:
    """demand-driven path enumeration of one entry point"""

    def __init__(self, backend, meth, argspec, on="manager", **cfg):
        base = get_base(backend)
        self.backend, self.meth = backend, meth
        self.name = f"{BACKENDS[backend]}.{meth}"
        c = Config(**{"rec_limit": 14, "fork_counts": True, **({"unit": const(1)} if backend == "LT" else {}), **cfg})
        self.I = UInterp(prog(), c)
        self.setup = setup_for(self.I, base, backend, meth, argspec, on, cfg)
        self.root = None
        self.n = 0
        STATS["entries"] += 1

    def on(self, lay, oracle=None, **kw):
        """(trace, Replay) of the one path feasible on `lay`; raises Undecided"""
        rp = Replay(lay, oracle, **kw)
        node, prefix, done = self.root, [], 0
        while node is not None:
            for e in node.effects:
                rp.apply(e)
            done += len(node.effects)
            if node.trace is not None:
                return self.finish(node.trace, rp)
            d = rp.decide(node.kind, node.data)
            prefix.append(d)
            node = node.kids.get(d)
        I = self.I
        UNIT[0] = I.cfg.unit
        TRUST_DEPTH[0] = I.cfg.trust_depth
        state = [done]
        err = []

        def decider(n, kind, data):
            for e in I.effects[state[0]:]:
                rp.apply(e)
            state[0] = len(I.effects)
            return rp.decide(kind, data)
        I.decisions, I.dpos, I.decider = [(d, None) for d in prefix], 0, decider
        try:
            tr = I.run(self.name, self.setup)
        finally:
            I.decider = None
        for e in tr.effects[state[0]:]:
            rp.apply(e)
        self.n += 1
        STATS["paths"] += 1
        count_trace(tr)
        self.insert(tr)
        return self.finish(tr, rp)

    def finish(self, tr, rp):
        if tr.outcome[0] == "cut":
            raise Undecided(tr.outcome[1])
        return tr, rp

    def insert(self, tr):
        pos = 0
        node = self.root
        if node is None:
            n = tr.declog[0][3] if tr.declog else len(tr.effects)
            node = self.root = PNode(tr.effects[:n])
        for i, (d, kind, data, n) in enumerate(tr.declog):
            node.kind, node.data = kind, data
            end = tr.declog[i + 1][3] if i + 1 < len(tr.declog) else len(tr.effects)
            nxt = node.kids.get(d)
            if nxt is None:
                nxt = node.kids[d] = PNode(tr.effects[n:end])
            node = nxt
        node.trace = tr


_paths = {}


def paths(backend, meth, argspec, on="manager", **cfg):
    key = (backend, meth, repr(argspec), on, repr(sorted(cfg.items(), key=str)))
    if key not in _paths:
        _paths[key] = Paths(backend, meth, argspec, on, **cfg)
    return _paths[key]


# ------------------------------------------------------------------ forests
def all_forests(n):
    """all ordered forests with n nodes (names assigned in document order)"""
    def shapes(n):
        if n == 0:
            yield ()
            return
        for k in range(1, n + 1):  # size of first tree
            for ch in shapes(k - 1):
                for rest in shapes(n - k):
                    yield (ch,) + rest

    def name(sh, it):
        return tuple((next(it), name(c, it)) for c in sh)
    names = "abcdefgh"
    for sh in shapes(n):
        # argument evaluation order: name parent before its children
        def rec(sh, it):
            out = []
            for c in sh:
                nm = next(it)
                out.append((nm, rec(c, it)))
            return tuple(out)
        yield rec(sh, iter(names))


def remove(f, x):
    return tuple((n, remove(c, x)) for n, c in f if n != x)


def subtree(f, x):
    for n, c in f:
        if n == x:
            return (n, c)
        r = subtree(c, x)
        if r:
            return r
    return None


def insert_sibling(f, target, node, where):
    names = [n for n, _ in f]
    if target in names:
        i = names.index(target)
        j = {"first-sibling": 0, "left": i, "right": i + 1, "last-sibling": len(f)}[where]
        return f[:j] + (node,) + f[j:]
    return tuple((n, insert_sibling(c, target, node, where)) for n, c in f)


def insert_child(f, target, node, where):
    return tuple((n, ((node,) + c if where == "first-child" else c + (node,)) if n == target else insert_child(c, target, node, where)) for n, c in f)


def expected_move(f, node, target, pos):
    if node == target:
        if pos in ("left", "right"):
            return f
        sub_ = subtree(f, node)
        # first/last among its own siblings
        par = parent_of(f, node)
        sibs = [n for n, _ in (f if par is None else subtree(f, par)[1]) if n != node]
        if not sibs:
            return f
        g = remove(f, node)
        return insert_sibling(g, sibs[0], sub_, pos)
    sub_ = subtree(f, node)
    g = remove(f, node)
    if pos.endswith("child"):
        return insert_child(g, target, sub_, pos)
    return insert_sibling(g, target, sub_, pos)


def parent_of(f, x, par=None):
    for n, c in f:
        if n == x:
            return par
        r = parent_of(c, x, n)
        if r is not None:
            return r
    return None


def layouts_for(backend, n, params, **kw):
    for f in all_forests(n):
        names = [x[0] for x in forest_nodes(f)]
        for combo in itertools.product(names, repeat=len(params)):
            yield Layout(backend, f, dict(zip(params, combo)), **kw)
