"""Read operations: what they must return on a layout, and the judge that compares."""
from .memo import memo_devs
from .survey import *


class F:
    """a forest with the relations the tree API speaks about"""

    def __init__(self, forest):
        self.f = fz(forest)
        self.doc, self.par, self.dep, self.ch = [], {}, {}, {None: []}
        for n, p, d, c in forest_nodes(forest):
            self.doc.append(n)
            self.par[n], self.dep[n] = p, d
            self.ch.setdefault(n, [])
            self.ch[p].append(n)

    def anc(self, n):
        out = []
        while self.par[n] is not None:
            n = self.par[n]
            out.insert(0, n)
        return out

    def desc(self, n, md=None):
        return [x for x in self.doc if n in self.anc(x) and (md is None or self.dep[x] - self.dep[n] <= md)]

    def tree(self, n=None, md=None):
        if n is None:
            return [x for x in self.doc if md is None or self.dep[x] <= md]
        return [n] + self.desc(n, md)

    def sibs(self, n):
        return self.ch[self.par[n]]

    def prev(self, n):
        s = self.sibs(n)
        i = s.index(n)
        return s[i - 1] if i else None

    def next(self, n):
        s = self.sibs(n)
        i = s.index(n)
        return s[i + 1] if i + 1 < len(s) else None


def one(l, i):
    return l[i] if l else None


def annotated(names, T):
    """(node, open, close count, level) of a list of nodes in document order"""
    out = []
    start = T.dep[names[0]] if names else None
    for i, n in enumerate(names):
        d = T.dep[n]
        prev = T.dep[names[i - 1]] if i else None
        nxt = T.dep[names[i + 1]] if i + 1 < len(names) else start - 1
        out.append((n, prev is None or d > prev, max(0, d - nxt), d - start))
    return out


class Q:
    """one read operation"""

    def __init__(self, backend, meth, spec, expect, args=(), on="manager", label=None, kind="rows", variant=(), sorted_=False, group="relation", pk_only=False):
        self.backend, self.meth, self.argspec, self.expect, self.on = backend, meth, list(spec), expect, on
        self.kind, self.variant, self.sorted, self.group = kind, variant, sorted_, group
        self.params = [a for a in spec if isinstance(a, str)]
        for a in spec:
            if not isinstance(a, str) and a[0] == "kw":
                self.params += [v[1] for v in a[1].values() if isinstance(v, tuple) and v and v[0] == "row"]
        self.label = label

    @property
    def name(self):
        a = ",".join(x if isinstance(x, str) else ",".join(f"{k}={v[1] if isinstance(v, tuple) else v}" for k, v in x[1].items()) if x[0] == "kw" else str(x[1]) for x in self.argspec)
        so = " sorted" if self.sorted else ""
        v = " " + ",".join(self.variant) if self.variant else ""
        return f"{BACKENDS[self.backend]}.{self.meth}({a}){so}{v}"

    def paths(self):
        cfg = {"sorted": self.sorted}
        if "cached" in self.variant:
            cfg["cached_parent"] = True
        if "proxy" in self.variant:
            cfg["proxy"] = True
        return paths(self.backend, self.meth, self.argspec, on=self.on, **cfg)

    schemes = SCHEMES

    def layouts(self, n):
        for m in range(1 if self.params else 0, n + 1):
            for f in all_forests(m):
                names = [x[0] for x in forest_nodes(f)]
                for combo in itertools.product(names, repeat=len(self.params)):
                    env = dict(zip(self.params, combo))
                    for gaps in self.schemes:
                        if self.sorted:
                            ks, _ = next(key_schemes(f, {}, self))
                            yield Layout(self.backend, f, env, gaps=gaps, keys=ks, sorted_=True, flags=self.variant)
                        else:
                            yield Layout(self.backend, f, env, gaps=gaps, flags=self.variant)


def got_rows(v, rp):
    """names of the rows a result stands for"""
    if isinstance(v, QS):
        return [r["pk"] for r in rp.select(v, rp.rows)]
    if isinstance(v, T) and v.op == "qs":
        return got_rows(v.args[0], rp)
    if isinstance(v, Lst):
        return [rp.pkof(i.rowid) if isinstance(i, Row) else rp.val(i) for i in v.items]
    if isinstance(v, (list, tuple)):
        return [rp.pkof(i.rowid) if isinstance(i, Row) else rp.val(i) for i in v]
    raise Undecided("result " + type(v).__name__)


def got_row(v, rp):
    if isinstance(v, Row):
        return rp.pkof(v.rowid)
    if isinstance(v, T):
        x = rp.ev(v)
        return x
    raise Undecided("result " + type(v).__name__)


def got_counts(v, rp):
    """[(row, descendants_count)]"""
    if isinstance(v, QS):
        ex = dict(v.annots).get("descendants_count")
        if ex is None:
            raise Undecided("no descendants_count annotation")
        out = []
        for r in rp.select(v, rp.rows):
            sv, rp.cur = rp.cur, rp.rows
            rp.ctx.append(r)
            try:
                out.append((r["pk"], rp.ev(ex)))
            finally:
                rp.ctx.pop()
                rp.cur = sv
        return out
    if isinstance(v, Lst):
        return [(rp.pkof(i.rowid), rp.val(i.attrs["descendants_count"]) if "descendants_count" in i.attrs else None) for i in v.items]
    raise Undecided("result " + type(v).__name__)


def got_annotated(v, rp):
    if not isinstance(v, Lst):
        raise Undecided("result " + type(v).__name__)
    out = []
    for it in v.items:
        its = it.items if isinstance(it, Lst) else it
        node, info = its[0], its[1]
        d = {rp.val(k): x for k, x, l in info.entries}
        cl = rp.val(d["close"])
        out.append((rp.pkof(node.rowid), bool(rp.val(d["open"])), len(cl) if isinstance(cl, (list, tuple)) else cl, rp.val(d["level"])))
        if isinstance(cl, (list, tuple)) and list(cl) != list(range(len(cl))):
            out[-1] = out[-1][:2] + (list(cl),) + out[-1][3:]
    return out


GET = {"rows": got_rows, "row": got_row, "value": lambda v, rp: rp.val(v), "counts": got_counts, "annotated": got_annotated}


def judge_query(op, lay, tr, rp):
    out = []
    T_ = F(lay.forest)
    exp = op.expect(T_, lay.env)

    def dev(key, msg, loc=None):
        out.append(Dev(op.group, f"{op.name}|{op.group}|{key}", msg, tr, lay, loc or last_query(tr)))
    if tr.outcome[0] == "raise":
        dev("raise", f"raises {exc_name(tr.outcome[1])}", outcome_loc(tr))
        return out
    for where, msg in memo_devs(op, tr):
        dev("memo", msg, where)
    if rp.writes:
        dev("writes", "a read operation writes to the database", rp.writelog[0].where)
    try:
        got = GET[op.kind](tr.outcome[1], rp)
    except Undecided:
        if out:
            return out
        raise
    if op.kind == "value" and isinstance(exp, bool):
        if bool(got) != exp:
            dev("value", f"returns {got!r}, must be {exp!r}")
    elif op.kind == "value" and isinstance(got, float):
        dev("type", f"returns the float {got!r}")
    elif got != exp:
        kind = "order" if op.kind == "rows" and sorted(map(str, got)) == sorted(map(str, exp)) else op.kind
        dev(kind, f"returns {got!r}, must be {exp!r}")
    return out


def last_query(tr):
    for e in reversed(tr.effects):
        if getattr(e, "where", None):
            return e.where
    return tr.retloc if getattr(tr, "retloc", None) else None


def query_ops(backends=("MP", "NS", "AL", "LT"), variants=((),), sorted_=False):
    for b in backends:
        for v in variants:
            yield from _query_ops(b, v, sorted_)


def _query_ops(b, v, so):
    def q(meth, spec, expect, **kw):
        return Q(b, meth, spec, expect, variant=v, sorted_=so, **kw)
    N = lambda e: e["node"]
    yield q("get_children", ["node"], lambda t, e: t.ch[N(e)])
    yield q("get_siblings", ["node"], lambda t, e: t.sibs(N(e)))
    yield q("get_ancestors", ["node"], lambda t, e: t.anc(N(e)))
    yield q("get_root_nodes", [], lambda t, e: t.ch[None])
    for upd in (None, True):
        yield q("get_parent", ["node"] + ([("const", True)] if upd else []), lambda t, e: t.par[N(e)], kind="row")
    yield q("get_root", ["node"], lambda t, e: (t.anc(N(e)) + [N(e)])[0], kind="row")
    yield q("get_first_child", ["node"], lambda t, e: one(t.ch[N(e)], 0), kind="row")
    yield q("get_last_child", ["node"], lambda t, e: one(t.ch[N(e)], -1), kind="row")
    yield q("get_first_sibling", ["node"], lambda t, e: t.sibs(N(e))[0], kind="row")
    yield q("get_last_sibling", ["node"], lambda t, e: t.sibs(N(e))[-1], kind="row")
    yield q("get_prev_sibling", ["node"], lambda t, e: t.prev(N(e)), kind="row")
    yield q("get_next_sibling", ["node"], lambda t, e: t.next(N(e)), kind="row")
    yield q("get_first_root_node", [], lambda t, e: one(t.ch[None], 0), kind="row")
    yield q("get_last_root_node", [], lambda t, e: one(t.ch[None], -1), kind="row")
    for md in (None, 0, 1, 2):
        kw = [] if md is None else [("kw", {"max_depth": md})]
        yield q("get_descendants", ["node"] + kw, lambda t, e, md=md: t.desc(N(e), md), group="listing")
        kw2 = [("kw", {"include_self": True, **({} if md is None else {"max_depth": md})})]
        yield q("get_descendants", ["node"] + kw2, lambda t, e, md=md: t.tree(N(e), md), group="listing")
        yield q("get_descendant_count", ["node"] + kw, lambda t, e, md=md: len(t.desc(N(e), md)), kind="value", group="count")
        yield q("get_tree", ([] if md is None else [("kw", {"max_depth": md})]), lambda t, e, md=md: t.tree(None, md), group="listing")
        yield q("get_tree", ["node"] + kw, lambda t, e, md=md: t.tree(N(e), md), group="listing")
    yield q("get_children_count", ["node"], lambda t, e: len(t.ch[N(e)]), kind="value", group="count")
    yield q("get_descendants_group_count", [], lambda t, e: [(n, len(t.desc(n))) for n in t.ch[None]], kind="counts", group="count")
    yield q("get_descendants_group_count", ["node"], lambda t, e: [(n, len(t.desc(n))) for n in t.ch[N(e)]], kind="counts", group="count")
    for md in (None, 1, 2, 3):
        kw = [] if md is None else [("kw", {"max_depth": md})]
        yield q("get_annotated_list", kw, lambda t, e, md=md: annotated(t.tree(None, md), t), kind="annotated", group="annotated")
        yield q("get_annotated_list", ["node"] + kw, lambda t, e, md=md: annotated([n for n in t.tree(N(e)) if md is None or t.dep[n] <= md], t), kind="annotated", group="annotated")
    P = lambda meth, ex: q(meth, ["node", "target"], ex, on="node", kind="value", group="predicate")
    yield P("is_descendant_of", lambda t, e: e["target"] in t.anc(N(e)))
    yield P("is_child_of", lambda t, e: t.par[N(e)] == e["target"])
    yield P("is_sibling_of", lambda t, e: t.par[N(e)] == t.par[e["target"]])
    yield q("is_root", ["node"], lambda t, e: t.par[N(e)] is None, on="node", kind="value", group="predicate")
    yield q("is_leaf", ["node"], lambda t, e: not t.ch[N(e)], on="node", kind="value", group="predicate")
    yield q("get_depth", ["node"], lambda t, e: t.dep[N(e)], on="node", kind="value", group="predicate")
