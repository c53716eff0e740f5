"""Creation arguments, and the node level API that forwards to the manager."""
from .queries import *

CLASSLEVEL = {"load_bulk", "dump_bulk", "get_root_nodes", "get_first_root_node", "get_last_root_node", "find_problems", "fix_tree",
              "get_tree", "get_descendants_group_count", "get_annotated_list_qs", "get_annotated_list"}


class DictArg:
    def __init__(self, d):
        self.d = d

    def __repr__(self):
        return repr(self.d)

    def make(self, I):
        d = Dct()
        d.entries = [[const(k), const(v), None] for k, v in self.d.items()]
        return d


class Create(Op):
    """add_* with one way to pass the new node; style: instance, kwargs, empty, both, neither, saved"""
    style = "instance"
    legacy = False
    schemes = (False, True)
    MUST = {"both": "ValueError", "neither": "ValueError", "nones": "ValueError", "saved": "NodeAlreadySaved"}

    @property
    def name(self):
        return super().name + f" {'deprecated call' if self.legacy else 'called'} with {self.style}"

    def paths(self):
        k, pos = self.kind, ([] if self.pos is None and not (self.style.startswith("positional") and self.kind == "add_sibling") else [("const", self.pos)])
        args = {"instance": [("new", "new")], "saved": [("kw", {"instance": ("row", "saved")})], "neither": [],
                "nones": [("kw", {"create_kwargs": None, "instance": None})], "instance, no create_kwargs": [("new", "new"), ("kw", {"create_kwargs": None})],
                "create_kwargs, no instance": [("kwdict", {"create_kwargs": {"desc": "NEW"}}), ("kw", {"instance": None})],
                "positional create_kwargs": [("make", DictArg({"desc": "NEW"}))]}.get(self.style)
        if args is None:
            d = {} if self.style == "empty" else {"desc": "NEW"}
            args = [("kw", d)] if self.legacy else [("kwdict", {"create_kwargs": d})]
            if self.style == "both":
                args.append(("new", "new"))
        spec = (["target"] if k != "add_root" else []) + pos + args
        on = "manager" if not self.legacy else "model" if k == "add_root" else "node"
        cfg = {"sorted": self.sorted}
        if "proxy" in self.variant:
            cfg["proxy"] = True
        return paths(self.backend, k, spec, on=on, **cfg)

    @property
    def params(self):
        return super().params + (["saved"] if self.style == "saved" else [])


def judge_creation(op, lay, tr, rp):
    out = []

    def dev(key, msg, loc=None):
        out.append(Dev("creation", f"{op.name}|creation|{key}", msg, tr, lay, loc))
    must = op.MUST.get(op.style)
    raised = exc_name(tr.outcome[1]) if tr.outcome[0] == "raise" else None
    if must:
        if raised is None:
            dev("accepted", f"accepted, must raise {must}", (effect_sites(tr) or [last_query(tr)])[0])
        elif raised != must:
            dev("exception", f"raises {raised}, must raise {must}", outcome_loc(tr))
        if rp.writes:
            dev("written", "rows were written although the call is refused", rp.writelog[0].where)
        return out
    if raised is not None:
        dev("raise", f"valid call raises {raised}", outcome_loc(tr))
        return out
    new = [n for n in rp.rows if n not in lay.rows]
    if len(new) != 1:
        dev("rows", f"creates {len(new)} rows, must create one", (effect_sites(tr) or [None])[-1])
        return out
    res = tr.outcome[1]
    if not isinstance(res, Row) or rp.pkof(res.rowid) != new[0]:
        dev("result", "does not return the node it created", (effect_sites(tr) or [None])[-1])
    elif op.style.startswith("instance") and res is not tr.params["new"]:
        dev("identity", "the returned node is not the instance that was passed in", (effect_sites(tr) or [None])[-1])
    if "kwargs" in op.style and not op.style.startswith("instance") and new[0] != "NEW":
        dev("values", "the new row does not have the values given for it", (effect_sites(tr) or [None])[-1])
    return out


def creation_ops(backends=("MP", "NS", "AL", "LT"), styles=("instance", "kwargs", "empty", "both", "neither", "saved", "nones", "instance, no create_kwargs", "create_kwargs, no instance", "positional create_kwargs"), legacy=False, sortings=(False, ("k1",)), variants=((),)):
    for op in mutation_ops(backends, ("add_root", "add_child", "add_sibling"), sortings, variants):
        for st in styles:
            c = Create(op.backend, op.kind, op.pos, op.sorted, op.variant)
            c.style, c.legacy = st, legacy
            yield c


class LegacyMove(Op):
    schemes = (False, True)

    @property
    def name(self):
        return super().name + " deprecated call"

    def paths(self):
        cfg = {"sorted": self.sorted}
        if "proxy" in self.variant:
            cfg["proxy"] = True
        return paths(self.backend, "move", ["node", "target"] + ([] if self.pos is None else [("const", self.pos)]), on="node", **cfg)


HANDLERS = {"add_root": "MP_AddRootHandler", "add_child": "MP_AddChildHandler", "add_sibling": "MP_AddSiblingHandler", "move": "MP_MoveHandler"}


class HandlerCreate(Create):
    """process() of the handler classes of materialized-path trees"""
    legacy = True

    @property
    def name(self):
        return super().name + " of " + HANDLERS[self.kind]

    def paths(self):
        spec = (["target"] if self.kind != "add_root" else []) + ([("const", self.pos)] if self.kind == "add_sibling" else [])
        return paths(self.backend, HANDLERS[self.kind], spec + [("new", "new") if self.style == "instance" else ("kw", {"desc": "NEW"})], on="handler", sorted=self.sorted)


class HandlerMove(LegacyMove):
    @property
    def name(self):
        return super().name + " of MP_MoveHandler"

    def paths(self):
        return paths(self.backend, "MP_MoveHandler", ["node", "target"] + ([] if self.pos is None else [("const", self.pos)]), on="handler", sorted=self.sorted)


def handler_ops():
    for so in (False, ("k1",)):
        for op in mutation_ops(("MP",), ("move",), (so,)):
            yield HandlerMove(op.backend, op.kind, op.pos, op.sorted)
    for op in creation_ops(("MP",), ("instance", "kwargs"), legacy=True):
        op.__class__ = HandlerCreate
        yield op


class LegacyQ(Q):
    @property
    def name(self):
        return super().name + " deprecated call"


def legacy_queries(backends=("MP", "NS", "AL", "LT")):
    for b in backends:
        for q in _legacy(b):
            yield q


def _legacy(b):
    from .queries import _query_ops
    for q in _query_ops(b, (), False):
        if q.on != "manager":
            continue
        q.on = "model" if q.meth in CLASSLEVEL else "node"
        q.__class__ = LegacyQ
        q.schemes = (False,)
        yield q


def warned(judge):
    """a deprecated call also warns, naming the release that removes it"""
    def f(op, lay, tr, rp):
        out = judge(op, lay, tr, rp)
        ws = [e for e in tr.effects if e.kind == "warn"]
        if tr.outcome[0] != "raise" and not any(category(e).startswith("RemovedInTreebeard") for e in ws):
            out.append(Dev("legacy", f"{op.name}|legacy|warning", f"warns with {category(ws[0])}, which users do not see as a deprecation of treebeard" if ws else "does not warn that it is deprecated", tr, lay, ws[0].where if ws else outcome_loc(tr)))
        return out
    f.__name__ = judge.__name__ + "_warned"
    return f


def category(e):
    c = e.args[1] if len(e.args) > 1 else e.kwargs.get("category")
    if c is None:
        return "UserWarning"
    if isinstance(c, Cls):
        return c.ci.name
    raise Undecided(f"warning category {c!r}")


def judge_legacy(op, lay, tr, rp):
    out = judge_query(op, lay, tr, rp)
    for d in out:
        d.cat, d.key = "legacy", d.key.replace(f"|{op.group}|", "|legacy|")
    return out


def legacy_mutations(backends=("MP", "NS", "AL", "LT")):
    for so in (False, ("k1",)):
        for op in mutation_ops(backends, ("move",), (so,)):
            m = LegacyMove(op.backend, op.kind, op.pos, op.sorted)
            yield m
    yield from creation_ops(backends, ("instance", "kwargs"), legacy=True)
