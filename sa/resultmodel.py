"""The class of the nodes that read operations return."""
from .queries import *


class ModelOp:
    """a read operation called through the manager of a plain, proxy, proxy-of-proxy or multi-table model"""
    kind = "result model"
    schemes = (False,)

    def __init__(self, q, conf):
        self.q, self.conf = q, conf
        self.backend, self.sorted, self.variant, self.params = q.backend, q.sorted, q.variant, q.params
        self.mti = conf == "child"

    @property
    def name(self):
        return f"{self.q.name} of a {dict(plain='plain model', proxy='proxy model', proxy2='proxy of a proxy model', child='multi-table child model', childproxy='proxy of a multi-table child model')[self.conf]}"

    def paths(self):
        q = self.q
        return paths(self.backend, q.meth, q.argspec, on=q.on, sorted=self.sorted, models=self.conf)

    def layouts(self, n):
        yield from self.q.layouts(n)


def judge_model(op, lay, tr, rp):
    out = []
    M = tr.entry_model
    want = M.treebase if is_child_model(M.concrete) else M

    def dev(key, msg):
        out.append(Dev("model", f"{op.name}|model|{key}", msg, tr, lay, last_query(tr)))

    def see(v):
        if isinstance(v, Row):
            if v.rowid.op != "param" and v.model is not want:
                dev("class", f"returns instances of {label(v.model)}, must be {label(want)}")
        elif isinstance(v, QS):
            if v.model is not want:
                dev("class", f"returns a queryset of {label(v.model)}, must be {label(want)}")
        elif isinstance(v, T) and v.op == "qs":
            see(v.args[0])
        elif isinstance(v, Lst):
            for i in v.items:
                see(i.items[0] if isinstance(i, Lst) else i[0] if isinstance(i, tuple) else i)

    def label(m):
        return "the tree model" if m is m.treebase else "the model itself" if m is M else f"another class ({m.name})"
    if tr.outcome[0] == "raise":
        out.append(Dev("model", f"{op.name}|model|raise", f"raises {exc_name(tr.outcome[1])}", tr, lay, outcome_loc(tr)))
    else:
        see(tr.outcome[1])
    return out


def model_ops(backends=("MP", "NS", "AL", "LT")):
    for b in backends:
        for so in (False, ("k1",)):
            for q in query_ops((b,), ((),), so):
                if q.kind in ("rows", "row", "counts", "annotated"):
                    for conf in ("plain", "proxy", "proxy2", "child", "childproxy"):
                        yield ModelOp(q, conf)
