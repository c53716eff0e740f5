"""What an operation may write: nothing when it reads, only tree columns of other rows when it changes the tree."""
from .admincheck import admin_list_ops
from .bulk import dump_ops
from .deletes import *
from .entries import WRITES
from .formcheck import form_init_ops
from .repair import problem_ops

TREECOLS = {"MP": {"path", "depth", "numchild"}, "NS": {"tree_id", "lft", "rgt", "depth"}, "AL": {"parent", "parent_id", "sib_order"}, "LT": {"path"}}


def judge_readonly(op, lay, tr, rp):
    """obligation: no database write, no signal on any path of a read operation"""
    out = []
    for e in tr.effects:
        if e.kind in WRITES:
            out.append(Dev("write", f"{op.name}|write|{e.kind}", f"a read operation {VERBS.get(e.kind, e.kind)}", tr, lay, e.where))
        elif e.kind == "call" and e.fn.op == "ga" and e.fn.args[1] == "send":
            out.append(Dev("write", f"{op.name}|write|signal", "a read operation sends a signal that announces a change", tr, lay, e.where))
    return out


VERBS = {"update": "updates rows", "delete": "deletes rows", "save": "saves a row", "rowdelete": "deletes a row", "bulk_create": "creates rows", "bulk_update": "updates rows"}


def names_of(v):
    items = v.items if isinstance(v, Lst) else v if isinstance(v, (tuple, list)) else None
    if items is None or not all(isinstance(x, T) and is_const(x) for x in items):
        raise Undecided("field names")
    return {cval(x) for x in items}


def judge_columns(op, lay, tr, rp):
    """obligation: every write to a row other than the one being placed names only tree columns"""
    out = []
    cols = TREECOLS[op.backend]

    def dev(key, msg, loc):
        out.append(Dev("columns", f"{op.name}|columns|{key}", msg, tr, lay, loc))
    own = lay.env.get("node") if op.kind == "move" else None
    for e in tr.effects:
        if e.kind == "update":
            extra = set(e.kw) - cols
            if "**" in extra:
                raise Undecided("update(**)")
            if extra:
                dev("update", f"updates {', '.join(sorted(extra))}, which the tree does not own", e.where)
        elif e.kind == "bulk_update":
            extra = names_of(e.fields) - cols
            if extra:
                dev("update", f"updates {', '.join(sorted(extra))}, which the tree does not own", e.where)
        elif e.kind == "save" and not e.adding:
            uf = e.kwargs.get("update_fields")
            pk = rp.pkof(e.rowid)
            if uf is not None and uf is not NONE:
                extra = names_of(uf) - cols
                if extra and pk != own:
                    dev("save", f"saves {', '.join(sorted(extra))} of row {pk}, which the tree does not own", e.where)
            elif pk != own:
                dev("save", f"saves every column of row {pk}: what others wrote to it since it was read is lost", e.where)
    if tr.outcome[0] != "raise":
        for n, r in lay.rows.items():
            r2 = rp.rows.get(n)
            if r2 is not None and n != own and (r2["k1"], r2["k2"]) != (r["k1"], r["k2"]):
                dev("key", f"a user column of row {n} changes", last_query(tr))
    return out


def read_ops(backends=("MP", "NS", "AL", "LT")):
    """(operation, quick size, thorough size)"""
    for v in ((), ("proxy",)):
        for so in (False, ("k1",)):
            for op in query_ops(backends, (v,), so):
                yield op, 3, 4
    for op in dump_ops(backends):
        yield op, 3, 4
    for op in problem_ops():
        yield op, 3, 3
    for op in form_init_ops(backends):
        yield op, 3, 4
    for op in admin_list_ops(backends):
        yield op, 3, 4
