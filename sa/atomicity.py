"""All or nothing: the writes of one operation happen inside one transaction, on the database they go to."""
from .deletes import *
from .entries import WRITES


def rewrites_path(e):
    return e.kind != "update" or "path" in e.kw or "**" in e.kw


def db_of(u, atomic=False):
    """the database a `using` names: the one the router gives for the model (or row), an alias, or
    what `atomic()` without one uses: the default connection"""
    if u is NONE:
        return "default" if atomic else "routed"
    if isinstance(u, T):
        if u.op in ("dbwrite", "defaultdb", "rowdb"):
            return "routed"
        if u.op == "dbread":
            return "routed for reading"
        if is_const(u):
            return cval(u)
        if u.op == "alias":
            return u
    raise Undecided("database alias")


def written_db(e):
    return db_of(e.using if e.kind == "save" else e.qs.using if hasattr(e, "qs") else NONE)


def is_signal(e):
    return e.kind == "call" and isinstance(e.fn, T) and e.fn.op == "ga" and e.fn.args[1] in ("send", "send_robust") and isinstance(e.fn.args[0], T) and e.fn.args[0].op == "signal"


def judge_atomic(op, lay, tr, rp):
    """obligation: on this path either at most one writing statement is executed, or every one of them
    is inside the same outermost atomic block of the database it writes to, no handler inside that block
    swallows a database error, and the receivers of signals sent after a write run inside the block too"""
    out = []

    def dev(key, msg, loc):
        out.append(Dev("atomic", f"{op.name}|atomic|{key}", msg, tr, lay, loc))
    if tr.outcome[0] == "raise" and not any(e.kind in WRITES for e in tr.effects):
        return out
    n, open_ = 0, []  # (block, database)
    blocks, sent = [], []
    tries, unknown = [], 0
    for e in tr.effects:
        if e.kind == "atomic":
            if e.what == "enter":
                n += 1
                open_.append((n, db_of(e.using, True)))
                if len(open_) == 1:
                    tries = []
                else:
                    tries.append(("savepoint", None))
            else:
                open_.pop()
                while tries and tries.pop()[0] != "savepoint":
                    pass
        elif e.kind == "try":
            tries.append(("try", e))
        elif e.kind == "tryend":
            if tries:
                tries.pop()
        elif e.kind == "with":
            unknown += 1
        elif e.kind in WRITES:
            if op.kind == "fix_tree" and not rewrites_path(e):
                continue  # the columns are repaired independently of each other
            db = written_db(e)
            b = next((k for k, d in open_ if d == db), None)
            blocks.append((b, e, open_[0][1] if open_ and b is None else None))
            inner = []
            for t in reversed(tries):
                if t[0] == "savepoint":
                    break
                inner.append(t[1])
            sw = [t for t in inner if t.swallows]
            if open_ and sw:
                dev("swallowed", f"an error of this write is swallowed inside the transaction (handler at {sw[0].where}), what was written before stays", e.where)
        elif is_signal(e) and blocks:
            sent.append((e, {k for k, _ in open_}))
    ids = {b for b, e, _ in blocks}
    if len(blocks) > 1 and (None in ids or len(ids) > 1):
        if unknown:
            raise Undecided("unknown context manager")
        bad = [x for x in blocks if x[0] is None] or [x for x in blocks if x[0] != blocks[0][0]]
        other = next((d for _, _, d in bad if d is not None), None)
        how = f"a transaction of the database '{other}', not the one they go to" if other is not None and ids == {None} else "no transaction" if ids == {None} else "more than one transaction"
        dev("separate", f"{len(blocks)} writing statements in {how}: if a later one fails the earlier ones stay", bad[0][1].where)
    elif tr.outcome[0] != "raise":
        for e, op_ in sent:
            if None in ids or not ids <= op_:
                if unknown:
                    raise Undecided("unknown context manager")
                dev("signal", "the signal is sent outside the transaction of the writes it reports: if a receiver fails they stay", e.where)
                break
    if tr.outcome[0] == "raise" and len(blocks) == 1 and None in ids:
        if unknown:
            raise Undecided("unknown context manager")
        dev("raise", f"raises {exc_name(tr.outcome[1])} after a write outside a transaction", blocks[0][1].where)
    return out


def judge_alias(op, lay, tr, rp):
    """obligation: on this path every statement, transaction and signal of the deletion names the
    database of the queryset, or the one the router gives for the object being deleted"""
    out = []
    want = "alias" if op.on == "qs" else "rowdb"

    def at(e, u, key, what):
        u = u if isinstance(u, T) else NONE
        if u.op == want:
            return
        if u.op not in ("dbwrite", "dbread", "defaultdb", "rowdb") and not is_const(u):
            raise Undecided("database alias")
        name = {"dbwrite": "the one the router gives for the model", "dbread": "the one the router gives for reading the model", "rowdb": "the database of a row"}.get(u.op) or (
            repr(cval(u)) if is_const(u) and u is not NONE else "the default connection" if e.kind == "atomic" else "the one the router gives for the model")
        own = "the queryset" if op.on == "qs" else "the object"
        out.append(Dev("alias", f"{op.name}|alias|{key}", f"{what} uses {name}, not the database of {own}", tr, lay, e.where))
    if tr.outcome[0] == "raise":
        return out
    for e in tr.effects:
        if e.kind in ("update", "delete", "bulk_create", "bulk_update"):
            at(e, e.qs.using, e.kind, "this statement")
        elif e.kind in ("read", "lock", "fetch"):
            at(e, e.qs.using, "read", "this query")
        elif e.kind == "save" and (e.using is not NONE or e.adding):
            at(e, e.using, "save", "this statement")
        elif e.kind == "atomic" and e.what == "enter":
            at(e, e.using, "atomic", "this transaction")
        elif is_signal(e):
            at(e, e.kwargs.get("using", NONE), "signal", "this signal")
    return out
