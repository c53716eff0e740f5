"""Operations on a node object that was loaded before the tree changed; the lock that makes them safe."""
import copy
from .deletes import *
from .entries import WRITES

COLS = {"MP": ("path", "depth", "numchild"), "NS": ("tree_id", "lft", "rgt", "depth"), "AL": ("parent_id", "sib_order"), "LT": ("path",)}


def stale_values(backend, n, gaps):
    """the column values a node can have had: those of every position of every forest"""
    out = {}
    for m in range(1, n + 1):
        for f in all_forests(m):
            for r in encode(f, backend, gaps).values():
                v = {c: r[c] for c in COLS[backend]}
                out.setdefault(repr(v), v)
    return list(out.values())


class Stale:
    """an operation whose node object holds the columns of another position"""

    def __init__(self, op, param):
        self.op, self.param = op, param

    def __getattr__(self, n):
        if n == "op" or n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.op, n)

    @property
    def name(self):
        return self.op.name + f" with a stale {self.param}"

    def layouts(self, n):
        known = {}
        for lay in self.op.layouts(n):
            if lay.gaps not in known:
                known[lay.gaps] = stale_values(self.backend, min(n, 3), lay.gaps)
            x = lay.env[self.param]
            for v in known[lay.gaps]:
                if any(lay.rows[x][c] != v[c] for c in v):
                    if self.backend == "AL" and v["parent_id"] is not None and (v["parent_id"] not in lay.rows or v["parent_id"] == x):
                        continue
                    l2 = copy.copy(lay)
                    l2.stale = {x: v}
                    l2.label = f"{lay.label} object loaded when {', '.join(f'{c}={v[c]}' for c in v)}"
                    yield l2


def not_waiting(q, lay, pk):
    """a lock that others are not kept out by: skip_locked, or only the table of the child model"""
    a = dict(q.lockargs)
    if a.get("skip_locked", FALSE) is not FALSE:
        return True
    of = a.get("of")
    if of is not None and lay.mti and pk in lay.mti and q.model.name == "K":
        if "parent" not in repr(of) and "ptr" not in repr(of) and "link" not in repr(of):
            return True
    return False


def judge_lock(op, lay, tr, rp):
    """obligation: the first statement that touches the tree selects the row of the parent FOR UPDATE, and the
    transaction that holds the lock is still open at every later write"""
    out = []

    def dev(key, msg, loc):
        out.append(Dev("lock", f"{op.name}|lock|{key}", msg, tr, lay, loc))
    if tr.outcome[0] == "raise":
        return out
    pk = lay.env["target"]
    depth, block, held = 0, 0, None
    first = None
    for e in tr.effects:
        if e.kind == "atomic":
            if e.what == "enter":
                depth += 1
                block += depth == 1
            else:
                depth -= 1
        elif e.kind == "with":
            raise Undecided("unknown context manager")
        elif e.kind == "read":
            if held is None and first is None and not e.qs.lock:
                first = e
        elif e.kind == "lock":
            rows = rp.rows_of(rp.norm(e.qs), 0)
            if e.how in ("first", "last", "index", "exists"):
                rows = rows[-1:] if e.how == "last" else rows[:1]
            if not_waiting(e.qs, lay, pk):
                continue
            if held is None and [r["pk"] for r in rows] == [pk]:
                if not depth:
                    dev("outside", "the parent row is locked outside a transaction", e.where)
                held = block
        elif e.kind in WRITES:
            if held is None:
                dev("none", "writes the new child before (or without) locking the row of its parent: two callers can be given the same place", e.where)
                return out
            if not depth or block != held:
                dev("released", "the lock on the parent row is released before this write", e.where)
                return out
    if held is not None and first is not None:
        dev("late", "reads the tree before the parent row is locked: what it read can be outdated when the child is written", first.where)
    return out


def stale_ops(backends=("MP", "NS", "AL", "LT")):
    for so in (False, ("k1",)):
        for op in mutation_ops(backends, ("add_child",), (so,)):
            yield Stale(op, "target")


def stale_delete_ops(backends=("MP", "NS", "AL", "LT")):
    for b in backends:
        yield Stale(Del(b, "node"), "node")
