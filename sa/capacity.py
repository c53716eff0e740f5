"""Materialised paths at the limit of the step width and of the column."""
from .survey import *


def capacity_layouts(op, n):
    for lay in Op.layouts(op, n):
        steps = [s for r in lay.rows.values() for s in r["path"]] or [0]
        deep = max((len(r["path"]) for r in lay.rows.values()), default=0)
        for cap, extra in ((max(steps), 3), (max(steps) + 1, 3), (max(steps) + 9, 0), (max(steps) + 9, 1)):
            if cap < 1 or deep + extra < 1:
                continue
            lay2 = Layout(lay.backend, lay.forest, lay.env, gaps=lay.gaps, keys=lay.keys, newkeys=lay.newkeys, sorted_=lay.sorted_, flags=lay.flags)
            lay2.cap, lay2.maxlen = cap, (deep + extra) * STEPCHARS
            lay2.label = f" capacity {cap}, {deep + extra} levels"
            yield lay2


class CapOp(Op):
    def layouts(self, n):
        return capacity_layouts(self, n)


def judge_capacity(op, lay, tr, rp):
    out = []

    def dev(key, msg, loc=None):
        out.append(Dev("capacity", f"{op.name}|capacity|{key}", msg, tr, lay, loc))
    if tr.outcome[0] == "raise":
        en = exc_name(tr.outcome[1])
        if en not in ("PathOverflow", "InvalidMoveToDescendant"):
            dev(en, f"raises {en} at the limit of the tree, not PathOverflow", outcome_loc(tr))
        return out
    seen = set()
    for i, snap in enumerate(rp.snaps[1:] + [rp.rows]):  # also what is stored in between
        for n, r in snap.items():
            p = r["path"]
            loc = rp.writelog[i].where if i < len(rp.writelog) else last_writer(rp, n, ("path",))
            if any(s > lay.cap for s in p) and (n, 1) not in seen:
                seen.add((n, 1))
                dev(f"step:{role(op, lay, n)}", f"row {n} gets the step {max(p)}, the widest step is {lay.cap}", loc)
            if len(p) * STEPCHARS > lay.maxlen and (n, 2) not in seen:
                seen.add((n, 2))
                dev(f"length:{role(op, lay, n)}", f"row {n} gets a path of {len(p)} steps, the column holds {lay.maxlen // STEPCHARS}", loc)
    return out


def capacity_ops(sortings=(False, ("k1",))):
    for so in sortings:
        for op in mutation_ops(("MP",), sortings=(so,)):
            yield CapOp(op.backend, op.kind, op.pos, op.sorted)
