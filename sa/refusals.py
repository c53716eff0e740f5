"""Refusal of positions: which exception, and nothing written before it."""
from .survey import *

BAD = ("bogus", "", "last", "sorted", "First-Sibling", 0, 3)
SIB = UNSORTED_SIB + ("sorted-sibling",)
MOVE = SIB + UNSORTED_CHILD + ("sorted-child",)


class PosOp(Op):
    """add_sibling / move with a position that may be invalid"""

    def must(self):
        """name of the exception the position must be refused with, or None"""
        p = self.pos
        if p is None:
            return None
        if p not in (SIB if self.kind == "add_sibling" else MOVE):
            return "InvalidPosition"
        if self.sorted:
            return None if p.startswith("sorted") else "InvalidPosition"
        return "MissingNodeOrderBy" if p.startswith("sorted") else None

    def effpos(self):
        return super().effpos() if isinstance(self.pos, str) or self.pos is None else "?"

    @property
    def name(self):
        s = " sorted" if self.sorted else ""
        return f"{BACKENDS[self.backend]}.{self.kind}({self.pos!r}){s}"


def judge_position(op, lay, tr, rp):
    out = []

    def dev(key, msg, loc=None):
        out.append(Dev("position", f"{op.name}|position|{key}", msg, tr, lay, loc))
    must = op.must()
    raised = exc_name(tr.outcome[1]) if tr.outcome[0] == "raise" else None
    if must is None:
        if raised in ("InvalidPosition", "MissingNodeOrderBy"):
            dev("refused", f"the position {op.pos!r} is valid but raises {raised}", outcome_loc(tr))
        return out
    also = ("InvalidMoveToDescendant",) if op.kind == "move" and (op.refuse(lay) or lay.env["node"] == lay.env["target"]) else ()
    if raised is None:
        dev("accepted", f"the position {op.pos!r} is accepted, must raise {must}", (effect_sites(tr) or [None])[0])
    elif raised != must and raised not in also:
        dev("exception", f"the position {op.pos!r} raises {raised}, must raise {must}", outcome_loc(tr))
    if raised is not None and rp.writes:
        dev("written", "rows were written before the refusal", rp.writelog[0].where)
    return out


def position_ops(backends=("MP", "NS", "AL", "LT")):
    for b in backends:
        for so in (False, ("k1",)):
            for kind in ("add_sibling", "move"):
                for p in (None,) + MOVE + BAD:
                    op = PosOp(b, kind, p, so)
                    op.schemes = (False,)
                    yield op
