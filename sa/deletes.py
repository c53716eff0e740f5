"""Deletion of a queryset of nodes / of one node."""
from .queries import *


class Del:
    def __init__(self, backend, on, variant=(), sorted_=False):
        self.backend, self.on, self.variant, self.sorted, self.kind = backend, on, variant, sorted_, "delete"

    @property
    def name(self):
        v = " " + ",".join(self.variant) if self.variant else ""
        return f"{BACKENDS[self.backend]}.{'queryset' if self.on == 'qs' else 'instance'}.delete()" + v

    def paths(self):
        cfg = {"sorted": self.sorted}
        if "proxy" in self.variant:
            cfg["proxy"] = True
        if "alias" in self.variant:
            cfg["alias"] = True
        return paths(self.backend, "delete", [] if self.on == "qs" else ["node"], on=self.on, **cfg)

    schemes = SCHEMES

    def layouts(self, n):
        b = self.backend
        for m in range(0 if self.on == "qs" else 1, n + 1):
            for f in all_forests(m):
                names = [x[0] for x in forest_nodes(f)]
                for gaps in self.schemes:
                    if self.on == "qs":
                        for k in range(0, m + 1):
                            for sel in itertools.combinations(names, k):
                                lay = Layout(b, f, {}, gaps=gaps, flags=self.variant)
                                for r in lay.rows.values():
                                    r["sel"] = r["pk"] in sel
                                lay.sel = sel
                                lay.label = "delete " + ",".join(sel)
                                yield lay
                    else:
                        for x in names:
                            lay = Layout(b, f, {"node": x}, gaps=gaps, flags=self.variant)
                            lay.sel = (x,)
                            yield lay

    def moved(self, lay):
        return None

    def dest_parent(self, lay):
        return None


def drop_all(f, names):
    return tuple((n, drop_all(c, names)) for n, c in f if n not in names)


def judge_delete(op, lay, tr, rp):
    out = []

    def dev(cat, key, msg, loc=None):
        out.append(Dev(cat, f"{op.name}|{cat}|{key}", msg, tr, lay, loc))
    for where, msg in left_behind(tr):
        dev("delete", "kept", msg, where)
    if tr.outcome[0] == "raise":
        dev("delete", "raise", f"raises {exc_name(tr.outcome[1])}", outcome_loc(tr))
        return out
    f0 = fz(lay.forest)
    exp = drop_all(f0, set(lay.sel))
    want = {x[0] for x in forest_nodes(exp)}
    got = set(rp.rows)
    first = rp.writelog[0].where if rp.writelog else last_query(tr)
    if got - want:
        dev("delete", "left", f"rows {sorted(got - want)} are left of [{fstr(f0)}] after deleting {','.join(lay.sel)}", first)
    if want - got:
        dev("delete", "lost", f"rows {sorted(want - got)} of [{fstr(f0)}] are lost after deleting {','.join(lay.sel)}", first)
    f, bad = decode(rp.rows, op.backend, False)
    for kind, n, msg in bad:
        dev("enc", kind, f"row {n}: {msg}", last_writer(rp, n) or first)
    if got == want and not [1 for k, _, _ in bad if k not in ("numchild", "depth")] and f != exp:
        dev("delete", "shape", f"tree becomes [{fstr(f)}], must be [{fstr(exp)}]", first)
    out += judge_signals(op, lay, tr, rp)
    return out


def delete_ops(backends=("MP", "NS", "AL", "LT"), variants=((),)):
    for b in backends:
        for v in variants:
            for on in ("qs", "node"):
                yield Del(b, on, v)
