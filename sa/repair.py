"""find_problems and fix_tree on damaged tables."""
from . import layout as L
from .deletes import *

HALF = L.HALF


def damaged(lay, muts, label):
    lay2 = Layout(lay.backend, lay.forest, lay.env, gaps=lay.gaps, keys=lay.keys, newkeys=lay.newkeys, sorted_=lay.sorted_, flags=lay.flags)
    for m in muts:
        kind, n, v = m
        if kind == "gone":
            del lay2.rows[n]
        elif kind in ("evil", "half"):
            old = lay2.rows[n]["path"]
            for r in lay2.rows.values():
                if r["path"][:len(old)] == old:
                    r["path"] = old[:-1] + ((L.EVIL if kind == "evil" else HALF),) + r["path"][len(old):]
        else:
            lay2.rows[n][kind] = v
    lay2.muts = muts
    lay2.label = label
    return lay2


def single_mp(lay, cols=("depth", "numchild")):
    for n, r in lay.rows.items():
        if "depth" in cols:
            for d in range(0, 5):
                if d != r["depth"]:
                    yield ("depth", n, d)
        if "numchild" in cols:
            for c in range(0, 4):
                if c != r["numchild"]:
                    yield ("numchild", n, c)
        if "path" in cols:
            yield ("gone", n, None)
            yield ("evil", n, None)
            if not lay.kids[n]:
                yield ("half", n, None)


def single_ns(lay):
    top = 2 * len(lay.rows) + 1
    for n, r in lay.rows.items():
        for c in ("lft", "rgt"):
            for v in range(0, top + 1):
                if v != r[c]:
                    yield (c, n, v)
        for d in range(0, 5):
            if d != r["depth"]:
                yield ("depth", n, d)
        for t in sorted({x["tree_id"] for x in lay.rows.values()} | {99}):
            if t != r["tree_id"]:
                yield ("tree_id", n, t)


class Problems:
    """find_problems([parent])"""

    def __init__(self, backend, parent=False, variant=()):
        self.backend, self.parent, self.variant, self.sorted, self.kind = backend, parent, variant, False, "find_problems"

    @property
    def name(self):
        return f"{BACKENDS[self.backend]}.find_problems({'node' if self.parent else ''})" + (" proxy" if self.variant else "")

    def paths(self):
        cfg = {"sorted": False, "trust_depth": False, "trust_cols": False}
        if "proxy" in self.variant:
            cfg["proxy"] = True
        return paths(self.backend, "find_problems", ["node"] if self.parent else [], **cfg)

    def layouts(self, n):
        b = self.backend
        for m in range(1, n + 1):
            for f in all_forests(m):
                names = [x[0] for x in forest_nodes(f)]
                for anchor in (names if self.parent else [None]):
                    env = {"node": anchor} if anchor else {}
                    for gaps in (False, True):
                        lay = Layout(b, f, env, gaps=gaps, flags=self.variant)
                        yield damaged(lay, (), "")
                        ss = list(single_mp(lay, ("depth", "numchild", "path")) if b == "MP" else single_ns(lay))
                        for s in ss:
                            if s[1] == anchor:
                                continue
                            yield damaged(lay, (s,), f" with {s}")
                        if m <= 3 and not gaps:
                            for s, s2 in itertools.combinations(ss, 2):
                                if s[1] == s2[1] or anchor in (s[1], s2[1]) or {s[0], s2[0]} & {"evil", "half"}:
                                    continue
                                yield damaged(lay, (s, s2), f" with {s} {s2}")


def defects_mp(rows):
    paths_ = {r["path"] for r in rows.values()}
    out = {n: set() for n in rows}
    unsure = set()
    for n, r in rows.items():
        p = r["path"]
        if L.EVIL in p:
            out[n].add(0)
        if HALF in p:
            out[n].add(1)
        if not out[n]:
            if len(p) > 1 and p[:-1] not in paths_:
                out[n].add(2)
            if r["depth"] != len(p):
                out[n].add(3)
            if any(q["path"][:len(p)] == p and len(q["path"]) == len(p) + 1 and (L.EVIL in q["path"] or HALF in q["path"]) for q in rows.values()):
                unsure.add(n)
            elif r["numchild"] != sum(1 for q in rows.values() if q["path"][:-1] == p and len(q["path"]) == len(p) + 1):
                out[n].add(4)
    return out, unsure


def judge_problems(op, lay, tr, rp):
    out = []

    def dev(key, msg, loc=None):
        out.append(Dev("problems", f"{op.name}|problems|{key}", msg, tr, lay, loc or last_query(tr)))
    for where, msg in left_behind(tr):
        dev("kept", msg, where)
    if tr.outcome[0] == "raise":
        dev("raise", f"raises {exc_name(tr.outcome[1])}", outcome_loc(tr))
        return out
    if rp.writes:
        dev("writes", "writes to the database", rp.writelog[0].where)
    res = tr.outcome[1]
    res = res.items if isinstance(res, Lst) else res
    lists = [[rp.val(x) for x in (l.items if isinstance(l, Lst) else l)] for l in res]
    want = 5 if op.backend == "MP" else 4
    if len(lists) != want:
        dev("lists", f"returns {len(lists)} lists, must be {want}")
        return out
    rows = lay.rows
    NAMES = {"MP": ("bad characters", "bad path length", "orphans", "wrong depth", "wrong numchild"), "NS": ("reversed", "overlapping", "duplicate tree", "wrong depth")}[op.backend]
    where = {}
    for i, l in enumerate(lists):
        for x in l:
            where.setdefault(x, []).append(i)
    scope = set(rows)
    if op.backend == "MP":
        if op.parent:
            pp = rows[lay.env["node"]]["path"]
            scope = {n for n in rows if rows[n]["path"][:len(pp)] == pp}
        d, unsure = defects_mp(rows)
        for n in rows:
            w = where.get(n, [])
            if n not in scope:
                if w:
                    dev("scope", f"row {n} outside the branch is reported")
                continue
            for i in w:
                if i not in d[n] and not (i == 4 and n in unsure):
                    dev(f"false:{NAMES[i]}", f"row {n} is reported under '{NAMES[i]}' without that defect: {rows[n]}")
            if d[n] and min(d[n]) not in w:
                dev(f"missed:{NAMES[min(d[n])]}", f"row {n} has the defect '{NAMES[min(d[n])]}' but is not reported under it")
        return out
    # nested sets
    if op.parent:
        if any(m[0] != "depth" for m in lay.muts):
            return out
        scope = {n for n in rows if n == lay.env["node"] or lay.is_desc(n, lay.env["node"])}
    bad = {i: set() for i in range(4)}
    roots = {}
    for n, r in rows.items():
        if r["rgt"] <= r["lft"]:
            bad[0].add(n)
    ok = [n for n in rows if n not in bad[0]]
    cont = {n: 0 for n in ok}
    for a in ok:
        for b in ok:
            if a == b or rows[a]["tree_id"] != rows[b]["tree_id"]:
                continue
            la, ra, lb, rb = rows[a]["lft"], rows[a]["rgt"], rows[b]["lft"], rows[b]["rgt"]
            if lb < la and ra < rb:
                cont[a] += 1
            elif not (ra < lb or rb < la or (la < lb and rb < ra)):
                bad[1].add(a)
    for n in ok:
        if cont[n] == 0:
            roots.setdefault(rows[n]["tree_id"], []).append(n)
    for t, ns in roots.items():
        if len(ns) > 1:
            bad[2].update(ns)
    clean = not (bad[0] or bad[1] or bad[2])
    for n in ok:
        if rows[n]["depth"] != cont[n] + 1:
            bad[3].add(n)
    for n, w in where.items():
        if n not in scope:
            dev("scope", f"row {n} outside the branch is reported")
        for i in w:
            if n not in bad[i] and (i in (0,) or clean or (i == 1 and not bad[1]) or (i == 2 and not bad[2] and not bad[1])):
                dev(f"false:{NAMES[i]}", f"row {n} is reported under '{NAMES[i]}' without that defect: {rows[n]}")
    for n in bad[0] & scope:
        if 0 not in where.get(n, []):
            dev("missed:reversed", f"row {n} has rgt <= lft but is not reported")
    for i in (1, 2):
        if bad[i] and not bad[0] and not op.parent and not any(lists[j] for j in (1, 2)):
            dev(f"missed:{NAMES[i]}", f"rows {sorted(bad[i])} are {NAMES[i]} but nothing is reported: {rows}")
    if clean:
        for n in bad[3] & scope:
            if 3 not in where.get(n, []):
                dev("missed:wrong depth", f"row {n} has depth {rows[n]['depth']} at level {cont[n] + 1} but is not reported")
    return out


def problem_ops():
    for b in ("MP", "NS"):
        for p in (False, True):
            yield Problems(b, p)
        yield Problems(b, False, ("proxy",))


class Fix:
    """fix_tree([fix_paths][, parent])"""
    backend, kind = "MP", "fix_tree"

    def __init__(self, fix_paths, parent=False, sorted_=False, variant=()):
        self.fix_paths, self.parent, self.sorted, self.variant = fix_paths, parent, sorted_, variant

    @property
    def name(self):
        v = " " + ",".join(self.variant) if self.variant else ""
        s = " node_order_by=" + ",".join(self.sorted) if self.sorted else ""
        return f"MP_Node.fix_tree({'fix_paths' if self.fix_paths else ''}{',parent' if self.parent else ''}){s}{v}"

    def paths(self):
        kw = {}
        if self.fix_paths:
            kw["fix_paths"] = True
        if self.parent:
            kw["parent"] = ("row", "node")
        return paths("MP", "fix_tree", [("kw", kw)] if kw else [], sorted=self.sorted, **({"proxy": True} if "proxy" in self.variant else {}))

    def moved(self, lay):
        return None

    def dest_parent(self, lay):
        return None

    def layouts(self, n):
        for m in range(1, n + 1):
            for f in all_forests(m):
                names = [x[0] for x in forest_nodes(f)]
                for anchor in (names if self.parent else [None]):
                    env = {"node": anchor} if anchor else {}
                    for gaps in SCHEMES:
                        for ks in (self.keyings(f, env) if self.sorted else (None,)):
                            lay = Layout("MP", f, env, gaps=gaps, keys=ks, sorted_=bool(self.sorted), flags=self.variant)
                            yield damaged(lay, (), "")
                            if self.sorted and gaps:
                                continue
                            for s in single_mp(lay):
                                if s[1] == anchor or (s[0] == "numchild" and s[2] > 2) or (s[0] == "depth" and s[2] > 4):
                                    continue
                                yield damaged(lay, (s,), f" with {s}")
                            if m > 1:
                                all_ = tuple(x for nm in names if nm != anchor for x in (("depth", nm, 1 + (lay.rows[nm]["depth"] % 3)), ("numchild", nm, (lay.rows[nm]["numchild"] + 1) % 3)))
                                yield damaged(lay, all_, " with every depth and numchild wrong")

    def keyings(self, f, env):
        nodes = [n for n, p, d, c in forest_nodes(f)]
        k = len(nodes)
        base = [tuple(range(k)), tuple(reversed(range(k)))]
        base += [p for p in itertools.permutations(range(k))] if k <= 3 else [(1, 0, 3, 2)[:k] + tuple(range(4, k)), (2, 3, 0, 1)[:k] + tuple(range(4, k)), (1, 2, 3, 0)[:k] + tuple(range(4, k))]
        seen = set()
        for p in base:
            if p in seen:
                continue
            seen.add(p)
            yield {n: (10 * (v + 1), 0) for n, v in zip(nodes, p)}


def judge_fix(op, lay, tr, rp):
    out = []

    def dev(key, msg, loc=None):
        out.append(Dev("fix", f"{op.name}|fix|{key}", msg, tr, lay, loc or (rp.writelog[-1].where if rp.writelog else last_query(tr))))
    for where, msg in left_behind(tr):
        dev("kept", msg, where)
    if tr.outcome[0] == "raise":
        dev("raise", f"raises {exc_name(tr.outcome[1])}", outcome_loc(tr))
        return out
    for i, snap in enumerate(rp.snaps[1:]):
        w = constraint("MP", snap)
        if w:
            dev("constraint:" + w[0], f"breaks a constraint of the table on the way: {w[1]}", rp.writelog[i].where if i < len(rp.writelog) else None)
            break
    rows = rp.rows
    if set(rows) != set(lay.rows):
        dev("rows", "rows were added or removed")
        return out
    anchor = lay.env.get("node")
    scope = {n for n in rows if anchor is None or n == anchor or lay.is_desc(n, anchor)}
    for n in rows:
        if n not in scope:
            if {c: rows[n][c] for c in COLS["MP"]} != {c: lay.rows[n][c] for c in COLS["MP"]}:
                dev("scope", f"row {n} outside the branch was changed", last_writer(rp, n))
            continue
        p = rows[n]["path"]
        if rows[n]["depth"] != len(p):
            dev("depth", f"row {n} has depth {rows[n]['depth']} with a path of {len(p)} steps afterwards", last_writer(rp, n, ("depth",)))
        c = sum(1 for q in rows.values() if q["path"][:-1] == p)
        if rows[n]["numchild"] != c:
            dev("numchild", f"row {n} has numchild {rows[n]['numchild']} with {c} children afterwards", last_writer(rp, n, ("numchild",)))
        if not op.fix_paths and p != lay.rows[n]["path"]:
            dev("path", f"the path of row {n} was changed", last_writer(rp, n, ("path",)))
    bypath = {r["path"]: n for n, r in rows.items()}
    if len(bypath) != len(rows):
        dev("path", "two rows have the same path afterwards")
        return out
    for n in rows:
        par = bypath.get(rows[n]["path"][:-1])
        if par != lay.par[n]:
            dev("parent", f"row {n} is under {par} afterwards, was under {lay.par[n]}", last_writer(rp, n, ("path",)))
            return out
    if op.fix_paths:
        for par in [None] + list(rows):
            if (par is None and anchor is not None) or (par is not None and par not in scope):
                continue
            kids = sorted((n for n in rows if lay.par[n] == par), key=lambda n: rows[n]["path"])
            if [rows[n]["path"][-1] for n in kids] != list(range(1, len(kids) + 1)):
                dev("holes", f"the children of {par} are numbered {[rows[n]['path'][-1] for n in kids]} afterwards", last_writer(rp, kids[0], ("path",)))
            want = list(lay.kids[par])
            if op.sorted:
                ks = [key_of(op, rows[n]) for n in kids]
                if ks != sorted(ks):
                    dev("order", f"the children of {par} are not in node_order_by order afterwards: {list(zip(kids, ks))}", last_writer(rp, kids[0], ("path",)))
            elif kids != want:
                dev("order", f"the children of {par} change their order from {want} to {kids}", last_writer(rp, kids[0], ("path",)))
    # a mirror that follows path_updated
    shadow = {n: {"path": r["path"], "depth": r["depth"]} for n, r in lay.rows.items()}
    for item in rp.siglog:
        if item[0] == "save":
            shadow[item[1]] = dict(item[2])
        elif item[0] == "signal":
            if any(v is Undecided for k, v in item[2].items() if k not in ("using", "sender")):
                raise Undecided("signal payload")
            apply_signal("MP", shadow, item[2])
    for n in rows:
        if shadow[n]["path"] != rows[n]["path"]:
            dev("signal", f"a mirror following path_updated has {shadow[n]['path']} for row {n}, the row has {rows[n]['path']}", sig_loc(rp) or last_writer(rp, n, ("path",)))
    return out


def fix_ops():
    for fp in (False, True):
        for par in (False, True):
            for so in (False, ("k1",), ("-k1",)):
                if so and not fp:
                    continue
                yield Fix(fp, par, so)
    yield Fix(False, variant=("mysql",))
    yield Fix(True, variant=("proxy",))
