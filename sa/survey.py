"""Operations of the tree API, the layouts they are decided on, and the judges.

A judge compares the transfer of the one feasible path (layout.Replay) with the
specification of the operation and reports deviations, each tagged with a
category, so that every property can claim the categories it speaks about.
"""
import itertools

from .entries import *
from .memo import memos, left_behind

UNSORTED_SIB = ("first-sibling", "left", "right", "last-sibling")
UNSORTED_CHILD = ("first-child", "last-child")


class Dev:
    """one deviation"""

    def __init__(self, cat, key, msg, tr=None, lay=None, loc=None):
        self.cat, self.key, self.msg, self.tr, self.lay, self.loc = cat, key, msg, tr, lay, loc

    def __repr__(self):
        return f"<{self.cat} {self.key}: {self.msg}>"


class Op:
    def __init__(self, backend, kind, pos=None, sorted_=False, variant=(), created="instance"):
        self.backend, self.kind, self.pos, self.sorted, self.variant = backend, kind, pos, sorted_, variant
        self.created = created

    @property
    def name(self):
        p = f"({self.pos})" if self.pos else ""
        s = " node_order_by=" + ",".join(self.sorted) if self.sorted else ""
        v = " " + ",".join(self.variant) if self.variant else ""
        return f"{BACKENDS[self.backend]}.{self.kind}{p}{s}{v}" + getattr(self, "suffix", "")

    @property
    def params(self):
        return {"move": ["node", "target"], "add_sibling": ["target"], "add_child": ["target"], "add_root": []}[self.kind]

    def paths(self):
        k = self.kind
        pos = [] if self.pos is None else [("const", self.pos)]
        new = [("new", "new")]
        spec = {"move": ["node", "target"] + pos, "add_sibling": ["target"] + pos + new, "add_child": ["target"] + new, "add_root": new}[k]
        cfg = {"sorted": self.sorted}
        if "cached" in self.variant:
            cfg["cached_parent"] = True
        if "proxy" in self.variant:
            cfg["proxy"] = True
        base = tuple(v[5:] for v in self.variant if v.startswith("base-"))
        if base:
            cfg["base"] = base
        return paths(self.backend, k, spec, **cfg)

    def effpos(self):
        """the position the call stands for"""
        if self.kind == "add_child":
            return "sorted-child" if self.sorted else "last-child"
        if self.kind == "add_root":
            return "sorted-root" if self.sorted else "last-root"
        if self.pos is None:
            return "sorted-sibling" if self.sorted else "last-sibling"
        return self.pos

    # ------------------------------------------------------------ layouts
    schemes = SCHEMES

    def layouts(self, n):
        b = self.backend
        for m in range(1 if self.params else 0, n + 1):
            for f in all_forests(m):
                names = [x[0] for x in forest_nodes(f)]
                for combo in itertools.product(names, repeat=len(self.params)):
                    env = dict(zip(self.params, combo))
                    for gaps in self.schemes:
                        if self.sorted:
                            for keys, nk in key_schemes(f, env, self):
                                yield Layout(b, f, env, gaps=gaps, keys=keys, newkeys=nk, sorted_=True, flags=self.variant)
                        else:
                            yield Layout(b, f, env, gaps=gaps, flags=self.variant)

    def refuse(self, lay):
        """must the call be refused?"""
        if self.kind != "move":
            return False
        node, target = lay.env["node"], lay.env["target"]
        if lay.is_desc(target, node):
            return True
        return self.effpos().endswith("child") and node == target

    def expected(self, lay):
        f = fz(lay.forest)
        p = self.effpos()
        new = ("NEW", ())
        if self.kind == "move":
            return expected_move(f, lay.env["node"], lay.env["target"], p)
        if self.kind == "add_sibling":
            return insert_sibling(f, lay.env["target"], new, p)
        if self.kind == "add_child":
            return insert_child(f, lay.env["target"], new, p)
        return f + (new,)

    def moved(self, lay):
        return lay.env["node"] if self.kind == "move" else "NEW"

    def dest_parent(self, lay):
        """name of the parent the node must end under"""
        if self.kind == "add_root":
            return None
        t = lay.env["target"]
        if self.effpos().endswith("child"):
            return t
        return lay.par[t]


def key_schemes(f, env, op):
    """sort keys of the rows (siblings in order) and of the node that is placed"""
    nodes = [(n, p) for n, p, d, c in forest_nodes(f)]
    sib = {}
    idx = {}
    for n, p in nodes:
        idx[n] = sib.get(p, 0)
        sib[p] = idx[n] + 1
    two = len(op.sorted) > 1
    base = {n: (10 * (idx[n] + 1), 0 if not two else 5) for n, _ in nodes}
    tie = {n: (10 * (idx[n] // 2 + 1), 0 if not two else 10 * (idx[n] % 2 + 1)) for n, _ in nodes}
    placed = env.get("node")
    maxs = max(sib.values(), default=0)
    vals = [10 * i + o for i in range(0, maxs + 1) for o in (0, 5)][1:]
    if op.sorted[0].startswith("-"):
        base = {n: (-a, c) for n, (a, c) in base.items()}
        tie = {n: (-a, c) for n, (a, c) in tie.items()}
        vals = [-v for v in vals]
    sg = (lambda t: (-t[0], t[1])) if op.sorted[0].startswith("-") else (lambda t: t)
    for scheme in (base, tie):
        for v in vals:
            for v2 in ((0,) if not two else (5, 15)):
                if placed is None:
                    yield scheme, (v, v2)
                else:
                    # the moved node must keep its place in its current group
                    ks = dict(scheme)
                    group = [n for n, p in nodes if p == dict(nodes)[placed]]
                    i = group.index(placed)
                    lo = sg(ks[group[i - 1]]) if i > 0 else (-10 ** 6, 0)
                    hi = sg(ks[group[i + 1]]) if i + 1 < len(group) else (10 ** 6, 0)
                    if lo <= sg((v, v2)) <= hi:
                        ks[placed] = (v, v2)
                        yield ks, (None, None)


def find_group(f, name):
    """sibling names of `name` in forest f (in order), parent"""
    def rec(nodes, par):
        if any(n == name for n, _ in nodes):
            return [n for n, _ in nodes], par
        for n, c in nodes:
            r = rec(c, n)
            if r:
                return r
        return None
    return rec(f, None)


def drop(f, name):
    return tuple((n, drop(c, name)) for n, c in f if n != name)


# ---------------------------------------------------------------- judging
def last_writer(rp, pk, cols=("*",)):
    for c in cols:
        w = rp.lastwrite.get((pk, c))
        if w:
            return w[-1].where
    for (n, c), w in rp.lastwrite.items():
        if n == pk and w:
            return w[-1].where
    if rp.writelog:
        return rp.writelog[-1].where
    return None


def outcome_loc(tr):
    if tr.outcome[0] == "raise" and len(tr.outcome) > 3 and tr.outcome[3]:
        l = tr.outcome[3]
        return f"{l[0]}:{l[1]} ({l[2]})"
    return None


def exc_name(x):
    return x.ci.name if isinstance(x, Cls) else x.last if isinstance(x, Ext) else str(x)


def effect_sites(tr, k=6):
    return [e.where for e in tr.effects if e.kind in WRITES][-k:]


COLS = {"MP": ("path", "depth", "numchild"), "NS": ("tree_id", "lft", "rgt", "depth"), "AL": ("parent_id", "sib_order"), "LT": ("path",)}


def judge_mutation(op, lay, tr, rp):
    """deviations of one mutation on one layout"""
    out = []
    b = op.backend

    def dev(cat, key, msg, loc=None):
        out.append(Dev(cat, f"{op.name}|{cat}|{key}", msg, tr, lay, loc))

    refuse = op.refuse(lay)
    if tr.outcome[0] == "raise":
        en = exc_name(tr.outcome[1])
        if refuse:
            if en != "InvalidMoveToDescendant":
                dev("refusal", en, f"move below itself raises {en}, not InvalidMoveToDescendant", outcome_loc(tr))
        else:
            dev("raise", en, f"valid call raises {en}", outcome_loc(tr))
        if rp.writes and not any(e.kind in WRITES and e.atomic for e in tr.effects):
            dev("refusal", "written", "rows were written before the refusal", rp.writelog[0].where)
        return out
    if refuse:
        dev("refusal", "accepted", "move below itself is not refused", (effect_sites(tr) or [None])[0])
        return out
    for i, snap in enumerate(rp.snaps[1:]):
        w = constraint(b, snap)
        if w:
            dev("raise", "constraint:" + w[0], f"valid call breaks a constraint of the table on the way: {w[1]}", rp.writelog[i].where if i < len(rp.writelog) else None)
            break
    for where, place, obj, attr in memos(tr):
        if obj is None:
            for cat in ("shape", "enc"):
                dev(cat, "kept", f"what the operation computes from the tree is kept in {place}: later operations place their nodes by the old tree", where)
    f, bad = decode(rp.rows, b, op.sorted)
    for kind, n, msg in bad:
        dev("enc", f"{kind}:{role(op, lay, n)}", f"row {n} ({role(op, lay, n)}): {msg}", last_writer(rp, n, {"numchild": ("numchild",), "depth": ("depth",), "interval": ("lft", "rgt", "tree_id"), "path": ("path",)}.get(kind, ("*",))))
    broken = [(n, msg) for k, n, msg in bad if k not in ("numchild", "depth")]
    if broken:
        dev("shape", "undetermined", f"the columns do not determine a position: row {broken[0][0]}: {broken[0][1]}", last_writer(rp, op.moved(lay)))
    else:
        m = op.moved(lay)
        if not op.sorted:
            exp = op.expected(lay)
            if f != exp:
                dev("shape", "forest", f"tree becomes [{fstr(f)}], must be [{fstr(exp)}]", last_writer(rp, m))
        else:
            g = find_group(f, m)
            if g is None:
                dev("shape", "lost", "the node is not in the tree", last_writer(rp, m))
            else:
                if drop(f, m) != drop(fz(lay.forest), m):
                    dev("shape", "others", f"other nodes were rearranged: [{fstr(f)}]", last_writer(rp, m))
                elif subtree(f, m)[1] != (subtree(fz(lay.forest), m)[1] if m != "NEW" else ()):
                    dev("shape", "subtree", "the node's subtree did not travel with it", last_writer(rp, m))
                elif g[1] != op.dest_parent(lay):
                    dev("shape", "parent", f"node is under {g[1]}, must be under {op.dest_parent(lay)}", last_writer(rp, m))
                else:
                    ks = [key_of(op, rp.rows[n]) for n in g[0]]
                    if ks != sorted(ks):
                        dev("sorted", "order", f"sibling order {list(zip(g[0], ks))} does not follow node_order_by", last_writer(rp, m))
    out += judge_memory(op, lay, tr, rp, bool(bad))
    out += judge_signals(op, lay, tr, rp)
    return out


def constraint(b, rows):
    """immediate constraint of the table that a stored state breaks (kind, text)"""
    if b == "MP":
        seen = {}
        for n, r in rows.items():
            if r["path"] in seen:
                return "path", f"rows {seen[r['path']]} and {n} have the same path"
            seen[r["path"]] = n
    for n, r in rows.items():
        for c in COLS[b]:
            v = r[c]
            if isinstance(v, int) and not isinstance(v, bool) and v < 0:
                return c, f"row {n} has {c}={v}"
    return None


def key_of(op, r):
    return tuple(r[k] if not k.startswith("-") else -r[k[1:]] for k in op.sorted)


def fstr(f):
    return " ".join(n + (f"({fstr(c)})" if c else "") for n, c in f)


def role(op, lay, n):
    """what a row is relative to the anchors (stable across layouts)"""
    env = lay.env
    for k, v in env.items():
        if v == n:
            return k
    if n == op.moved(lay):
        return "placed node"
    t = env.get("target")
    if "node" in env and n in lay.rows and lay.is_desc(n, env["node"]):
        return "descendant of node"
    if "node" in env and n == lay.par.get(env["node"]):
        return "old parent"
    if t is not None and n == op.dest_parent(lay):
        return "new parent"
    return "other row"


def judge_memory(op, lay, tr, rp, bad):
    """in-memory objects agree with the stored rows"""
    out = []
    cols = COLS[op.backend]
    for pname, obj in tr.params.items():
        if not isinstance(obj, Row):
            continue
        pk = lay.env.get(pname) if pname in lay.env else rp.newpk.get(obj.rowid, "NEW" if obj.rowid.op == "new" else None)
        if obj.rowid.op == "new" and "NEW" in rp.rows:
            pk = "NEW"
        row = rp.rows.get(pk)
        if row is None:
            continue
        for c in cols:
            if c == "sib_order" and op.sorted:
                continue
            try:
                v = rp.mem(obj, c)
            except Undecided:
                continue
            if v != row[c]:
                out.append(Dev("mem", f"{op.name}|mem|{pname}.{c}", f"{pname}.{c} is {v!r} in memory but {row[c]!r} in the database", tr, lay, last_writer(rp, pk, (c,))))
        for an, v in list(obj.attrs.items()):
            if not an.startswith("_cached"):
                continue
            want = ("row", find_group(decode(rp.rows, op.backend, True)[0], pk)) if "parent" in an else None
            try:
                if "parent" in an:
                    par = want[1][1] if want[1] else None
                    got = rp.pkof(v.rowid) if isinstance(v, Row) else None
                    if got != par:
                        out.append(Dev("cache", f"{op.name}|cache|{pname}.{an}", f"{pname}.{an} is {got}, the parent is {par}", tr, lay, last_writer(rp, pk)))
                elif "depth" in an:
                    dd = depth_in(decode(rp.rows, op.backend, True)[0], pk)
                    got = rp.val(v)
                    if got != dd:
                        out.append(Dev("cache", f"{op.name}|cache|{pname}.{an}", f"{pname}.{an} is {got}, the depth is {dd}", tr, lay, last_writer(rp, pk)))
            except Undecided:
                pass
        out += judge_kept(op, lay, tr, rp, pname, obj, pk)
    return out


def memo_names(backend):
    """private attributes that the code of the backend stores on objects"""
    if backend not in _memo_names:
        mods = {c.module.name for c in prog().mro(get_base(backend)) if getattr(c, "module", None) is not None}
        _memo_names[backend] = {a for a in prog().stored_attrs() if a.startswith("_cached") and any(a in prog().modules[m].src for m in mods if m in prog().modules)}
    return _memo_names[backend]


_memo_names = {}


def judge_kept(op, lay, tr, rp, pname, obj, pk):
    """what the object remembered before the operation and still does must still be true"""
    out = []
    if "cached" not in lay.flags or pname not in lay.env:
        return out
    f0, f1 = fz(lay.forest), None
    for an in sorted(memo_names(op.backend)):
        if an in obj.attrs or an in obj.dropped or not lay.cached(T("param", pname), an):
            continue
        f1 = f1 or decode(rp.rows, op.backend, True)[0]
        g = find_group(f1, pk)
        if g is None:
            continue
        if "parent" in an:
            if g[1] != lay.par[pk]:
                out.append(Dev("cache", f"{op.name}|cache|{pname}.{an}", f"{pname}.{an} keeps {lay.par[pk]}, the parent is {g[1]}", tr, lay, last_writer(rp, pk)))
        elif "depth" in an:
            if depth_in(f0, pk) != depth_in(f1, pk):
                out.append(Dev("cache", f"{op.name}|cache|{pname}.{an}", f"{pname}.{an} keeps {depth_in(f0, pk)}, the depth is {depth_in(f1, pk)}", tr, lay, last_writer(rp, pk)))
        elif g[1] != lay.par[pk] or subtree(f0, pk) != subtree(f1, pk):
            out.append(Dev("cache", f"{op.name}|cache|{pname}.{an}", f"{pname}.{an} is kept although the place or the subtree of {pname} changed", tr, lay, last_writer(rp, pk)))
    return out


def depth_in(f, name, d=1):
    for n, c in f:
        if n == name:
            return d
        r = depth_in(c, name, d + 1)
        if r:
            return r
    return None


def signal_kind(t):
    return t.args[0] if isinstance(t, T) and t.op == "signal" else None


def judge_signals(op, lay, tr, rp):
    """an external store that starts from the old rows and applies the signals (and
    post_save of individually saved rows) ends up with the new rows"""
    if op.backend == "AL":
        return []
    out = []
    shadow = {k: dict(v) for k, v in lay.rows.items()}
    for item in rp.siglog:
        if item[0] == "save":
            pk, row = item[1], item[2]
            shadow[pk] = dict(row)
            continue
        if item[0] == "delete":
            for pk in item[1]:
                shadow.pop(pk, None)
            continue
        _, e, kw = item
        if any(v is Undecided for k, v in kw.items() if k not in ("using", "sender")):
            raise Undecided("signal payload")
        apply_signal(op.backend, shadow, kw)
        snd = kw.get("sender")
        if isinstance(snd, ModelV) and snd.concrete is not snd.treebase:
            out.append(Dev("signal", f"{op.name}|signal|sender", f"the sender is {snd}, not the model that owns the tree columns", tr, lay, e.where))
    cols = {"MP": ("path", "depth"), "NS": ("tree_id", "lft", "rgt", "depth"), "LT": ("path",)}[op.backend]
    for pk, r in rp.rows.items():
        s = shadow.get(pk)
        if s is None:
            if pk in lay.rows:
                out.append(Dev("signal", f"{op.name}|signal|removed", f"signals say row {pk} was removed, it was not", tr, lay, sig_loc(rp)))
            continue
        for c in cols:
            if s[c] != r[c]:
                out.append(Dev("signal", f"{op.name}|signal|{c}", f"after the signals a mirror has {c}={s[c]!r} for {role(op, lay, pk)} {pk}, the row has {r[c]!r}", tr, lay, sig_loc(rp) or last_writer(rp, pk, (c,))))
    for pk in shadow:
        if pk not in rp.rows:
            out.append(Dev("signal", f"{op.name}|signal|deleted", f"row {pk} was deleted without being covered by nodes_deleted", tr, lay, sig_loc(rp) or last_writer(rp, pk)))
    return out


def sig_loc(rp):
    return rp.signals[-1][0].where if rp.signals else None


def apply_signal(b, shadow, kw):
    if b == "MP":
        if "old_path" in kw:
            o, n = kw["old_path"], kw["new_path"]
            for r in shadow.values():
                if r["path"][: len(o)] == o:
                    r["path"] = n + r["path"][len(o):]
                    if len(o) != len(n):
                        r["depth"] = len(r["path"])
            return
        if "paths_to_remove" in kw:
            pks = set(kw["pks_to_remove"])
            for pk in list(shadow):
                if pk in pks or any(shadow[pk]["path"][: len(p)] == p for p in kw["paths_to_remove"]):
                    del shadow[pk]
            return
    if b == "LT":
        if "old_path" in kw:
            o, n = kw["old_path"], kw["new_path"]
            for r in shadow.values():
                if r["path"][: len(o)] == o:
                    r["path"] = n + r["path"][len(o):]
            return
        if "paths_to_remove" in kw:
            for pk in list(shadow):
                if any(shadow[pk]["path"][: len(p)] == p for p in kw["paths_to_remove"]):
                    del shadow[pk]
            return
        if "path" in kw:
            p = kw["path"]
            d = len(p)
            for r in shadow.values():
                q = r["path"]
                if len(q) >= d and q[: d - 1] == p[: d - 1] and q[d - 1] >= p[d - 1]:
                    r["path"] = q[: d - 1] + (q[d - 1] + "A",) + q[d:]
            return
    if b == "NS":
        if "start_index" in kw:
            for r in shadow.values():
                if r["tree_id"] == kw["tree_id"]:
                    for c in ("lft", "rgt"):
                        if r[c] >= kw["start_index"]:
                            r[c] += kw["offset"]
            return
        if "min_tree_id" in kw:
            for r in shadow.values():
                if r["tree_id"] >= kw["min_tree_id"]:
                    r["tree_id"] += 1
            return
        if "target_tree_id" in kw:
            for r in shadow.values():
                if r["tree_id"] == kw["tree_id"] and r["lft"] >= kw["lft"] and r["rgt"] <= kw["rgt"]:
                    r["tree_id"] = kw["target_tree_id"]
                    r["lft"] += kw["index_offset"]
                    r["rgt"] += kw["index_offset"]
                    r["depth"] += kw["depth_offset"]
            return
        if "removed_ranges" in kw:
            for pk in list(shadow):
                r = shadow[pk]
                if any(r["tree_id"] == t and lo <= r["lft"] <= hi for t, lo, hi in kw["removed_ranges"]):
                    del shadow[pk]
            return
    raise Undecided("unknown signal")


def mutation_ops(backends=("MP", "NS", "AL", "LT"), kinds=("add_root", "add_child", "add_sibling", "move"), sortings=(False,), variants=((),)):
    for b in backends:
        for so in sortings:
            for v in variants:
                if "mysql" in v and b != "MP":
                    continue
                for k in kinds:
                    if k in ("add_root", "add_child"):
                        yield Op(b, k, None, so, v)
                    elif k == "add_sibling":
                        for p in ((None, "sorted-sibling") if so else (None,) + UNSORTED_SIB):
                            yield Op(b, k, p, so, v)
                    else:
                        for p in ((None, "sorted-sibling", "sorted-child") if so else (None,) + UNSORTED_SIB + UNSORTED_CHILD):
                            yield Op(b, k, p, so, v)


class Result:
    def __init__(self):
        self.devs, self.und, self.n, self.decided, self.paths = [], {}, 0, 0, 0
        self.ops = []


def survey(ops, n, judge=judge_mutation, cats=None):
    res = Result()
    seen = set()
    for op in ops:
        P = op.paths()
        c = 0
        for lay in op.layouts(n):
            res.n += 1
            c += 1
            try:
                tr, rp = P.on(lay)
                ds = judge(op, lay, tr, rp)
            except Undecided as u:
                k = (op.name, str(u))
                res.und[k] = res.und.get(k, 0) + 1
                continue
            res.decided += 1
            for d in ds:
                if (cats is None or d.cat in cats) and d.key not in seen:
                    seen.add(d.key)
                    res.devs.append(d)
        res.ops.append((op.name, c, P.n))
        res.paths += P.n
    return res
