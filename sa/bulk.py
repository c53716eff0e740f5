"""dump_bulk and load_bulk."""
from .deletes import *

NEWNAMES = ("N1", "N2", "N3", "N4", "N5")


class Data:
    """a concrete nested structure: ((name, k1, (children...)), ...)"""

    def __init__(self, items, ids):
        self.items, self.ids = items, ids

    def __repr__(self):
        return f"Data({self.items}, {self.ids})"

    def make(self, I):
        def item(t):
            name, k1, kids = t
            data = Dct()
            data.entries = [[const("desc"), const(name), None]]
            if k1 is not None:
                data.entries.append([const("k1"), const(k1), None])
            d = Dct()
            d.entries = [[const("data"), data, None]]
            if self.ids:
                d.entries.append([const("id"), const("P" + name), None])
            if kids:
                d.entries.append([const("children"), Lst([item(c) for c in kids]), None])
            return d
        return Lst([item(t) for t in self.items])


def named(f, it, keys):
    """forest of one-letter names -> items with new names in document order"""
    out = []
    for n, c in f:
        nm = next(it)
        k = keys[nm] if keys else None
        out.append((nm, k, named(c, it, keys)))
    return tuple(out)


class Load:
    kind = "load_bulk"

    def __init__(self, backend, items, parent=False, keep_ids=False, bulk_create=False, sorted_=False, variant=()):
        self.backend, self.items, self.parent, self.keep_ids, self.bulk, self.sorted, self.variant = backend, items, parent, keep_ids, bulk_create, sorted_, variant

    @property
    def name(self):
        def show(items):
            return " ".join(n + (f"[{k}]" if k is not None else "") + (f"({show(c)})" if c else "") for n, k, c in items)
        o = ["parent"] * self.parent + ["keep_ids"] * self.keep_ids + ["bulk_create"] * self.bulk
        return f"{BACKENDS[self.backend]}.load_bulk({','.join(o)})" + (" node_order_by=" + ",".join(self.sorted) if self.sorted else "") + "".join(" " + v for v in self.variant) + f" <{show(self.items)}>"

    @property
    def key(self):
        return self.name.split(" <")[0]

    def paths(self):
        kw = {"keep_ids": self.keep_ids}
        if self.parent:
            kw["parent"] = ("row", "target")
        if self.bulk:
            kw["bulk_create"] = True
        if "batch_size=1" in self.variant:
            kw["batch_size"] = 1
        cfg = {"sorted": self.sorted}
        if "proxy" in self.variant:
            cfg["proxy"] = True
        if "cached" in self.variant:
            cfg["cached_parent"] = True
        return paths(self.backend, "load_bulk", [("make", Data(self.items, self.keep_ids)), ("kw", kw)], **cfg)

    def moved(self, lay):
        return None

    def dest_parent(self, lay):
        return lay.env.get("target")

    def layouts(self, n):
        for m in range(1 if self.parent else 0, n + 1):
            for f in all_forests(m):
                names = [x[0] for x in forest_nodes(f)]
                for t in (names if self.parent else [None]):
                    env = {"target": t} if t else {}
                    for gaps in (SCHEMES if not self.sorted else (False, True)):
                        for ks in (self.keyings(f) if self.sorted else (None,)):
                            yield Layout(self.backend, f, env, gaps=gaps, keys=ks, sorted_=bool(self.sorted), flags=self.variant)

    def keyings(self, f):
        sib = {}
        out = {}
        for n, p, d, c in forest_nodes(f):
            i = sib.get(p, 0)
            sib[p] = i + 1
            out[n] = (10 * (i + 1) * (-1 if self.sorted[0][0] == "-" else 1), 0)
        yield out

    def names(self):
        def walk(items, par):
            for n, k, c in items:
                yield n, k, par
                yield from walk(c, n)
        return list(walk(self.items, None))

    def pkname(self, n):
        return "P" + n if self.keep_ids else n

    def forest(self, items):
        return tuple((self.pkname(n), self.forest(c)) for n, k, c in items)


def append_under(f, target, new):
    if target is None:
        return f + new
    return tuple((n, c + new if n == target else append_under(c, target, new)) for n, c in f)


def judge_load(op, lay, tr, rp):
    out = []
    b = op.backend

    def dev(key, msg, loc=None):
        out.append(Dev("load", f"{op.key}|load|{key}", f"{msg} [loaded: {op.name.split(' <')[1][:-1]}]", tr, lay, loc or (rp.writelog[-1].where if rp.writelog else last_query(tr))))
    for where, msg in left_behind(tr):
        dev("kept", msg, where)
    if tr.outcome[0] == "raise":
        dev("raise:" + exc_name(tr.outcome[1]), f"valid data raises {exc_name(tr.outcome[1])}", outcome_loc(tr))
        return out
    for i, snap in enumerate(rp.snaps[1:]):
        w = constraint(b, snap)
        if w:
            dev("constraint:" + w[0], f"valid data breaks a constraint of the table on the way: {w[1]}", rp.writelog[i].where if i < len(rp.writelog) else None)
            return out
    want = [op.pkname(n) for n, k, p in op.names()]
    new = [n for n in rp.rows if n not in lay.rows]
    if sorted(new) != sorted(want):
        dev("rows", f"creates the rows {sorted(new)}, must create {sorted(want)}")
        return out
    f, bad = decode(rp.rows, b, op.sorted)
    for kind, n, msg in bad:
        dev("enc:" + kind, f"row {n}: {msg}", last_writer(rp, n))
    res = tr.outcome[1]
    got = [rp.val(x) for x in (res.items if isinstance(res, Lst) else res)]
    if sorted(map(str, got)) != sorted(want):
        dev("result", f"returns the primary keys {got}, must return {want}")
    if any(k not in ("numchild", "depth") for k, _, _ in bad):
        return out
    for n, k, p in op.names():
        if rp.rows[op.pkname(n)].get("k1") != k and op.sorted or rp.rows[op.pkname(n)].get("desc") != n:
            dev("values", f"row {n} was stored with other values", last_writer(rp, op.pkname(n)))
    if not op.sorted:
        exp = append_under(fz(lay.forest), op.dest_parent(lay), op.forest(op.items))
        if f != exp:
            dev("forest", f"tree becomes [{fstr(f)}], must be [{fstr(exp)}]")
        return out
    d = f
    for n in want:
        d = drop(d, n)
    if d != fz(lay.forest):
        dev("others", f"other nodes were rearranged: [{fstr(f)}]")
    pars = {op.pkname(n): (op.pkname(p) if p else op.dest_parent(lay)) for n, k, p in op.names()}
    for n in want:
        g = find_group(f, n)
        if g is None or g[1] != pars[n]:
            dev("parent", f"{n} is under {g and g[1]}, must be under {pars[n]}", last_writer(rp, n))
        elif not op.bulk or pars[n] not in want:
            ks = [key_of(op, rp.rows[x]) for x in g[0]]
            if ks != sorted(ks):
                dev("order", f"sibling order {list(zip(g[0], ks))} does not follow node_order_by", last_writer(rp, n))
    return out


def load_ops(backends=("MP", "NS", "AL", "LT"), n=3, ns=2):
    for b in backends:
        for bulk in ((False, True) if b == "MP" else (False,)):
            for par in (False, True):
                for ids in (False, True):
                    for m in range(0, (n if not ids else n - 1) + 1):
                        for f in all_forests(m):
                            yield Load(b, named(f, iter(NEWNAMES), None), par, ids, bulk)
                    if bulk and ids is False:
                        for f in all_forests(3):
                            yield Load(b, named(f, iter(NEWNAMES), None), par, ids, bulk, False, ("batch_size=1",))
                    if not bulk and ids is False:
                        for m in (1, 2):
                            for f in all_forests(m):
                                yield Load(b, named(f, iter(NEWNAMES), None), par, ids, bulk, False, ("proxy",))
                for so in (("k1",), ("-k1",)):
                    for m in range(1, ns + bulk + 1):  # shifting a row that has children loaded below it takes three
                        for f in all_forests(m):
                            for ks in itertools.product((5, 15, 25), repeat=m):
                                if so == ("-k1",):
                                    if ks != tuple(sorted(ks)):
                                        continue
                                    ks = tuple(-k for k in ks)
                                yield Load(b, named(f, iter(NEWNAMES), dict(zip(NEWNAMES, ks))), par, False, bulk, so)


class Dump:
    """dump_bulk([parent][, keep_ids])"""
    kind, sorted = "dump_bulk", False

    def __init__(self, backend, parent, keep_ids, variant=(), sorted_=False):
        self.backend, self.parent, self.keep_ids, self.variant, self.sorted = backend, parent, keep_ids, variant, sorted_

    @property
    def name(self):
        o = ["parent"] * self.parent + ["keep_ids"] * self.keep_ids
        return f"{BACKENDS[self.backend]}.dump_bulk({','.join(o)})" + (" node_order_by=" + ",".join(self.sorted) if self.sorted else "") + "".join(" " + v for v in self.variant)

    def paths(self):
        kw = {"keep_ids": self.keep_ids}
        if self.parent:
            kw["parent"] = ("row", "target")
        cfg = {"sorted": self.sorted}
        if "proxy" in self.variant:
            cfg["proxy"] = True
        return paths(self.backend, "dump_bulk", [("kw", kw)], **cfg)

    def layouts(self, n):
        for m in range(1 if self.parent else 0, n + 1):
            for f in all_forests(m):
                names = [x[0] for x in forest_nodes(f)]
                for t in (names if self.parent else [None]):
                    for gaps in SCHEMES:
                        ks = {nm: (10 * (i + 1), 0) for i, nm in enumerate(names)} if self.sorted else None
                        yield Layout(self.backend, f, {"target": t} if t else {}, gaps=gaps, keys=ks, sorted_=bool(self.sorted), flags=self.variant)


def judge_dump(op, lay, tr, rp):
    out = []

    def dev(key, msg, loc=None):
        out.append(Dev("dump", f"{op.name}|dump|{key}", msg, tr, lay, loc or last_query(tr)))
    for where, msg in left_behind(tr):
        dev("kept", msg, where)
    if tr.outcome[0] == "raise":
        dev("raise", f"raises {exc_name(tr.outcome[1])}", outcome_loc(tr))
        return out
    if rp.writes:
        dev("writes", "writes to the database", rp.writelog[0].where)

    def items(l):
        if not isinstance(l, Lst):
            raise Undecided("dump structure")
        return l.items

    def conv(d):
        """((row, children), ...) of one list of the result"""
        r = []
        for x in items(d):
            if not isinstance(x, Dct) or x.opaque:
                raise Undecided("dump structure")
            e = {}
            for k, v, _ in x.entries:
                if not is_const(k):
                    raise Undecided("dump key")
                e[cval(k)] = v
            data = e.pop("data", None)
            if not isinstance(data, Dct) or data.opaque:
                raise Undecided("dump data")
            cols = {}
            for k, v, _ in data.entries:
                if not is_const(k):
                    raise Undecided("dump key")
                cols[cval(k)] = v
            owner = {rp.pkof(v.args[0]) if v.op == "attr" else None for v in cols.values()}
            if set(cols) != {"k1", "desc"} or any(v.op != "attr" or v.args[1] != k for k, v in cols.items()) or len(owner) != 1:
                dev("data", f"the data of a node has {sorted(map(str, cols))}: must be exactly its own field values, without the columns of the tree")
                raise StopIteration
            n = owner.pop()
            if op.keep_ids:
                if "id" not in e or rp.val(e.pop("id")) != n:
                    dev("id", f"the entry of {n} does not carry its primary key")
                    raise StopIteration
            ch = e.pop("children", None)
            if e:
                dev("keys", f"the entry of {n} has the keys {sorted(map(str, e))}")
            kids = conv(ch) if ch is not None else ()
            r.append((n, kids))
        return tuple(r)
    try:
        got = conv(tr.outcome[1])
    except StopIteration:
        return out
    want = fz(lay.forest)
    if op.parent:
        want = (subtree(want, lay.env["target"]),)
    if got != want:
        dev("structure", f"dumps [{fstr(got)}], the tree is [{fstr(want)}]")
    return out


def dump_ops(backends=("MP", "NS", "AL", "LT")):
    for b in backends:
        for par in (False, True):
            for ids in (True, False):
                yield Dump(b, par, ids)
        yield Dump(b, False, True, ("proxy",))
        yield Dump(b, True, True, (), ("k1",))
