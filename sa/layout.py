"""The finite domain in which extracted path summaries are decided.

The analysis (interp.py) turns a public operation into a set of *path summaries*:
branch conditions and database effects over symbolic rows.  The predicates in
them only compare tree columns of a row with tree columns of the operation's
anchors, so what a summary does to a row depends on the row's *position relative
to the anchors*.  A `Layout` is one abstract table: a forest in which every
relative position (ancestor, earlier / later sibling, their subtrees, the
subtree itself, other trees) is occupied.  `Replay` computes the transfer of a
summary on a layout: which rows each effect selects and what each selected
column becomes.  Nothing of the analysed repository is executed.
"""
from fractions import Fraction
from .terms import *
from .values import *

MAXSTEP = 36 ** 4 - 1
STEPCHARS = 4
EVIL = -7  # a step with a character outside the alphabet
HALF = -9  # a step that is one character too short


class Undecided(Exception):
    pass


class NoColumn(Undecided):
    """a query asks for a tree column of another kind of tree: FieldError"""


def forest_nodes(f, parent=None, depth=1):
    for name, ch in f:
        yield name, parent, depth, [c[0] for c in ch]
        yield from forest_nodes(ch, name, depth + 1)


def fz(f):
    return tuple((n, fz(c)) for n, c in f)


LT_LABELS = ["B", "D", "F", "H", "J", "L", "N"]
LT_TIGHT = ["A", "A0", "B", "C", "D", "E", "F", "G"]  # no room before A0
LT_LEAD = ["5", "50", "A", "Z", "ZZ", "ZZ5", "ZZZ", "ZZZZ"]
LT_FLIP = ["A", "A0", "A1", "A10", "A2", "B", "C"]  # no room before A0; A1 is a prefix of A10
SCHEMES = (False, True, "lead")


def step_no(i, gaps):
    """number of the i-th sibling: dense, every other number, or irregular and not starting at 1"""
    return i + 1 if not gaps else (2, 3, 5, 6, 8, 9, 11, 12)[i] if gaps == "lead" else i * 2 + 1



def encode(forest, backend, gaps=False, keys=None):
    rows = {}

    def sortk(n):
        return (keys or {}).get(n, (None, None))

    if backend in ("MP", "LT"):
        def rec(nodes, prefix):
            for i, (n, ch) in enumerate(nodes):
                if backend == "MP":
                    stepv = step_no(i, gaps)
                else:
                    stepv = {False: LT_LABELS, True: LT_TIGHT, "lead": LT_LEAD, "flip": LT_FLIP}[gaps][i]
                p = prefix + (stepv,)
                rows[n] = {"pk": n, "path": p, "depth": len(p), "numchild": len(ch)}
                if backend == "LT":
                    del rows[n]["depth"], rows[n]["numchild"]
                rec(ch, p)
        rec(forest, ())
    elif backend == "NS":
        for ti, (n, ch) in enumerate(forest):
            tid = step_no(ti, gaps)
            ctr = [0]

            def rec(n, ch, d):
                ctr[0] += 1
                l = ctr[0]
                r = rows[n] = {"pk": n, "tree_id": tid, "lft": l, "depth": d}
                for c, cc in ch:
                    rec(c, cc, d + 1)
                ctr[0] += 1
                r["rgt"] = ctr[0]
            rec(n, ch, 1)
    elif backend == "AL":
        def rec(nodes, parent):
            for i, (n, ch) in enumerate(nodes):
                rows[n] = {"pk": n, "parent_id": parent, "sib_order": step_no(i, gaps)}
                rec(ch, n)
        rec(forest, None)
    for n, r in rows.items():
        k = sortk(n)
        r["k1"], r["k2"] = k
    return rows


def decode(rows, backend, sortedmode=False):
    """-> (ordered forest or None, [defect strings])"""
    bad = []
    kids = {}
    names = list(rows)
    if backend in ("MP", "LT"):
        bypath = {}
        for n, r in rows.items():
            if r["path"] in bypath:
                bad.append(("path", n, f"duplicate path with {bypath[r['path']]}"))
            bypath[r["path"]] = n
        for n, r in rows.items():
            p = r["path"]
            if not p:
                bad.append(("path", n, "empty path"))
            if EVIL in p:
                bad.append(("path", n, "a step contains a character that the alphabet need not contain"))
            if backend == "MP" and r["depth"] != len(p):
                bad.append(("depth", n, f"depth {r['depth']} for a path of {len(p)} steps"))
            par = bypath.get(p[:-1]) if len(p) > 1 else None
            if len(p) > 1 and par is None:
                bad.append(("path", n, "no node at its parent path"))
            kids.setdefault(par, []).append((p, n))
        for k in kids:
            kids[k].sort(key=lambda x: x[0])
        if backend == "MP":
            for n, r in rows.items():
                c = len(kids.get(n, ()))
                if r["numchild"] != c:
                    bad.append(("numchild", n, f"numchild {r['numchild']} with {c} children"))
    elif backend == "NS":
        trees = {}
        for n, r in rows.items():
            trees.setdefault(r["tree_id"], []).append(n)
        for t, ns in sorted(trees.items()):
            ns.sort(key=lambda n: (rows[n]["lft"], rows[n]["rgt"]))
            ends = sorted(x for n in ns for x in (rows[n]["lft"], rows[n]["rgt"]))
            if ends != list(range(1, 2 * len(ns) + 1)):
                bad.append(("interval", ns[0], f"lft/rgt of its tree are {ends}, not 1..{2 * len(ns)}"))
            stack = []
            roots = 0
            for n in ns:
                r = rows[n]
                if r["lft"] >= r["rgt"]:
                    bad.append(("interval", n, "lft >= rgt"))
                while stack and rows[stack[-1]]["rgt"] < r["lft"]:
                    stack.pop()
                if stack and rows[stack[-1]]["rgt"] < r["rgt"]:
                    bad.append(("interval", n, f"overlaps {stack[-1]}"))
                par = stack[-1] if stack else None
                if par is None:
                    roots += 1
                if r["depth"] != len(stack) + 1:
                    bad.append(("depth", n, f"depth {r['depth']} at level {len(stack) + 1}"))
                kids.setdefault(par, []).append(((t, r["lft"]), n))
                stack.append(n)
            if roots != 1:
                bad.append(("interval", ns[0], f"{roots} roots share a tree_id"))
        for k in kids:
            kids[k].sort(key=lambda x: x[0])
    elif backend == "AL":
        for n, r in rows.items():
            if r["parent_id"] is not None and r["parent_id"] not in rows:
                bad.append(("parent", n, "parent does not exist"))
            so = r["sib_order"]
            kids.setdefault(r["parent_id"], []).append(((so if so is not None else -1), n))
        for k in kids:
            kids[k].sort(key=lambda x: x[0])
            if not sortedmode:
                os = [x[0] for x in kids[k]]
                if len(set(os)) != len(os):
                    bad.append(("order", kids[k][0][1], "siblings share a sib_order"))
        if sortedmode:
            for k in kids:
                kids[k].sort(key=lambda x: (keytup(rows[x[1]], sortedmode), str(x[1])))

    seen = set()

    def build(p, d=0):
        out = []
        for _, n in kids.get(p, ()):
            if n in seen:
                continue
            seen.add(n)
            out.append((n, build(n, d + 1)))
        return tuple(out)

    f = build(None)
    if len(seen) != len(rows):
        bad.append(("cycle", sorted(set(map(str, rows)) - set(map(str, seen)))[0], "not reachable from any root"))
    return f, bad


def keytup(r, order=None):
    names = order if isinstance(order, (tuple, list)) and order else ("k1", "k2")
    return tuple((0, 0) if v is None else (1, -v if k.startswith("-") else v) for k, v in ((k, r.get(k.lstrip("-"))) for k in names))


class Layout:
    """backend, forest, in-memory anchors, sort keys"""

    def __init__(self, backend, forest, env, gaps=False, keys=None, newkeys=(None, None), label="", sorted_=False, ints=None, flags=()):
        self.flags = flags
        self.stale = None  # columns the operand object holds in memory, when they are not those of its row
        self.mti = None  # the rows multi-table children of the tree model have (None: all)
        self.backend, self.forest, self.env, self.gaps = backend, forest, env, gaps
        self.rows = encode(forest, backend, gaps, keys)
        self.keys, self.newkeys = keys, newkeys
        self.cap = None  # widest step number that fits (None: never reached)
        self.maxlen = 255  # characters
        self.label = label
        self.sorted_ = sorted_
        if backend == "AL" and sorted_:  # models with node_order_by need no sib_order, and nothing keeps it
            for r in self.rows.values():
                r["sib_order"] = 0
        self.ints = ints or {}
        self.par = {n: p for n, p, d, c in forest_nodes(forest)}
        self.kids = {n: c for n, p, d, c in forest_nodes(forest)}
        self.kids[None] = [n for n, _ in forest]

    def cached(self, rid, name):
        if "cached" not in self.flags or rid.op != "param":
            return False
        return not ("parent" in name and self.par.get(self.env.get(rid.args[0])) is None)

    def is_desc(self, a, b):
        """a strictly below b"""
        p = self.par.get(a)
        while p is not None:
            if p == b:
                return True
            p = self.par.get(p)
        return False

    def __str__(self):
        def s(f):
            return " ".join(n + ("(" + s(c) + ")" if c else "") for n, c in f)
        e = " ".join(f"{k}={v}" for k, v in self.env.items())
        if self.mti is not None:
            e += " child-model rows: " + ",".join(sorted(self.mti))
        return f"[{s(self.forest)}] {e}" + ({False: "", True: " gaps", "lead": " gaps+", "flip": " labels A,A0,A1,A10"}[self.gaps])


WRITES = ("update", "delete", "save", "rowdelete", "bulk_create", "bulk_update")
TREECOLS = {"MP": ("path", "depth", "numchild"), "NS": ("tree_id", "lft", "rgt", "depth"), "AL": ("parent_id", "sib_order"), "LT": ("path",)}


class Replay:
    """the state of one layout while the effects of one path are applied to it"""

    def __init__(self, lay, oracle=None):
        self.lay = lay
        self.rows = {k: dict(v) for k, v in lay.rows.items()}
        self.snaps = [{k: dict(v) for k, v in lay.rows.items()}]
        self.mti = set(lay.mti) if lay.mti is not None else None
        self.epmap = {0: 0}
        self.epoch = 0
        self.ctx = []
        self.newpk = {}
        self.lastwrite = {}
        self.signals = []
        self.siglog = []
        self.anns = {}
        self.locks = []
        self.labels = {}
        self.oracle = oracle
        self.writes = 0
        self.refreshed = []
        self.deleted = []
        self.selcache = {}
        self.writelog = []
        self.affected = {}
        self.hit = 0

    def apply(self, e):
        f = getattr(self, "x_" + e.kind, None)
        if f:
            f(e)
        if e.kind in WRITES:
            self.writes += 1
            self.writelog.append(e)
            self.epoch += 1
            self.affected[self.epoch] = self.hit
            self.snaps.append({k: dict(v) for k, v in self.rows.items()})

    def decide(self, kind, data):
        """option taken at a decision of the analysis"""
        if kind == "branch":
            a = data[0]
            if a.op == "unk":
                raise Undecided("unknown condition")
            if a.op == "hascache":
                return 0 if self.lay.cached(a.args[0], a.args[1]) else 1
            return 0 if self.ev(a) else 1
        if kind == "more":
            q, ep, k = data
            return 1 if len(self.rows_of(q, ep)) > k else 0
        if kind == "moreitem":
            return 1 if len(self.seq(self.ev(data[0]))) > data[1] else 0
        if kind == "label":
            return 1 if self.label_fails(data[0], data[1]) else 0
        if kind == "fail":
            return 0
        raise Undecided("decision " + str(kind))

    def seq(self, v):
        if isinstance(v, (tuple, list)):
            return v
        raise Undecided("not a sequence")

    def rows_of(self, q, ep):
        k = (q, ep)
        r = self.selcache.get(k)
        if r is None:
            r = self.selcache[k] = self.select(q, self.snap(ep))
        return r

    def snap(self, ep):
        if 0 <= ep < len(self.snaps):
            return self.snaps[ep]
        raise Undecided("state of a later write")

    def norm(self, q):
        return replace(q, lock=False, lockargs=(), only=None, values=None, flat=False)

    # ------------------------------------------------------------ effects
    def x_update(self, e):
        if e.kw and any(k == "**" for k in e.kw):
            raise Undecided("update(**)")
        sel = self.select(e.qs, self.rows, nocut=True)
        new = []
        seq = "mysql" in self.lay.flags  # assignments see the values assigned before them
        sv, sa = self.cur, self.anns
        self.cur, self.anns = self.rows, dict(e.qs.annots)
        for r in sel:
            cur = dict(r) if seq else r
            self.ctx.append(cur)
            try:
                ch = {}
                for k, v in e.kw.items():
                    k = "parent_id" if k in ("parent", "parent_id") else k
                    ch[k] = self.val(v)
                    if seq:
                        cur[k] = ch[k]
            finally:
                self.ctx.pop()
            new.append((r["pk"], ch))
        self.cur, self.anns = sv, sa
        self.hit = len(new)
        for pk, ch in new:
            self.put(pk, ch, e)

    def put(self, pk, ch, e):
        r = self.rows[pk]
        for k, v in ch.items():
            if r.get(k) != v:
                self.lastwrite.setdefault((pk, k), []).append(e)
            r[k] = v

    def x_delete(self, e):
        sel = [r["pk"] for r in self.select(e.qs, self.rows)]
        self.remove(sel, e)

    def remove(self, pks, e):
        before = len(self.rows)
        try:
            self._remove(pks, e)
        finally:
            self.hit = before - len(self.rows)

    def _remove(self, pks, e):
        todo = list(pks)
        while todo:
            p = todo.pop()
            if p in self.rows:
                del self.rows[p]
                self.lastwrite.setdefault((p, "*"), []).append(e)
                if self.lay.backend == "AL":  # parent = ForeignKey(on_delete=CASCADE)
                    todo += [n for n, r in self.rows.items() if r["parent_id"] == p]

    def x_rowdelete(self, e):
        pk = self.pkof(e.obj.rowid)
        self.remove([pk], e)

    def x_save(self, e):
        attrs = e.attrs
        cols = TREECOLS[self.lay.backend]
        if e.adding:
            pk = "NEW" + ("" if not self.newpk else str(len(self.newpk)))
            self.newpk[e.rowid] = pk
            if "pk" in attrs and attrs["pk"] is not NONE:
                pk = self.val(attrs["pk"])
                if pk in self.rows:
                    raise Undecided("primary key in use")
            elif "desc" in attrs and is_const(attrs["desc"]):
                pk = cval(attrs["desc"])
            self.newpk[e.rowid] = pk
            r = {"pk": pk, "k1": self.lay.newkeys[0], "k2": self.lay.newkeys[1]}
            for c in ("k1", "k2", "desc"):
                if c in attrs:
                    r[c] = self.val(attrs[c])
            dflt = {"numchild": 0, "parent_id": None}
            for c in cols:
                if c in attrs:
                    r[c] = self.val(attrs[c])
                elif c in dflt:
                    r[c] = dflt[c]
                else:
                    r[c] = None
            self.rows[pk] = r
            if self.mti is not None:
                self.mti.add(pk)
            for c in cols:
                self.lastwrite.setdefault((pk, c), []).append(e)
            self.siglog.append(("save", pk, dict(r)))
            return
        pk = self.pkof(e.rowid)
        if pk not in self.rows:
            raise Undecided("save of a missing row")
        ch = {}
        uf = e.kwargs.get("update_fields")
        only = None
        if uf is not None and uf is not NONE:
            items = uf.items if isinstance(uf, Lst) else list(uf) if isinstance(uf, tuple) else None
            if items is None or not all(isinstance(x, T) and is_const(x) for x in items):
                raise Undecided("update_fields")
            only = [cval(x) for x in items]
            only = ["parent_id" if x == "parent" else x for x in only]
        for c in cols:
            if only is not None and c not in only:
                continue
            ch[c] = self.val(attrs[c]) if c in attrs else self.ev(attr(e.rowid, c))
        if "k1" in attrs and (only is None or "k1" in only):
            ch["k1"] = self.val(attrs["k1"])
        self.put(pk, ch, e)
        self.siglog.append(("save", pk, dict(self.rows[pk])))

    def x_bulk_update(self, e):
        fields = e.fields
        items = fields.items if isinstance(fields, Lst) else fields if isinstance(fields, tuple) else None
        if items is None:
            raise Undecided("bulk_update fields")
        names = [cval(x) for x in items]
        done = []
        for rid, attrs in e.rows:
            done.append((self.pkof(rid), {self.colname(n): self.val(attrs[n]) if n in attrs else self.ev(attr(rid, n)) for n in names}))
        for pk, ch in done:
            if pk in self.rows:
                self.put(pk, ch, e)

    def x_bulk_create(self, e):
        n = sum(1 for o in e.objs.items if isinstance(o, Row)) if isinstance(e.objs, Lst) else -1
        if n != len(e.objs.items if isinstance(e.objs, Lst) else ()):
            raise Undecided("bulk_create")
        for rid, attrs in e.rows:
            self.x_save(Eff("save", e.loc, e.nconds, e.loops, e.atomic, e.stack, rowid=rid, attrs=attrs, adding=True, kwargs={}))
            self.siglog.pop()

    def x_call(self, e):
        fn = e.fn
        if fn.op == "ga" and fn.args[1] == "send":
            d = {}
            for k, v in e.kwargs.items():
                try:
                    d[k] = self.val(v)
                except Undecided:
                    d[k] = Undecided
            self.signals.append((e, fn.args[0], d))
            self.siglog.append(("signal", e, d))

    def x_lock(self, e):
        self.locks.append((e, e.qs))

    def x_refresh(self, e):
        self.refreshed.append(e.obj)

    def x_genlabel(self, e):
        pass

    # ------------------------------------------------------------ values
    def val(self, v):
        """Python value of an abstract value"""
        if isinstance(v, T):
            return self.ev(v)
        if isinstance(v, Row):
            return self.pkof(v.rowid)
        if isinstance(v, tuple):
            return tuple(self.val(x) for x in v)
        if isinstance(v, Lst):
            return [self.val(i) for i in v.items]
        if isinstance(v, QS):
            return [self.proj(v, r) for r in self.select(v, self.rows)]
        if isinstance(v, Dct):
            if v.opaque:
                raise Undecided("dict")
            return {self.val(k): self.val(x) for k, x, l in v.entries}
        if isinstance(v, ModelV):
            return v
        raise Undecided(type(v).__name__)

    def proj(self, q, r):
        if q.values is None:
            return r["pk"]
        vs = q.values
        if vs[0] == "list":
            c = [r[self.colname(x)] for x in vs[1:]]
            return c[0] if q.flat else tuple(c)
        return {x: r[self.colname(x)] for x in vs}

    def colname(self, x):
        if x in ("id", "treebase_ptr", "treebase_ptr_id"):
            return "pk"
        if x == "parent":
            return "parent_id"
        return x

    def rowval(self, rid):
        o = rid.op
        if o == "param":
            n = rid.args[0]
            if n in self.lay.env and self.lay.env[n] in self.lay.rows:
                r = self.lay.rows[self.lay.env[n]]
                if self.lay.stale and r["pk"] in self.lay.stale:
                    return {**r, **self.lay.stale[r["pk"]]}
                return r
            raise Undecided(f"parameter {n}")
        if o == "new":
            pk = self.newpk.get(rid)
            if pk is not None:
                return self.rows.get(pk) or {"pk": pk, "k1": self.lay.newkeys[0], "k2": self.lay.newkeys[1]}
            return {"k1": self.lay.newkeys[0], "k2": self.lay.newkeys[1]}
        if o == "row":
            how, q, ep = rid.args
            rows = self.rows_of(q, ep)
            if not rows:
                raise Undecided("row of an empty query")
            if how == "first" or how == "get":
                return rows[0]
            if how == "last":
                return rows[-1]
            raise Undecided("indexed row")
        if o == "elem":
            q, ep, site, k = rid.args
            rows = self.rows_of(q, ep)
            if k >= len(rows):
                raise Undecided("element out of range")
            return rows[k]
        if o == "cachedparent":
            r = self.rowval(rid.args[0])
            p = self.lay.par[r["pk"]]
            if p is None:
                raise Undecided("cached parent of a root")
            return self.lay.rows[p]
        raise Undecided("row " + o)

    def pkof(self, rid):
        if rid.op == "new":
            if rid in self.newpk:
                return self.newpk[rid]
            raise Undecided("unsaved row")
        return self.rowval(rid)["pk"]

    def ev(self, t):
        f = getattr(self, "t_" + t.op, None)
        if f is None:
            raise Undecided("term " + t.op)
        return f(t)

    def t_c(self, t):
        v = t.args[0]
        if v == "" and isinstance(v, str):
            return ()
        return v

    def num(self, v):
        if isinstance(v, bool) or v is None or not isinstance(v, (int, Fraction, float)):
            raise Undecided("not a number")
        return v

    def t_poly(self, t):
        acc = 0
        for m, c in t.args[0]:
            x = c
            for a in m:
                x = x * self.num(self.ev(a))
            acc += x
        return acc

    def t_attr(self, t):
        rid, name = t.args
        if name == "pk" and rid.op == "new":
            return self.newpk.get(rid)
        r = self.rowval(rid)
        name = self.colname(name)
        if name not in r:
            raise Undecided(f"column {name}")
        return r[name]

    def t_cached(self, t):
        """a value cached on a row object before the operation"""
        rid, name = t.args[0], t.args[1]
        n = self.lay.env.get(rid.args[0]) if rid.op == "param" else None
        if n is None or "depth" not in name:
            raise Undecided("term cached")
        d = 0
        while n is not None:
            n, d = self.lay.par[n], d + 1
        return d

    def t_form_valid(self, t):
        # the request's own data is that of its method
        d = t.args[0]
        if not isinstance(d, T) or d is not NONE and d.op not in ("post", "get"):
            raise Undecided("form data")
        return d is not NONE and self.ev(d) and self.lay.valid

    def t_post(self, t):
        return getattr(self.lay, "method", "POST") == "POST"

    def t_get(self, t):
        return not self.t_post(t)

    def t_perm(self, t):
        kind, rid = t.args
        k = (kind, None if rid is NONE else self.pkof(rid))
        if k not in self.lay.perms:
            if kind in ("module", "staff"):
                return True
            if kind in ("add", "delete") and ("change", None) in self.lay.perms:
                # who may not change a node may have every other permission, and the other way round
                return not self.lay.perms[("change", self.lay.env.get("node"))] if "target" in self.lay.env else not self.lay.perms.get(("view", None), False)
            raise Undecided(f"permission {kind}")
        return self.lay.perms[k]

    def t_form_saved(self, t):
        return self.lay.form[0]

    def t_form_errors(self, t):
        return self.lay.form[1]

    def t_formkey(self, t):
        return self.lay.formkey

    def t_F(self, t):
        if not self.ctx:
            raise Undecided("F outside a query")
        n = self.colname(t.args[0])
        if n not in self.ctx[-1]:
            if n in self.anns:
                ex = self.anns[n]
                return self.match(ex, self.ctx[-1]) if ex.op in ("existsq", "not", "and", "or") else self.ev(ex)
            raise Undecided(f"F({n})")
        return self.ctx[-1][n]

    def t_outer(self, t):
        if len(self.ctx) < 2:
            raise Undecided("outer")
        return self.ctx[-2][self.colname(t.args[0])]

    def path(self, v):
        if isinstance(v, tuple):
            return v
        if v == "":
            return ()
        raise Undecided("not a path")

    def t_pfx(self, t):
        k = self.ev(t.args[1])
        p = self.path(self.ev(t.args[0]))
        return p[:k]

    def t_sfx(self, t):
        k = self.ev(t.args[1])
        return self.path(self.ev(t.args[0]))[k:]

    def t_pathop(self, t):
        """operations on the text of a path; steps of the domain are single digits, so they match only whole steps"""
        name, p = t.args[0], self.path(self.ev(t.args[1]))
        if name == "right":
            n = self.ev(t.args[2])
            if not isinstance(n, int) or n < 0:
                raise Undecided("right of a negative length")
            return p[max(0, len(p) - n):]
        x = self.path(self.ev(t.args[2]))
        if name == "removeprefix":
            return p[len(x):] if p[:len(x)] == x else p
        if name == "removesuffix":
            return p[:-len(x)] if x and p[-len(x):] == x else p
        y = self.path(self.ev(t.args[3]))
        n = self.ev(t.args[4]) if len(t.args) > 4 else -1
        if not x:
            raise Undecided("replacement of an empty text")
        out, i = (), 0
        while i < len(p):
            if n != 0 and p[i:i + len(x)] == x:
                out, i, n = out + y, i + len(x), n - 1
            else:
                out, i = out + p[i:i + 1], i + 1
        return out

    def t_sub(self, t):
        p = self.path(self.ev(t.args[0]))
        a, n = self.ev(t.args[1]), self.ev(t.args[2])
        if a < 0:
            a += len(p)
        return p[a:a + n] if n >= 0 else p[a:len(p) + n]

    def t_cat(self, t):
        out = ()
        for x in t.args[0]:
            v = self.ev(x)
            if isinstance(v, str) and self.lay.backend == "LT" and out:
                out = out[:-1] + (out[-1] + v,)
                continue
            out = out + self.path(v)
        return out

    def t_value(self, t):
        return self.ev(t.args[0])

    def t_step(self, t):
        n = self.ev(t.args[0])
        if isinstance(n, tuple):
            return n
        if self.lay.backend == "MP" and (not isinstance(n, int) or n < 0 or n > MAXSTEP):
            raise Undecided("step out of range")
        return (n,)

    def t_lastpos(self, t):
        p = self.path(self.ev(t.args[0]))
        if not p:
            raise Undecided("last step of an empty path")
        return p[-1]

    def t_steps(self, t):
        return len(self.path(self.ev(t.args[0])))

    def t_steplen(self, t):
        return STEPCHARS

    def t_str(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, (str, int)) and not isinstance(v, bool):
            return str(v)
        raise Undecided("term str")

    def text_len(self, t, top=True):
        """length of a text for people (the markers of unknown texts are taken to be 7 characters)"""
        if t.op in ("safe", "esc"):
            return self.text_len(t.args[0], False)
        if t.op in ("lit", "label"):
            return 7
        if is_const(t) and isinstance(cval(t), str) and not top:
            return len(cval(t))
        if t.op == "str" and t.args[0].op == "label":
            return 7
        if t.op == "rep" and (not top or t.args[0].op in ("safe", "esc", "lit")):
            k = self.text_len(t.args[0], False)
            return None if k is None else k * self.ev(t.args[1])
        if t.op == "cat":
            ks = [self.text_len(x, False) for x in t.args[0]]
            if None not in ks and (not top or any(x.op in ("safe", "esc", "lit", "label") for x in t.args[0])):
                return sum(ks)
        return None

    def t_len(self, t):
        a = t.args[0]
        if a.op == "int2str":
            n = self.ev(a.args[0])
            if self.lay.cap is not None:
                return STEPCHARS + (n > self.lay.cap)
            k = 1
            while n >= 36:
                n //= 36
                k += 1
            return k
        k = self.text_len(a)
        if k is not None:
            return k
        v = self.ev(a)
        if isinstance(v, list):
            return len(v)
        if isinstance(v, int) and not isinstance(v, bool):
            return len(str(v))  # the digits of a number column
        if isinstance(v, tuple):
            return len(v) * (STEPCHARS if self.lay.backend == "MP" else 1) - (v.count(HALF) if self.lay.backend == "MP" else 0)
        raise Undecided("len")

    def t_ga(self, t):
        if t.args[1] == "max_length":
            return self.lay.maxlen
        if t.args[1] == "vendor":
            return "mysql" if "mysql" in self.lay.flags else "sqlite"
        if t.args[1] == "can_return_rows_from_bulk_insert":
            return "mysql" not in self.lay.flags
        raise Undecided("attribute " + str(t.args[1]))

    def t_rep(self, t):
        a, n = t.args
        if self.ev(n) == STEPCHARS:
            if a.op == "alpha0":
                return (0,)
            if a.op == "alphaZ":
                return (MAXSTEP,)
            if a.op == "c" and isinstance(a.args[0], str) and self.lay.backend == "MP":
                return (2,)  # a fixed character: some alphabet has it at its third place
        raise Undecided("rep")

    def t_fmt(self, t):
        if self.lay.backend == "MP" and t.args[0].op == "int2str" and t.args[1].op == "c" and isinstance(t.args[1].args[0], str):
            return (EVIL,)  # padded with a fixed character, which an alphabet need not contain
        raise Undecided("fmt")

    def t_case(self, t):
        for w in t.args[0]:
            if w.op != "when":
                raise Undecided("case")
            if not self.ctx:
                raise Undecided("case outside a query")
            if self.match(w.args[0], self.ctx[-1]):
                return self.ev(w.args[1])
        return self.ev(t.args[1])

    def t_greatest(self, t):
        return max(self.ev(x) for x in t.args[0])

    def t_least(self, t):
        return min(self.ev(x) for x in t.args[0])

    def t_coalesce(self, t):
        for x in t.args[0]:
            v = self.ev(x)
            if v is not None:
                return v
        return None

    def t_label(self, t):
        if t in self.labels:
            return self.labels[t]
        b, a = self.ev(t.args[0]), self.ev(t.args[1])
        b = b[-1] if isinstance(b, tuple) and b else b or None
        a = a[-1] if isinstance(a, tuple) and a else a or None
        lo, hi = a or "", b or "ZZZZ"
        cands = sorted({(a or "A") + "5", (a or "") + "A5" if not a else a + "05"})
        if a and b is None and a[0] != "Z":
            cands = ["A" if a[0] == "9" else chr(ord(a[0]) + 1)]
        cands = [c for c in cands if lo < c < hi]
        if not cands:
            x = (a or "") + "0"
            while len(x) < 12 and not (lo < x + "5" < hi):
                x += "0"
            if not lo < x + "5" < hi:
                raise Undecided("no label")
            cands = [x + "5"]
        self.labels[t] = cands[0]
        return cands[0]

    def lab(self, t):
        v = self.ev(t)
        if isinstance(v, tuple):
            v = v[-1] if v else None
        return v or None

    def label_fails(self, before, after):
        """contract of generate_label: no room between `after` (or the first character) and `before`"""
        b = self.lab(before)
        start = self.lab(after) or "0"
        return b is not None and (b <= start or b == start + "0")

    # aggregates
    def t_count(self, t):
        return len(self.select(t.args[0].args[0], self.snap(t.args[1])))

    def t_aggval(self, t):
        ag, qs, ep = t.args
        rows = self.select(qs.args[0], self.snap(ep))
        return self.agg(ag, rows)

    def agg(self, ag, rows):
        if ag.op == "agg":
            name, x = ag.args[0], ag.args[1]
            vals = []
            for r in rows:
                self.ctx.append(r)
                try:
                    vals.append(r["pk"] if x.op == "c" else self.ev(x))
                finally:
                    self.ctx.pop()
            vals = [v for v in vals if v is not None]
            if name == "Count":
                return len(vals)
            if name in ("Max", "Min", "Sum"):
                return {"Max": max, "Min": min, "Sum": sum}[name](vals) if vals else None
        if ag.op == "poly":
            acc = 0
            for m, c in ag.args[0]:
                x = c
                for a in m:
                    v = self.agg(a, rows)
                    if v is None:
                        return None
                    x *= v
                acc += x
            return acc
        if ag.op == "coalesce":
            for x in ag.args[0]:
                v = self.agg(x, rows) if x.op != "value" and x.op != "c" else self.ev(x)
                if v is not None:
                    return v
            return None
        raise Undecided("aggregate")

    def t_rowcount(self, t):
        if t.args[0] not in self.affected:
            raise Undecided("row count")
        return self.affected[t.args[0]]

    def t_truediv(self, t):
        return self.num(self.ev(t.args[0])) / self.num(self.ev(t.args[1]))

    def t_floordiv(self, t):
        return self.num(self.ev(t.args[0])) // self.num(self.ev(t.args[1]))

    def t_mod(self, t):
        return self.num(self.ev(t.args[0])) % self.num(self.ev(t.args[1]))

    def t_max(self, t):
        return max(self.val(x) for x in t.args)

    def t_min(self, t):
        return min(self.val(x) for x in t.args)

    def t_intof(self, t):
        return int(self.ev(t.args[0]))

    # conditions
    def t_nonempty(self, t):
        a = t.args[0]
        if a.op == "qs":
            return bool(self.select(a.args[0], self.snap(t.args[1])))
        raise Undecided("emptiness of a list")

    def t_existsq(self, t):
        q = t.args[0].args[0]
        return bool(self.select(q, self.cur))

    def t_pos(self, t):
        return self.num(self.ev(t.args[0])) > 0

    def t_eq0(self, t):
        return self.num(self.ev(t.args[0])) == 0

    def t_eq(self, t):
        return self.ev(t.args[0]) == self.ev(t.args[1])

    t_same = t_eq

    def t_slt(self, t):
        a, b = self.ev(t.args[0]), self.ev(t.args[1])
        try:
            return a < b
        except TypeError:
            raise Undecided("comparison")

    def t_startswith(self, t):
        a, b = self.path(self.ev(t.args[0])), self.path(self.ev(t.args[1]))
        if self.lay.backend == "LT":  # str.startswith: a comparison of the dotted texts
            return ".".join(a).startswith(".".join(b))
        return a[:len(b)] == b

    def t_isnull(self, t):
        return self.ev(t.args[0]) is None

    def t_truth(self, t):
        return bool(self.ev(t.args[0]))

    def t_not(self, t):
        return not self.ev(t.args[0])

    def t_and(self, t):
        return all(self.ev(x) for x in t.args[0])

    def t_or(self, t):
        return any(self.ev(x) for x in t.args[0])

    def t_inqs(self, t):
        x = self.ev(t.args[0])
        q = t.args[1].args[0]
        return x in [self.proj(q, r) for r in self.select(q, self.rows)]

    def t_in(self, t):
        x, c = t.args
        if c.op == "alphabet":
            v = self.ev(x)
            return v != EVIL
        raise Undecided("term in")

    def t_dbwrite(self, t):
        return ("db", t.op)

    t_dbread = t_alias = t_defaultdb = t_dbwrite

    def t_rowdb(self, t):
        return ("db", "row", self.ev(t.args[0]))

    def t_vendor(self, t):
        return "mysql" in self.lay.flags and "mysql" in repr(t.args)

    def t_all(self, t):
        # all(path[i] == part for i, part in enumerate(other))
        body, src = t.args[0], t.args[1]
        p = self.path(self.ev(src)) if isinstance(src, T) else None
        if p is None:
            raise Undecided("all")
        sv = getattr(self, "seqidx", None)
        try:
            for i, part in enumerate(p):
                self.seqidx = (i, part)
                if not self.ev(body):
                    return False
            return True
        except IndexError:
            raise Undecided("index error")
        finally:
            self.seqidx = sv

    def t_any(self, t):
        return not self.t_all(T("all", pnot(t.args[0]), *t.args[1:]))

    def t_idx(self, t):
        if getattr(self, "seqidx", None) is None:
            raise Undecided("idx")
        return self.seqidx[0]

    def t_item_of(self, t):
        if getattr(self, "seqidx", None) is None:
            raise Undecided("item_of")
        return self.seqidx[1]

    def t_item(self, t):
        b = self.ev(t.args[0])
        i = self.ev(t.args[1])
        if isinstance(b, tuple):
            if not -len(b) <= i < len(b):
                raise Undecided("index")
            return b[i]
        raise Undecided("item")

    def t_call(self, t):
        fn = t.args[0]
        if fn.op == "fn" and self.oracle:
            r = self.oracle(self, fn.args[0].split(".")[-1], t.args[1])
            if r is not None:
                return r
        raise Undecided("call")

    def t_annot(self, t):
        rid, ex = t.args
        r = self.rowval(rid)
        sv, self.cur = self.cur, self.snap(rid.args[2] if rid.op == "row" else rid.args[1])
        sa = self.anns
        if rid.op == "elem" and isinstance(rid.args[0], QS):
            self.anns = dict(rid.args[0].annots)
        self.ctx.append(r)
        try:
            return self.match(ex, r) if ex.op in ("existsq", "not", "and", "or") else self.ev(ex)
        finally:
            self.ctx.pop()
            self.cur, self.anns = sv, sa

    def t_subquery(self, t):
        """value of a scalar subquery for the row on top of the context"""
        q = t.args[0].args[0]
        if not self.ctx or q.cut or not q.values:
            raise Undecided("subquery")
        outer = self.ctx[-1]
        names = [x for x in q.values if x != "list"]
        if len(names) != 1 or self.cur is None:
            raise Undecided("subquery")
        rows = [x for x in self.table(q.model, self.cur) if self.match_outer(q, outer, x)]
        an = dict(q.annots)
        if names[0] in an:
            self.ctx.append(outer)
            try:
                return self.agg(an[names[0]], rows)
            finally:
                self.ctx.pop()
        rows = self.sort(rows, q)
        return rows[0][self.colname(names[0])] if rows else None

    def t_qs(self, t):
        q = t.args[0]
        return [self.proj(q, r) for r in self.select(q, self.cur)]

    def t_rowv(self, t):
        return self.pkof(t.args[0])

    def t_lst(self, t):
        if t.args and isinstance(t.args[0], tuple):
            return [self.ev(x) for x in t.args[0]]
        raise Undecided("list")

    def t_tup(self, t):
        return tuple(self.ev(x) for x in t.args[0])

    # ------------------------------------------------------------ queries
    cur = None

    def table(self, m, base):
        """the rows a model has: all, or for a multi-table child of the tree model its own"""
        if self.mti is not None and is_child_model(m):
            return [r for pk, r in base.items() if pk in self.mti]
        return list(base.values())

    def t_no_mti(self, t):
        return self.mti is None

    def select(self, q, base, nocut=False):
        sv, sa = self.cur, self.anns
        self.cur = base
        self.anns = dict(q.annots)
        try:
            rows = [r for r in self.table(q.model, base) if self.match(q.where, r, q)]
            order = q.order
            rows = self.sort(rows, q)
            if q.rev:
                rows = rows[::-1]
            for c in (q.cut or ()):
                pass
            if q.cut:
                if len(q.cut) == 2 and all(isinstance(c, T) for c in q.cut):
                    lo, hi = [self.ev(c) for c in q.cut]
                    rows = rows[lo:hi]
                else:
                    raise Undecided("slice")
            return rows
        finally:
            self.cur, self.anns = sv, sa

    def sort(self, rows, q):
        order = q.order
        if not order:
            return sorted(rows, key=lambda r: str(r["pk"]), reverse=True)  # unspecified order: the opposite of document order
        keys = []
        for o in order:
            if not isinstance(o, str):
                raise Undecided("order")
            desc = o.startswith("-")
            o = self.colname(o.lstrip("-"))
            keys.append((o, desc))
        rows = sorted(rows, key=lambda r: str(r["pk"]), reverse=True)
        for o, desc in reversed(keys):
            if rows and o not in rows[0]:
                raise Undecided("order by " + o)
            rows = sorted(rows, key=lambda r: (r[o] is not None, r[o]) if not isinstance(r[o], tuple) else (True, r[o]), reverse=desc)
        return rows

    def match(self, p, r, q=None):
        o = p.op
        if p is TRUE:
            return True
        if p is FALSE:
            return False
        if o == "and":
            return all(self.match(x, r, q) for x in p.args[0])
        if o == "or":
            return any(self.match(x, r, q) for x in p.args[0])
        if o == "not":
            return not self.match(p.args[0], r, q)
        if o == "existsq":
            self.ctx.append(r)
            self.ctx.append({})
            try:
                qq = p.args[0].args[0]
                return any(self.match_outer(qq, r, x) for x in self.table(qq.model, self.cur))
            finally:
                self.ctx.pop()
                self.ctx.pop()
        if o == "lk":
            return self.lookup(p, r)
        raise Undecided("predicate " + o)

    def match_outer(self, q, outer, x):
        self.ctx.append(outer)
        self.ctx.append(x)
        sa, self.anns = self.anns, dict(q.annots)
        try:
            return self.match(q.where, x, q)
        finally:
            self.anns = sa
            self.ctx.pop()
            self.ctx.pop()

    def lookup(self, p, r):
        f, lk, v = p.args
        if self.ctx and self.ctx[-1] is not r:
            self.ctx.append(r)
            pushed = True
        elif not self.ctx:
            self.ctx.append(r)
            pushed = True
        else:
            pushed = False
        try:
            if isinstance(f, T):
                if f.op == "expr":
                    x = f.args[0]
                    if x.op == "existsq":
                        fv = self.match(x, r)
                    else:
                        fv = self.ev(x)
                else:
                    raise Undecided(f"field term {show(f)[:80]}")
            else:
                fv = self.field(f, r)
            if isinstance(v, tuple):
                val = tuple(self.val(x) for x in v)
            else:
                val = self.val(v)
        finally:
            if pushed:
                self.ctx.pop()
        if lk == "exact":
            return fv == val
        if lk == "isnull":
            return (fv is None) == bool(val)
        if lk == "in":
            if isinstance(val, (list, tuple, set)):
                return fv in val
            raise Undecided("in")
        if fv is None or val is None:
            return False
        try:
            if lk == "gt":
                return fv > val
            if lk == "gte":
                return fv >= val
            if lk == "lt":
                return fv < val
            if lk == "lte":
                return fv <= val
            if lk == "range":
                return val[0] <= fv <= val[1]
        except TypeError:
            raise Undecided("lookup types")
        if lk == "startswith" and isinstance(fv, tuple):
            return fv[:len(val)] == val
        if lk == "descendants":
            return fv[:len(val)] == val
        if lk == "ancestors":
            return val[:len(fv)] == fv
        raise Undecided("lookup " + str(lk))

    def field(self, f, r):
        f = self.colname(f) if isinstance(f, str) else f
        if f == "pathdepth":
            return len(r["path"])
        if f in r:
            return r[f]
        if f.startswith("parent__") and "parent_id" in r:
            n = f[8:]
            p = r["parent_id"]
            if p is None:
                return None
            pr = self.cur.get(p)
            if pr is None:
                raise Undecided("parent row")
            return self.field(n, pr)
        if f in self.anns:
            self.ctx.append(r)
            try:
                return self.ev(self.anns[f])
            finally:
                self.ctx.pop()
        if any(f in cols for cols in TREECOLS.values()):
            raise NoColumn(f)
        raise Undecided("column " + str(f))

    # ------------------------------------------------------------ in-memory state
    def mem(self, row, name):
        """value of attribute `name` of a Row object when the operation returned"""
        if name in row.attrs:
            return self.val(row.attrs[name])
        return self.ev(attr(row.rowid, name))
