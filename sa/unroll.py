"""The demand-driven variant of the analysis.

Loops over rows are unrolled one row at a time; whether there is a further row,
and every branch, is a *decision* (`choose`).  The decisions are taken by the
finite position domain (layout.py), so only paths that are feasible for some
relative position are enumerated, and containers, flags and loop-carried
variables stay exact.
"""
import ast
from dataclasses import replace

from .interp import *
from .terms import *
from .source import ClassInfo
from .values import *


DESERIALIZED = ClassInfo(ast.parse("class DeserializedObject: pass").body[0], None)


class UInterp(Interp):
    # ---------------------------------------------------------- iteration
    def to_iter(self, it, node):
        if isinstance(it, QS):
            self.read(it, "iter")
            return list(self.qs_list(it))
        if isinstance(it, T) and it.op == "qs":
            return self.to_iter(it.args[0], node)
        r = super().to_iter(it, node)
        out = []
        for x in r if isinstance(r, list) else [r]:
            if isinstance(x, Many):
                out += self.unroll(x)
            else:
                out.append(x)
        return out

    def unroll(self, m):
        src = m.src
        out = []
        if isinstance(src, QS) and isinstance(m.value, Builtin):
            out = list(self.qs_list(src))
            return out[::-1] if m.rev is True else out
        if isinstance(src, T) and src.op == "range":
            a, b = src.args[:2]
            st = src.args[2] if len(src.args) > 2 else const(1)
            if not (is_const(st) and isinstance(cval(st), int) and cval(st) != 0) and st.op != "steplen":
                raise Cut("range with a step")
            sg = -1 if is_const(st) and cval(st) < 0 else 1
            while self.branch(self.a_pos(mul(const(sg), sub(sub(b, a), mul(st, const(len(out))))))):
                out.append(add(a, mul(st, const(len(out)))))
                if len(out) > 30:
                    raise Cut("range bound")
            return out
        if isinstance(src, T) and src.op not in ("top", "nob"):
            while self.choose(2, "moreitem", src, len(out)) == 1:
                out.append(self.getitem(src, const(len(out))) if is_path(src) else T("item", src, const(len(out))))
                if len(out) > 30:
                    raise Cut("sequence bound")
            return out
        raise Cut("iteration over an unknown value")

    def qs_epoch(self, q):
        c = self.qcache.get(id(q))
        return c[1] if c else None

    def qs_list(self, q):
        """the rows of a queryset object, evaluated once per object"""
        c = self.qcache.get(id(q))
        if c is not None:
            return c[2]
        rows = []
        ep = self.epoch
        if q.where is not FALSE:
            if q.lock:
                self.eff("lock", qs=q, how="iter")
            self.eff("fetch", qs=q)
            m = self.qs_many(q)
            while self.choose(2, "more", q, ep, len(rows)) == 1:
                r = m.value.f(NONE, len(rows))
                if isinstance(r, Row):
                    for n, ex in q.annots:
                        r.attrs[n] = T("annot", r.rowid, ex)
                rows.append(r)
                if len(rows) > 40:
                    raise Cut("row bound")
        self.qcache[id(q)] = (q, ep, rows)
        return rows

    def unpack(self, elts, v, fr):
        if isinstance(v, QS):
            self.read(v, "iter")
            v = Lst(self.qs_list(v))
        return super().unpack(elts, v, fr)

    def nonempty(self, q):
        c = self.qcache.get(id(q))
        if c is not None:
            return const(bool(c[2]))
        return super().nonempty(q)

    def truth_atom(self, v):
        if isinstance(v, QS):
            self.read(v, "iter")
            return const(bool(self.qs_list(v)))
        return super().truth_atom(v)

    def q_count(self, q, a, k):
        c = self.qcache.get(id(q))
        return const(len(c[2])) if c is not None else super().q_count(q, a, k)

    def b_len(self, args, kwargs):
        if isinstance(args[0], QS):
            self.read(args[0], "iter")
            return const(len(self.qs_list(args[0])))
        return super().b_len(args, kwargs)

    def qs_slice(self, q, k):
        c = self.qcache.get(id(q))
        if c is not None:
            return self.getitem(Lst(c[2]), k)
        if isinstance(k, SliceV):
            if k.st is not None and k.st is not NONE:
                return self.getitem(Lst(self.qs_list(q)), k)
            return super().qs_slice(q, k)
        self.read(q, "index")
        if isinstance(k, T) and is_const(k) and isinstance(cval(k), int) and cval(k) >= 0:
            for i in range(cval(k) + 1):
                if self.choose(2, "more", q, self.epoch, i) == 0:
                    self.raise_("IndexError")
            return self.qs_many(q).value.f(NONE, cval(k))
        raise Cut("queryset index")

    def q_get(self, q, a, k):
        if a or k:
            q = self.q_filter(q, a, k)
        self.read(q, "get")
        if self.choose(2, "more", q, self.epoch, 0) == 0:
            raise PyRaise(Ext("django.DoesNotExist"), (), self.loc)
        if self.choose(2, "more", q, self.epoch, 1) == 1:
            raise PyRaise(Ext("django.MultipleObjectsReturned"), (), self.loc)
        return self.qs_many(q).value.f(NONE, 0)

    def q_in_bulk(self, q, a, k):
        if a and a[0] is not NONE:
            q = self.q_filter(q, [], {"pk__in": a[0]})
        d = Dct()
        for r in self.qs_list(q):
            d.entries.append([r.pk(), r, None])
        return d

    def q_latest(self, q, a, k):
        if a:
            q = self.q_order_by(q, a, k)
        r = self.q_last(q, [], {})
        if r is NONE:
            raise PyRaise(Ext("django.DoesNotExist"), (), self.loc)
        return r

    def q_earliest(self, q, a, k):
        if a:
            q = self.q_order_by(q, a, k)
        r = self.q_first(q, [], {})
        if r is NONE:
            raise PyRaise(Ext("django.DoesNotExist"), (), self.loc)
        return r

    def contains(self, x, c):
        if isinstance(c, QS):
            c = Lst(self.qs_list(c))
        return super().contains(x, c)

    def s_While(self, s, fr):
        n = 0
        while self.truth(self.ev(s.test, fr)):
            n += 1
            if n > 60:
                raise Cut("while bound")
            try:
                self.block(s.body, fr)
            except ContinueX:
                pass
            except BreakX:
                return
        self.block(s.orelse, fr)

    def generic(self, m, assign, body, node, fr, stmts):
        for x in self.unroll(m):
            assign(x)
            try:
                body()
            except ContinueX:
                pass
            except BreakX:
                return True
        return False

    # ---------------------------------------------------------- containers
    def equal(self, a, b):
        return self.branch(self.eq(a, b))

    def has(self, items, v):
        return any(self.equal(v, x) for x in items)

    def lst_append(self, l, v, front=False):
        if l.kind in ("set", "frozenset") and self.has(l.items, v):
            return
        l.items.insert(0, v) if front else l.items.append(v)

    def lst_extend(self, l, v):
        for x in self.to_iter(v, None):
            self.lst_append(l, x)

    def as_items(self, v):
        if isinstance(v, (Lst, Dct, QS, tuple)):
            return self.to_iter(v, None)
        return None

    def setop(self, o, a, b):
        if o in ("BitAnd", "Sub", "BitXor", "BitOr") and not (isinstance(a, Dct) and isinstance(b, Dct)):
            x, y = self.as_items(a), self.as_items(b)
            if x is not None and y is not None:
                if o == "BitAnd":
                    r = [i for i in x if self.has(y, i)]
                elif o == "Sub":
                    r = [i for i in x if not self.has(y, i)]
                elif o == "BitXor":
                    r = [i for i in x if not self.has(y, i)] + [i for i in y if not self.has(x, i)]
                else:
                    r = x + [i for i in y if not self.has(x, i)]
                return Lst(r, "set", 0)
        if o == "Mult" and isinstance(a, Lst) and isinstance(b, T) and is_const(b):
            return Lst(a.items * cval(b), a.kind, 0)
        return super().setop(o, a, b)

    def dfind(self, d, k):
        for e in d.entries:
            if self.equal(k, e[0]):
                return e
        return None

    def dset(self, d, k, v):
        e = self.dfind(d, k)
        if e is not None:
            e[1] = v
        else:
            d.entries.append([k, v, None])

    def setitem(self, o, k, v):
        if isinstance(o, Dct):
            self.eff("setitem", container=o, key=k, value=v)
            return self.dset(o, k, v)
        return super().setitem(o, k, v)

    def delitem(self, o, k):
        if isinstance(o, Dct):
            e = self.dfind(o, k)
            if e is None:
                self.raise_("KeyError", (k,))
            o.entries.remove(e)
            return
        if isinstance(o, Lst):
            if isinstance(k, T) and is_const(k) and isinstance(cval(k), int):
                try:
                    del o.items[cval(k)]
                    return
                except IndexError:
                    self.raise_("IndexError")
            if isinstance(k, SliceV):
                lo = cval(k.lo) if k.lo is not None and k.lo is not NONE else None
                hi = cval(k.hi) if k.hi is not None and k.hi is not NONE else None
                del o.items[lo:hi]
                return
        return super().delitem(o, k)

    def coll_getattr(self, o, name):
        b = self.coll_method(o, name)
        if getattr(o, "shared", None) and isinstance(b, Builtin) and name in ("append", "add", "extend", "update", "insert", "appendleft", "extendleft", "setdefault"):
            def changing(a, k):
                self.eff("memo", where_kept=f"the shared {o.shared}", key=(), value=tuple(a) + tuple(k.values()), queries=[], under=self.conds)
                return self.call(b, list(a), k)
            return Builtin(name, changing)
        return b

    def coll_method(self, o, name):
        def B(f):
            return Builtin(name, f)
        if isinstance(o, Lst):
            if name in ("discard", "remove"):
                def rm(a, k):
                    for i, x in enumerate(o.items):
                        if self.equal(x, a[0]):
                            del o.items[i]
                            return NONE
                    if name == "remove":
                        self.raise_("KeyError" if o.kind == "set" else "ValueError")
                    return NONE
                return B(rm)
            if name == "extendleft":
                def el(a, k):
                    for x in self.to_iter(a[0], None):
                        o.items.insert(0, x)
                    return NONE
                return B(el)
            if name == "insert":
                def ins(a, k):
                    if not is_const(a[0]):
                        raise Cut("insert at")
                    o.items.insert(cval(a[0]), a[1])
                    return NONE
                return B(ins)
            if name in ("count", "index"):
                def cnt(a, k):
                    hits = [i for i, x in enumerate(o.items) if self.equal(x, a[0])]
                    if name == "count":
                        return const(len(hits))
                    if not hits:
                        self.raise_("ValueError")
                    return const(hits[0])
                return B(cnt)
            if name == "isdisjoint":
                return B(lambda a, k: const(not self.setop("BitAnd", o, a[0]).items))
            if name in ("issubset", "issuperset"):
                def iss(a, k):
                    x, y = o.items, self.to_iter(a[0], None)
                    if name == "issuperset":
                        x, y = y, x
                    return const(all(self.has(y, i) for i in x))
                return B(iss)
            if name in ("difference_update", "intersection_update"):
                def du(a, k):
                    o.items = self.setop("Sub" if name[0] == "d" else "BitAnd", o, a[0]).items
                    return NONE
                return B(du)
            if name == "sort":
                def st(a, k):
                    o.items = self.b_sorted([o], k).items
                    return NONE
                return B(st)
        if isinstance(o, Dct):
            if name == "pop":
                def pp(a, k):
                    e = self.dfind(o, a[0])
                    if e is not None:
                        o.entries.remove(e)
                        return e[1]
                    if len(a) > 1:
                        return a[1]
                    self.raise_("KeyError")
                return B(pp)
            if name == "popitem":
                def pi(a, k):
                    if not o.entries:
                        self.raise_("KeyError")
                    e = o.entries.pop()
                    return (e[0], e[1])
                return B(pi)
            if name == "setdefault":
                def sd(a, k):
                    e = self.dfind(o, a[0])
                    if e is not None:
                        return e[1]
                    v = a[1] if len(a) > 1 else NONE
                    o.entries.append([a[0], v, None])
                    return v
                return B(sd)
            if name == "clear":
                return B(lambda a, k: (o.entries.clear(), NONE)[1])
            if name == "update" and o.kind == "counter":
                def cu(a, k):
                    for x in self.to_iter(a[0], None):
                        self.setitem(o, x, self.binop("Add", self.dct_get(o, x, True), const(1)))
                    return NONE
                return B(cu)
        return super().coll_getattr(o, name)

    def b_Counter(self, args, kwargs):
        d = Dct("counter", 0)
        for x in self.to_iter(args[0], None) if args else ():
            self.setitem(d, x, add(self.as_term(self.dct_get(d, x, True)), const(1)))
        return d

    def dct_get(self, o, k, aug=False, default=None):
        e = self.dfind(o, k)
        if e is not None:
            return e[1]
        if o.opaque:
            return super().dct_get(o, k, aug, default)
        if default is not None:
            return default
        if o.kind == "counter":
            return const(0)
        if o.default is not None:
            v = self.call(o.default, [], {})
            o.entries.append([k, v, None])
            return v
        self.raise_("KeyError", (k,))

    def b_dict(self, args, kwargs):
        d = Dct("dict", 0)
        for a in args:
            if isinstance(a, T):
                d.opaque, d.src = True, a
                continue
            if isinstance(a, Dct):
                d.opaque = d.opaque or a.opaque
                for k, v, _ in a.entries:
                    self.dset(d, k, v)
            else:
                for x in self.to_iter(a, None):
                    k, v = self.to_iter(x, None)
                    self.dset(d, k, v)
        for k, v in kwargs.items():
            self.dset(d, const(k) if isinstance(k, str) else k, v)
        return d

    def less(self, a, b):
        if isinstance(a, Lst):
            a = tuple(a.items)
        if isinstance(b, Lst):
            b = tuple(b.items)
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                if not self.equal(x, y):
                    return self.less(x, y)
            return len(a) < len(b)
        return self.branch(self.lt(a, b))

    def b_sorted(self, args, kwargs):
        items = self.to_iter(args[0], None)
        key = kwargs.get("key")
        rev = self.truth(kwargs["reverse"]) if "reverse" in kwargs else False
        ks = [self.call(key, [x], {}) if key not in (None, NONE) else x for x in items]
        out = []
        for k, x in zip(ks, items):
            i = len(out)
            while i > 0 and (self.less(out[i - 1][0], k) if rev else self.less(k, out[i - 1][0])):
                i -= 1
            out.insert(i, (k, x))
        return Lst([x for _, x in out], "list", 0)

    def b_reversed(self, args, kwargs):
        v = args[0]
        if isinstance(v, T) and is_path(v):
            return super().b_reversed(args, kwargs)
        return Lst(self.to_iter(v, None)[::-1], "list", 0)

    def minmax(self, args, kwargs, small):
        items = self.to_iter(args[0], None) if len(args) == 1 else list(args)
        key = kwargs.get("key")
        if not items:
            if "default" in kwargs:
                return kwargs["default"]
            self.raise_("ValueError")
        best = items[0]
        kb = self.call(key, [best], {}) if key else best
        for x in items[1:]:
            kx = self.call(key, [x], {}) if key else x
            if self.less(kx, kb) if small else self.less(kb, kx):
                best, kb = x, kx
        return best

    def b_min(self, args, kwargs):
        return self.minmax(args, kwargs, True)

    def b_max(self, args, kwargs):
        return self.minmax(args, kwargs, False)

    def b_sum(self, args, kwargs):
        acc = args[1] if len(args) > 1 else const(0)
        for x in self.to_iter(args[0], None):
            acc = self.binop("Add", acc, self.num_of(x))
        return acc

    def num_of(self, x):
        if isinstance(x, T) and (x is TRUE or x is FALSE):
            return const(int(cval(x)))
        if isinstance(x, T) and x.op in ATOMS:
            return const(int(self.branch(x)))
        return x

    def b_groupby(self, args, kwargs):
        key = args[1] if len(args) > 1 else kwargs.get("key")
        out = []
        for x in self.to_iter(args[0], None):
            k = self.call(key, [x], {}) if key not in (None, NONE) else x
            if out and self.equal(out[-1][0], k):
                out[-1][1].items.append(x)
            else:
                out.append((k, Lst([x], "gen", 0)))
        return Lst(out, "gen", 0)

    # ---------------------------------------------------------- serializers
    SER_COLS = {"MP": ("path", "depth", "numchild"), "NS": ("tree_id", "lft", "rgt", "depth"), "AL": ("parent", "sib_order"), "LT": ("path",)}

    def b_serialize(self, args, kwargs):
        objs = args[1] if len(args) > 1 else kwargs.get("queryset", TOP)
        if not (args and is_const(args[0]) and cval(args[0]) == "python") or len(args) > 2 or set(kwargs) - {"queryset"}:
            raise Cut("serializer")
        out = []
        for r in self.to_iter(objs, None):
            if not isinstance(r, Row):
                raise Cut("serialize a non-row")
            f = Dct()
            b = r.model.base.name[:2]
            for c in self.SER_COLS[b]:
                if c == "parent":
                    f.entries.append([const(c), self.row_getattr(r, "parent_id"), None])
                elif c != "sib_order" or not self.cfg.sorted:
                    f.entries.append([const(c), self.row_getattr(r, c), None])
            for c in ("k1", "desc"):
                f.entries.append([const(c), T("attr", r.rowid, c), None])
            d = Dct()
            d.entries = [[const("model"), T("ga", T("meta", r.model.name), "label_lower"), None], [const("pk"), self.row_getattr(r, "pk"), None], [const("fields"), f, None]]
            out.append(d)
        return Lst(out)

    def b_deserialize(self, args, kwargs):
        if not (args and is_const(args[0]) and cval(args[0]) == "python"):
            raise Cut("deserializer")
        out = []
        for d in self.to_iter(args[1], None):
            fields = self.getitem(d, const("fields"))
            pk = self.dct_get(d, const("pk"), default=NONE)
            model = self.getitem(d, const("model"))
            m = getattr(self, "deser_model", None)
            if m is None or not isinstance(fields, Dct) or fields.opaque:
                raise Cut("deserializer fields")
            kw = {}
            for k, v, _ in fields.entries:
                if not is_const(k):
                    raise Cut("deserializer field name")
                kw[cval(k)] = v
            r = self.new_row(m, [], kw)
            if pk is not NONE:
                r.attrs["pk"] = pk
            self.eff("deserialized", obj=r, model=model)
            out.append(Inst(DESERIALIZED, {"object": r, "m2m_data": Dct()}))
        return Lst(out, "gen")

    def b_zip(self, args, kwargs):
        return Lst([tuple(t) for t in zip(*[self.to_iter(a, None) for a in args])])

    def b_filter(self, args, kwargs):
        f = args[0]
        return Lst([x for x in self.to_iter(args[1], None) if self.truth(x if f is NONE else self.call(f, [x], {}))], "gen")

    def b_islice(self, args, kwargs):
        a = [cval(x) if is_const(x) else None for x in args[1:]]
        return Lst(self.to_iter(args[0], None)[slice(*a)], "gen")

    def b_next(self, args, kwargs):
        it = args[0]
        items = it.items if isinstance(it, Lst) else self.to_iter(it, None)
        if not items:
            if len(args) > 1:
                return args[1]
            self.raise_("StopIteration")
        return items.pop(0) if isinstance(it, Lst) and it.kind == "gen" else items[0]

    def b_iter(self, args, kwargs):
        return Lst(self.to_iter(args[0], None), "gen")

    def quant(self, v, which):
        for x in self.to_iter(v, None):
            if self.truth(x) == (which == "any"):
                return const(which == "any")
        return const(which == "all")

    def col(self, rid, f, q):
        for n, ex in q.annots:
            if n == f:
                return T("annot", rid, ex)
        return super().col(rid, f, q)

    def row_getattr(self, r, name):
        v = super().row_getattr(r, name)
        if name == "parent" and isinstance(v, Row) and r.model.base.name.startswith("AL"):
            r.attrs["parent"] = v
        return v
