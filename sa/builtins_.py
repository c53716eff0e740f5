"""Containers, Python builtins and the external functions the package uses."""
from dataclasses import replace

from . import prelude
from .terms import *
from .source import *
from .values import *

PURE = {"gettext", "gettext_noop", "gettext_lazy", "_", "ngettext"}


class BuiltinsMixin:
    # ------------------------------------------------------------ containers
    def lst_append(self, l, v, front=False):
        if len(self.loops) > l.depth:
            lp = self.loops[l.depth:]
            m = Many(v, lp[0][1] if lp else None, rev=bool(lp[0][2]) if lp else False, order="filled", loops=tuple(lp))
            if front:
                m.rev = not m.rev
                l.items.insert(0, m)
            else:
                l.items.append(m)
        else:
            l.items.insert(0, v) if front else l.items.append(v)

    def lst_extend(self, l, v):
        v = self.to_iter(v, None)
        if isinstance(v, Many):
            v = [v]
        for x in v:
            if isinstance(x, Many):
                if isinstance(x.value, Builtin):
                    x = self.force(x)
                l.items.append(Many(x.value, x.src, x.rev, x.order, x.loops + tuple(self.loops[l.depth:])))
            else:
                self.lst_append(l, x)

    def force(self, m):
        if isinstance(m.value, Builtin):
            st = T("site", 0, 0, self.fresh())
            return Many(m.value.f(st, 0), m.src, m.rev, m.order, m.loops)
        return m

    def to_iter(self, it, node):
        """-> list of items/Many, or a single Many"""
        if isinstance(it, QS):
            self.read(it, "iter")
            if it.where is FALSE:
                return []
            return self.qs_many(it)
        if isinstance(it, Lst):
            return list(it.items)
        if isinstance(it, tuple):
            if it and it[0] == "*opaque":
                return Many(TOP, TOP)
            return list(it)
        if isinstance(it, Dct):
            return [Many(k, l.src if isinstance(l, Many) else (l[0][1] if l else None), order="filled", loops=l if isinstance(l, tuple) else ()) if l is not None else k for k, v, l in it.entries] + (
                [Many(TOP, TOP)] if it.opaque else [])
        if isinstance(it, T):
            if it is NONE:
                self.raise_("TypeError")
            if is_const(it) and isinstance(cval(it), str):
                return [const(c) for c in cval(it)]
            if it.op == "nob":
                return Many(T("nobfield"), it)
            if it.op == "range":
                a, b = it.args[0], it.args[1]
                if is_const(a) and is_const(b) and len(it.args) == 2 and 0 <= cval(b) - cval(a) <= 8:
                    return [const(i) for i in range(cval(a), cval(b))]
                return Many(Builtin("range", lambda st, k: add(T("rangevar", st, *it.args), const(k))), it)
            if it.op == "top":
                return Many(TOP, TOP)
            if it.op == "qs":
                return self.to_iter(it.args[0], node)
            return Many(Builtin("it", lambda st, k: T("item_of", it, st, k)), it)
        if isinstance(it, Inst):
            for nm in ("__iter__",):
                f = self.class_attr(it.ci, nm) if it.ci else None
                if f is not None:
                    return self.to_iter(self.call(Bound(it, f), [], {}), node)
            d = it.attrs.get("data")
            if d is not None:
                return self.to_iter(d, node)
        return Many(TOP, TOP)

    def setop(self, o, a, b):
        if isinstance(a, T) and isinstance(b, Lst) and o == "Add" and (is_path(a) or a.op == "attr"):
            return self.ltpath_add(a, b)
        if isinstance(a, T) and isinstance(b, Lst) and o == "Add" and a.op == "nob":
            return Lst([Many(T("nobfield"), a)] + b.items, "list", len(self.loops))
        if isinstance(a, Lst) and isinstance(b, T) and o == "Add" and b.op == "nob":
            return Lst(a.items + [Many(T("nobfield"), b)], "list", len(self.loops))
        if isinstance(a, Lst) and isinstance(b, (Lst, tuple)) and o == "Add":
            return Lst(a.items + list(b.items if isinstance(b, Lst) else b), a.kind, len(self.loops), a.site)
        if isinstance(a, Lst) and o == "BitOr":
            l = Lst(a.items, a.kind, len(self.loops), a.site)
            self.lst_extend(l, b)
            return l
        if isinstance(a, Dct) and isinstance(b, Dct) and o == "BitOr":
            d = Dct(depth=len(self.loops), site=a.site)
            d.entries = [list(e) for e in a.entries]
            d.opaque = a.opaque or b.opaque
            for k, v, l in b.entries:
                if l is None:
                    self.dset(d, k, v)
                else:
                    d.entries.append([k, v, l])
            return d
        if o in ("BitAnd", "Sub", "BitXor"):
            return T("setop", o, self.as_set(a), self.as_set(b))
        if isinstance(a, Lst) and isinstance(b, T) and o == "Mult":
            return Lst(a.items, a.kind, len(self.loops))
        return TOP

    def as_set(self, v):
        if isinstance(v, Lst):
            return T("setof", tuple(T("many", self.as_term(self.force(i).value)) if isinstance(i, Many) else self.as_term(i) for i in v.items))
        return self.as_term(v)

    def ltpath_add(self, p, l):
        if l.many():
            return TOP
        parts = [p]
        for x in l.items:
            if not isinstance(x, T):
                return TOP
            parts.append(x if x.op == "sfx" else T("step", x))
        return cat(*parts)

    def dset(self, d, k, v):
        for e in d.entries:
            if e[2] is None and self.eq(k, e[0]) is TRUE:
                e[1] = v
                return
        d.entries.append([k, v, None])

    def getitem(self, o, k, aug=False):
        if isinstance(o, AttrDict):
            return self.adict_get(o, k)
        if isinstance(o, QS):
            return self.qs_slice(o, k)
        if isinstance(o, Dct):
            return self.dct_get(o, k, aug)
        if isinstance(o, (Lst, tuple)):
            return self.seq_get(o, k)
        if isinstance(o, T):
            if o is NONE:
                self.raise_("TypeError")
            return self.term_get(o, k)
        if isinstance(o, Inst) and o.ci is not None:
            f = self.class_attr(o.ci, "__getitem__")
            if f is not None:
                return self.call(Bound(o, f), [k], {})
        if isinstance(o, Ext):
            if o.last == "connections":
                return T("conn", self.as_term(k))
            return o
        if isinstance(o, Cls):
            return o
        return TOP

    def seq_get(self, o, k):
        items = o.items if isinstance(o, Lst) else list(o)
        if isinstance(k, SliceV):
            f = lambda x: None if x is None else (cval(x) if isinstance(x, T) and is_const(x) else "?")
            lo, hi, st = f(k.lo), f(k.hi), f(k.st)
            if "?" in (lo, hi, st):
                return TOP
            has = any(isinstance(i, Many) for i in items)
            if has:
                if (lo, hi, st) == (None, None, -1):
                    r = [Many(i.value, i.src, not i.rev, i.order, i.loops) if isinstance(i, Many) else i for i in reversed(items)]
                    return Lst(r, "list", len(self.loops), getattr(o, "site", None))
                if (lo, hi, st) == (None, None, None):
                    return Lst(items, "list", len(self.loops), getattr(o, "site", None))
                if hi is None and st is None and isinstance(lo, int) and lo >= 0:
                    # drop leading items
                    n = 0
                    r = list(items)
                    while n < lo and r and not isinstance(r[0], Many):
                        r.pop(0)
                        n += 1
                    if n == lo:
                        return Lst(r, "list", len(self.loops), o.site if isinstance(o, Lst) else None)
                return T("slice", T("lst", o.site if isinstance(o, Lst) else None, 1), const(lo), const(hi))
            r = items[slice(lo, hi, st)]
            return tuple(r) if isinstance(o, tuple) else Lst(r, o.kind, len(self.loops))
        if isinstance(k, T) and is_const(k) and isinstance(cval(k), int):
            i = cval(k)
            has = [isinstance(x, Many) for x in items]
            if i >= 0 and not any(has[: i + 1]):
                if i >= len(items):
                    self.raise_("IndexError")
                return items[i]
            if i < 0 and not any(has[i:]) and len(items) >= -i:
                return items[i]
            # any of the entries on that side
            cand = items if i >= 0 else list(reversed(items))
            cand = [x for x in cand if isinstance(x, Many)] + [x for x in cand if not isinstance(x, Many)][:1]
            c = cand[self.choose(len(cand)) if len(cand) > 1 else 0]
            if isinstance(c, Many):
                c = self.force(c)
                return c.value
            return c
        if isinstance(k, T) and k.op != "top":
            return T("item", T("lst", o.site if isinstance(o, Lst) else None, 0), k)
        return TOP

    def term_get(self, o, k):
        if isinstance(k, SliceV):
            return self.str_slice(o, k)
        if not isinstance(k, T):
            if isinstance(k, tuple):
                return T("item", o, self.as_term(k))
            return TOP
        if o.op == "alphabet":
            if k is const(0):
                return T("alpha0")
            if k is const(-1):
                return T("alphaZ")
            return TOP
        if is_path(o) and UNIT[0] is not STEPLEN:
            # label of an ltree path
            if is_const(k) and isinstance(cval(k), int):
                if cval(k) < 0:
                    kk = add(steps(o), k)
                else:
                    kk = k
                return pfx(sfx(o, kk), const(1)) if not (steps(sfx(o, kk)) is const(1)) else sfx(o, kk)
            return T("item", o, k)
        if is_const(o) and is_const(k):
            try:
                return const(cval(o)[cval(k)])
            except Exception:
                return TOP
        if o.op == "top":
            return TOP
        if o.op == "conn":
            return TOP
        if (o, ("item", k)) in self.tattrs:
            return self.tattrs[(o, ("item", k))]
        return T("item", o, k)

    def str_slice(self, o, k):
        lo = k.lo if k.lo is not None and k.lo is not NONE else None
        hi = k.hi if k.hi is not None and k.hi is not NONE else None
        if k.st is not None and k.st is not NONE and k.st is not const(1):
            if is_path(o) or (isinstance(o, T) and o.op == "range"):
                pass
            return T("slice", o, lo or NONE, hi or NONE, k.st) if isinstance(k.st, T) else TOP
        if o.op == "range" and hi is None and lo is not None and is_const(lo):
            a = o.args
            stp = a[2] if len(a) > 2 else const(1)
            s = mul(stp, lo)
            return T("range", add(a[0], s), *a[1:])
        if is_const(o) and isinstance(cval(o), str) and not is_path(o):
            try:
                return const(cval(o)[(cval(lo) if lo is not None else None):(cval(hi) if hi is not None else None)])
            except Exception:
                return TOP
        if is_path(o):
            L = plen(o)

            def idx(x):
                """slice bound -> number of steps, negative counted from the end"""
                if not isinstance(x, T):
                    return None
                if is_const(x):
                    if UNIT[0] is STEPLEN and cval(x) != 0:
                        return None
                    if cval(x) < 0:
                        return add(steps(o), x)
                    return x
                n = div_exact(x, UNIT[0]) if UNIT[0] is STEPLEN else x
                if n is None:
                    return None
                pn = to_poly(n)
                # purely negative multiple of the unit: from the end
                if is_const(n) and cval(n) < 0:
                    return add(steps(o), n)
                if pn and all(c < 0 for c in pn.values()):
                    return add(steps(o), n)
                return n
            if UNIT[0] is const(1):
                def idx(x):  # noqa: F811
                    if is_const(x) and cval(x) < 0:
                        return add(steps(o), x)
                    return x
            a = idx(lo) if lo is not None else const(0)
            b = idx(hi) if hi is not None else steps(o)
            if a is None or b is None:
                return T("slice", o, lo or NONE, hi or NONE)
            r = pfx(o, b) if b is not steps(o) else o
            if a is const(0):
                return r
            return sfx(r, a)
        return T("slice", o, lo if lo is not None else NONE, hi if hi is not None else NONE)

    def dct_get(self, o, k, aug=False, default=None):
        miss = None
        if isinstance(k, tuple):
            # symbolic components: decide by branching on each key
            pass
        for key, v, l in o.entries:
            r = self.eq(k, key)
            if r is TRUE and (l is None or len(self.loops) >= 0):
                if l is not None and aug and not isinstance(v, T):
                    return v
                return v if not (isinstance(v, T) and v.op == "acc" and aug) else T("prevnum", T("dict", o.site), self.as_term(k))
            if r is FALSE:
                continue
            if l is None:
                if self.branch(r):
                    return v
        loopy = o.depth < len(self.loops)
        gen = [e for e in o.entries if e[2] is not None]
        if o.kind == "counter" or o.default is not None:
            if loopy or gen:
                if o.kind == "counter":
                    return T("prevnum", T("dict", o.site), self.as_term(k))
                if gen:
                    return gen[0][1]
            dv = const(0) if o.kind == "counter" else self.call(o.default, [], {})
            if not aug or not isinstance(dv, T):
                self.setitem(o, k, dv)
            return dv
        if default is not None:
            if loopy or gen or o.opaque:
                if self.branch(T("in", self.as_term(k), T("dict", o.site))):
                    if gen:
                        return gen[self.choose(len(gen)) if len(gen) > 1 else 0][1]
                    return T("prevnum", T("dict", o.site), self.as_term(k)) if not o.opaque else T("item", T("dict", o.site), self.as_term(k))
            return default
        if gen:
            e = gen[self.choose(len(gen)) if len(gen) > 1 else 0]
            self.eff("lookup", container=o, key=k, entry=e)
            return e[1]
        if o.opaque:
            src = getattr(o, "src", None)
            return T("item", src if isinstance(src, T) else T("dict", o.site), self.as_term(k))
        if loopy and o.site is not None:
            at = T("in", self.as_term(k), T("dict", o.site))
            if self.known_.get(at) is True or self.choose(2) == 0:
                self.eff("lookup", container=o, key=k, entry=None)
                return T("item", T("dict", o.site), self.as_term(k))
        self.raise_("KeyError", (k,))

    def setitem(self, o, k, v):
        if isinstance(o, AttrDict):
            return self.adict_set(o, k, v)
        if isinstance(o, Dct):
            loopy = o.depth < len(self.loops)
            self.eff("setitem", container=o, key=k, value=v)
            # accumulation?
            if loopy and isinstance(v, T):
                P, c = self.split(v) if to_poly(v) is not None else (None, None)
                if P is not None:
                    base = [s for s in subterms(P) if s.op == "prevnum" and s.args[0] is T("dict", o.site)]
                    if base and base[0].args[1] is self.as_term(k):
                        inc = sub(v, base[0])
                        v = T("acc", inc)
            for e in o.entries:
                if self.eq(k, e[0]) is TRUE:
                    e[1] = v
                    return
            o.entries.append([k, v, tuple(self.loops[o.depth:]) if loopy else None])
            return
        if isinstance(o, Lst):
            if isinstance(k, T) and is_const(k) and isinstance(cval(k), int) and not o.many():
                try:
                    o.items[cval(k)] = v
                    return
                except IndexError:
                    self.raise_("IndexError")
            o.items = [Many(TOP, TOP)]
            return
        if isinstance(o, T):
            self.eff("setitem", container=o, key=k, value=v)
            self.tattrs[(o, ("item", self.as_term(k)))] = v
            return
        self.unsup("setitem")

    def delitem(self, o, k):
        if isinstance(o, AttrDict):
            self.adict_del(o, k)
            return
        if isinstance(o, Dct):
            self.eff("delitem", container=o, key=k)
            for e in list(o.entries):
                if self.eq(k, e[0]) is TRUE:
                    o.entries.remove(e)
                    return
            if not o.opaque and not any(e[2] is not None for e in o.entries) and o.depth >= len(self.loops):
                self.raise_("KeyError")
            return
        if isinstance(o, T):
            self.eff("delitem", container=o, key=k)
            return
        if isinstance(o, Lst):
            return
        self.unsup("delitem")

    def coll_getattr(self, o, name):
        def B(f):
            return Builtin(name, f)
        if isinstance(o, Lst):
            if name in ("append", "add"):
                return B(lambda a, k: (self.lst_append(o, a[0]), self.eff("append", container=o, value=a[0]), NONE)[2])
            if name == "appendleft":
                return B(lambda a, k: (self.lst_append(o, a[0], True), NONE)[1])
            if name in ("extend", "update"):
                return B(lambda a, k: (self.lst_extend(o, a[0]), self.eff("extend", container=o, value=a[0]), NONE)[2])
            if name == "extendleft":
                return B(lambda a, k: NONE)
            if name == "insert":
                return B(lambda a, k: (self.lst_append(o, a[1], a[0] is const(0)), self.eff("insert_at", container=o, at=a[0], value=a[1]), NONE)[2])
            if name in ("pop", "popleft"):
                return B(lambda a, k: self.lst_pop(o, const(0) if name == "popleft" else (a[0] if a else const(-1))))
            if name == "reverse":
                def rv(a, k):
                    o.items = [Many(i.value, i.src, not i.rev, i.order, i.loops) if isinstance(i, Many) else i for i in reversed(o.items)]
                    return NONE
                return B(rv)
            if name == "sort":
                def st(a, k):
                    r = self.b_sorted([o], k)
                    o.items = r.items
                    o.ordered = r.ordered
                    return NONE
                return B(st)
            if name == "copy":
                return B(lambda a, k: o.copy())
            if name == "clear":
                return B(lambda a, k: (o.items.clear(), NONE)[1])
            if name == "index":
                return B(lambda a, k: T("indexof", T("lst", o.site, 0), self.as_term(a[0])))
            if name in ("union", "difference", "intersection"):
                return B(lambda a, k: self.setop({"union": "BitOr", "difference": "Sub", "intersection": "BitAnd"}[name], o, a[0]))
            if name == "isdisjoint":
                return B(lambda a, k: pnot(self.truth_atom(T("setop", "BitAnd", self.as_set(o), self.as_set(a[0])))))
            if name == "intersection":
                return B(lambda a, k: T("setop", "BitAnd", self.as_set(o), self.as_set(a[0])))
            if name in ("discard", "remove"):
                return B(lambda a, k: (setattr(o, "items", [i for i in o.items if isinstance(i, Many) or self.eq(i, a[0]) is not TRUE]), NONE)[1])
            if name == "count":
                return B(lambda a, k: TOP)
            return TOP
        if isinstance(o, tuple):
            if name == "index":
                return B(lambda a, k: TOP)
            return TOP
        # Dct
        if name == "get":
            return B(lambda a, k: self.dct_get(o, a[0], default=a[1] if len(a) > 1 else NONE))
        if name == "pop":
            def pp(a, k):
                d = a[1] if len(a) > 1 else None
                self.eff("delitem", container=o, key=a[0])
                for e in list(o.entries):
                    if self.eq(a[0], e[0]) is TRUE:
                        o.entries.remove(e)
                        return e[1]
                if o.opaque:
                    src = getattr(o, "src", None)
                    return T("item", src if isinstance(src, T) else T("dict", o.site), self.as_term(a[0]))
                if d is not None:
                    return d
                self.raise_("KeyError")
            return B(pp)
        if name in ("items",):
            def items(a, k):
                out = []
                for kk, v, l in o.entries:
                    if l is None:
                        out.append((kk, v))
                    else:
                        lp = l if isinstance(l, tuple) else l.loops
                        out.append(Many((kk, v), lp[0][1] if lp else (l.src if isinstance(l, Many) else None), order="filled", loops=lp))
                if o.opaque:
                    out.append(Many((TOP, TOP), TOP))
                return Lst(out, "items", len(self.loops), o.site)
            return B(items)
        if name == "values":
            return B(lambda a, k: Lst([x.value[1] if not isinstance(x, Many) and False else (Many(x.value[1], x.src, x.rev, x.order, x.loops) if isinstance(x, Many) else x[1]) for x in self.call(self.coll_getattr(o, "items"), [], {}).items], "list", len(self.loops), o.site))
        if name == "keys":
            return B(lambda a, k: Lst([(Many(x.value[0], x.src, x.rev, x.order, x.loops) if isinstance(x, Many) else x[0]) for x in self.call(self.coll_getattr(o, "items"), [], {}).items], "list", len(self.loops), o.site))
        if name == "setdefault":
            def sd(a, k):
                for e in o.entries:
                    if self.eq(a[0], e[0]) is TRUE:
                        return e[1]
                if (o.depth < len(self.loops)):
                    v = a[1] if len(a) > 1 else NONE
                    self.setitem(o, a[0], v)
                    return v
                v = a[1] if len(a) > 1 else NONE
                self.eff("setitem", container=o, key=a[0], value=v)
                self.dset(o, a[0], v)
                return v
            return B(sd)
        if name == "update":
            def up(a, k):
                for d in a:
                    if isinstance(d, Dct):
                        for kk, v, l in d.entries:
                            self.setitem(o, kk, v)
                        o.opaque = o.opaque or d.opaque
                    else:
                        o.opaque = True
                    self.eff("dupdate", container=o, value=d)
                for n, v in k.items():
                    self.setitem(o, const(n) if isinstance(n, str) else n, v)
                return NONE
            return B(up)
        if name == "copy":
            def cp(a, k):
                d = Dct(o.kind, len(self.loops), o.site, o.default)
                d.entries = [list(e) for e in o.entries]
                d.opaque = o.opaque
                return d
            return B(cp)
        if name == "most_common":
            def most(a, k):
                xs = self.call(self.coll_getattr(o, "items"), [], {})
                n = a[0] if a else k.get("n", NONE)
                return xs if n is NONE else self.getitem(xs, SliceV(None, n, None))
            return B(most)
        return TOP

    def lst_pop(self, o, i):
        if not o.items:
            self.raise_("IndexError")
        if isinstance(i, T) and is_const(i):
            n = cval(i)
            it = o.items[0] if n == 0 else o.items[-1]
            if isinstance(it, Many):
                v = self.force(it)
                self.eff("popmany", container=o, value=v.value, src=v)
                # entries remain possible; this concrete one is consumed for termination
                o.items.remove(it)
                return v.value
            o.items.pop(0 if n == 0 else -1)
            return it
        return TOP

    # -- strings ---------------------------------------------------------
    def str_getattr(self, o, name):
        def B(f):
            return Builtin(name, f)
        if name == "startswith":
            def sw(a, k):
                x = a[0]
                if isinstance(x, T) and is_const(o) and is_const(x):
                    return const(cval(o).startswith(cval(x)))
                if isinstance(x, T):
                    if is_path(o) and is_path(x):
                        if x is o or (is_const(x) and cval(x) == ""):
                            return TRUE
                        if x.op == "pfx" and x.args[0] is o:
                            return TRUE
                    return T("startswith", o, x)
                if isinstance(x, tuple):
                    return por(*[T("startswith", o, y) for y in x])
                return T("unk", TOP, self.fresh())
            return B(sw)
        if name == "endswith":
            return B(lambda a, k: T("endswith", o, self.as_term(a[0])) if not (is_const(o) and is_const(a[0])) else const(cval(o).endswith(cval(a[0]))))
        if name == "rjust":
            def rj(a, k):
                if a[0] is STEPLEN and len(a) > 1:
                    return cat(T("rep", a[1], sub(STEPLEN, T("len", o))), o) if a[1].op == "alpha0" else T("fmt", o, a[1])
                return TOP
            return B(rj)
        if name == "zfill":
            return B(lambda a, k: T("fmt", o, const("0")) if a[0] is STEPLEN else T("fmt", o, a[0]))
        if name == "join":
            def jn(a, k):
                x = a[0]
                if isinstance(x, Lst) and not x.many() and all(isinstance(i, T) for i in x.items):
                    parts = []
                    for n, i in enumerate(x.items):
                        if n:
                            parts.append(o)
                        parts.append(i)
                    return cat(*parts) if parts else EMPTY
                if isinstance(x, tuple) and all(isinstance(i, T) for i in x):
                    return self.call(B(jn), [Lst(x)], {})
                return T("joined", o, self.as_term(x) if not isinstance(x, Lst) else self.as_set(x))
            return B(jn)
        if name == "split":
            return B(lambda a, k: T("split", o, *[self.as_term(x) for x in a]))
        if name in ("strip", "lower", "upper", "lstrip", "rstrip", "format", "replace", "removeprefix", "removesuffix", "title", "encode"):
            def mm(a, k):
                if is_const(o) and all(isinstance(x, T) and is_const(x) for x in a) and not k:
                    try:
                        return const(getattr(cval(o), name)(*[cval(x) for x in a]))
                    except Exception:
                        return TOP
                if name in ("replace", "removeprefix", "removesuffix") and UNIT[0] is STEPLEN and is_path(o) and not k:
                    return T("pathop", name, o, *[self.as_term(x) for x in a])
                if name == "format" and is_const(o) and isinstance(cval(o), str):
                    r = self.strformat(cval(o), a, k)
                    if r is not None:
                        return r
                if name == "lstrip" and isinstance(o, T) and o.op == "nobfield":
                    return T("nobname", o)
                if name == "removeprefix" and o.op == "nobfield":
                    return T("nobname", o)
                return T("strop", name, o, *[self.as_term(x) for x in a])
            return B(mm)
        if name in ("index", "find"):
            return B(lambda a, k: T("strfind", o, self.as_term(a[0])))
        return None

    # ------------------------------------------------------------ external callables
    def call_ext(self, f, args, kwargs):
        n = f.last
        m = getattr(self, "b_" + n, None)
        if m is not None:
            return m(args, kwargs)
        if n in PURE:
            return args[0] if args else TOP
        if f.dotted.startswith("django.core.checks."):  # a message of the system check framework
            return T("checkmsg", n, tuple(self.as_term(x) for x in args), tuple((k, self.as_term(x)) for k, x in sorted(kwargs.items())))
        if n and (n.endswith("Error") or n.endswith("Exception") or n in ("Http404", "PermissionDenied", "KeyboardInterrupt", "StopIteration", "ObjectDoesNotExist", "DoesNotExist")):
            return PyRaise(f, tuple(args), self.loc)
        if n in ("F",):
            a = args[0]
            return T("F", cval(a)) if is_const(a) else T("F", a)
        if n in ("OuterRef",):
            a = args[0]
            return T("outer", cval(a)) if is_const(a) else T("outer", a)
        if n == "Value":
            v = self.as_term(args[0] if args else kwargs.get("value", TOP))
            return T("value", v) if is_const(v) else v
        if n == "Q":
            k = {x: y for x, y in kwargs.items() if x not in ("_connector", "_negated")}
            p = self.args_pred(args, k)
            conn = kwargs.get("_connector")
            if conn is not None and self.as_term(conn) in (const("OR"), T("ga", T("v", Ext("Q")), "OR")):
                p = por(*conjuncts(p))
            return p
        if n in ("Concat", "Substr", "Length", "Greatest", "Least", "Coalesce", "Max", "Min", "Count", "Sum", "Func", "When", "Case", "Left", "Right", "Replace", "Cast"):
            return self.expr_func(n, args, kwargs)
        if n in ("Subquery",):
            return T("subquery", self.as_term(args[0]))
        if n == "Exists":
            return T("existsq", self.as_term(args[0]))
        if n.endswith("Field") and f.dotted.startswith("django.db"):
            return T("fieldtype", n)
        if n == "Signal":
            return T("signal", self.loc[1])
        a = [self.as_term(x) for x in args]
        dirty = any(isinstance(x, (Row, QS, Inst, ModelV, Lst, Dct)) for x in list(args) + list(kwargs.values()))
        self.eff("extcall", fn=f, args=list(args), kwargs=dict(kwargs))
        for nm, exc in self.cfg.may_fail:
            if nm == n and self.choose(2, "fail", nm) == 1:
                self.raise_(Ext(exc))
        return T("call", T("ext", f.dotted), tuple(a), tuple((k, self.as_term(v)) for k, v in sorted((x for x in kwargs.items() if isinstance(x[0], str)))))

    # django
    def b_atomic(self, args, kwargs):
        if args and isinstance(args[0], (Fn, Partial, Bound)):
            return Partial(Builtin("atomic_call", self.b_atomic_call), (args[0],), {}, method=True)
        u = kwargs.get("using", args[0] if args else NONE)
        return ("atomic_dec", self.as_term(u))

    def b_suppress(self, args, kwargs):
        return ("suppress", list(args))

    def b_warn(self, args, kwargs):
        self.eff("warn", args=list(args), kwargs=dict(kwargs))
        return NONE

    def b_db_for_write(self, args, kwargs):
        o = kwargs.get("instance")
        return T("rowdb", o.rowid) if isinstance(o, Row) else T("dbwrite")

    def b_db_for_read(self, args, kwargs):
        o = kwargs.get("instance")
        return T("rowdb", o.rowid) if isinstance(o, Row) else T("dbread")

    def b_mark_safe(self, args, kwargs):
        v = self.as_term(args[0])
        self.eff("mark_safe", value=v)
        return v if v.op == "safe" else T("safe", v)

    b_SafeString = b_SafeText = b_mark_safe

    def b_conditional_escape(self, args, kwargs):
        v = self.as_term(args[0])
        return v if v.op == "safe" else T("safe", T("esc", v))

    def b_escape(self, args, kwargs):
        return T("safe", T("esc", textof(self.as_term(args[0]))))

    def b_format_html(self, args, kwargs):
        f = self.as_term(args[0])
        if not is_const(f) or kwargs or cval(f).count("{}") != len(args) - 1 or cval(f).count("{") != len(args) - 1:
            return T("fhtml", *[self.as_term(a) for a in args])
        parts = cval(f).split("{}")
        out = [const(parts[0])]
        for a, p in zip(args[1:], parts[1:]):
            out += [textof(self.b_conditional_escape([a], {})), const(p)]
        return T("safe", cat(*out))

    # functools / itertools / operator / collections
    def b_reduce(self, args, kwargs):
        f, seq = args[0], args[1]
        items = self.to_iter(seq, None)
        if isinstance(items, Many):
            items = [items]
        op = f.last if isinstance(f, Ext) else None
        preds = []
        for i in items:
            if isinstance(i, Many):
                i = self.force(i)
                v = i.value
                if isinstance(v, T):
                    preds.append(T("manypred", v, self.src_term(i.src)))
                else:
                    return TOP
            elif isinstance(i, T):
                preds.append(i)
            else:
                return TOP
        if len(args) > 2 and isinstance(args[2], T):
            preds.append(args[2])
        if op in ("or_", "ior", "__or__"):
            return por(*preds)
        if op in ("and_", "iand", "__and__"):
            return pand(*preds)
        if isinstance(f, Fn):
            # fold a two-argument function over symbolic predicates
            acc = preds[0] if preds else TOP
            for p in preds[1:]:
                acc = self.call(f, [acc, p], {})
            if len(preds) == 1 and preds[0].op == "manypred":
                r = self.call(f, [T("lk", "a", "?", NONE), T("lk", "b", "?", NONE)], {})
                if isinstance(r, T) and r.op in ("or", "and"):
                    return por(preds[0]) if r.op == "or" else T("andmany", preds[0])
            return acc
        return TOP

    def b_or_(self, args, kwargs):
        return por(*args) if all(isinstance(a, T) for a in args) else TOP

    def b_partial(self, args, kwargs):
        return Partial(args[0], tuple(args[1:]), kwargs)

    b_partialmethod = lambda self, args, kwargs: Partial(args[0], tuple(args[1:]), kwargs, method=True)

    def b_classmethod(self, args, kwargs):
        return ("classmethod", args[0])

    def b_staticmethod(self, args, kwargs):
        return ("staticmethod", args[0])

    def b_property(self, args, kwargs):
        return ("property", args[0])

    def b_wraps(self, args, kwargs):
        return Builtin("wraps", lambda a, k: a[0])

    def b_Counter(self, args, kwargs):
        d = Dct("counter", len(self.loops), T("site", self.loc[1], self.fresh()))
        if args:
            it = self.to_iter(args[0], None)
            if isinstance(it, Many):
                it = [it]
            for x in it:
                if isinstance(x, Many):
                    x = self.force(x)
                    d.entries.append([x.value, T("acc", const(1)), x])
                else:
                    d.opaque = True
        return d

    def b_defaultdict(self, args, kwargs):
        d = Dct("dict", len(self.loops), T("site", self.loc[1], self.fresh()))
        d.default = args[0] if args else None
        if d.default is not None and isinstance(d.default, Ext) and d.default.last == "int":
            d.kind = "counter"
        return d

    def b_OrderedDict(self, args, kwargs):
        return self.b_dict(args, kwargs)

    def b_deque(self, args, kwargs):
        return self.b_list(args, kwargs)

    def b_groupby(self, args, kwargs):
        it = self.to_iter(args[0], None)
        key = args[1] if len(args) > 1 else kwargs.get("key")
        out = []
        for x in (it if isinstance(it, list) else [it]):
            if isinstance(x, Many):
                src = x

                def el(st, k, src=src):
                    sub_ = Many(src.value, src.src, src.rev)
                    v = self.element(src, T("site", -1, -1, st), 0)
                    kv = self.call(key, [v], {}) if key is not None else v
                    return (kv, Lst([sub_], "gen", len(self.loops), st))
                out.append(Many(Builtin("grp", el), src.src))
            else:
                return Many(TOP, TOP)
        return Lst(out, "gen", len(self.loops), T("site", self.loc[1]))

    def b_itemgetter(self, args, kwargs):
        a = list(args)
        return Builtin("itemgetter", lambda x, k: self.getitem(x[0], a[0]) if len(a) == 1 else tuple(self.getitem(x[0], y) for y in a))

    def b_attrgetter(self, args, kwargs):
        a = list(args)
        return Builtin("attrgetter", lambda x, k: self.getattr(x[0], cval(a[0])))

    def b_chain(self, args, kwargs):
        l = Lst((), "gen", len(self.loops), T("site", self.loc[1], self.fresh()))
        for a in args:
            self.lst_extend(l, a)
        return l

    def b_islice(self, args, kwargs):
        return TOP

    def b_signature(self, args, kwargs):
        return Sig(args[0])

    # python builtins
    def b_len(self, args, kwargs):
        v = args[0]
        if isinstance(v, tuple):
            return const(len(v))
        if isinstance(v, Lst):
            if not v.many():
                return const(len(v.items))
            return T("len", T("lst", v.site, tuple(self.as_term(self.force(i).value) if isinstance(i, Many) else T("one") for i in v.items)))
        if isinstance(v, Dct):
            return const(len(v.entries)) if not v.opaque and all(e[2] is None for e in v.entries) else T("len", T("dict", v.site))
        if isinstance(v, QS):
            self.read(v, "count")
            if v.where is FALSE:
                return const(0)
            return T("count", T("qs", v.core()), self.epoch)
        if isinstance(v, T):
            if is_const(v) and isinstance(cval(v), str):
                return const(len(cval(v)))
            if is_path(v):
                return plen(v)
            if v.op == "top":
                return TOP
            return T("len", v)
        if isinstance(v, Inst) and v.attrs.get("data") is not None:
            return self.b_len([v.attrs["data"]], {})
        return TOP

    def b_range(self, args, kwargs):
        a = [x for x in args]
        if not all(isinstance(x, T) for x in a):
            return TOP
        if len(a) == 1:
            a = [const(0), a[0]]
        return T("range", *a)

    def b_enumerate(self, args, kwargs):
        start = args[1] if len(args) > 1 else kwargs.get("start", const(0))
        it = self.to_iter(args[0], None)
        if isinstance(it, Many):
            it = [it]
        out = []
        for n, x in enumerate(it):
            if isinstance(x, Many):
                def el(st, k, x=x):
                    v = self.element(x, st, k)
                    return (add(T("idx", st), add(start, const(k))), v)
                out.append(Many(Builtin("enum", el), x.src, x.rev, x.order))
            else:
                out.append((add(start, const(n)), x))
        return Lst(out, "gen", len(self.loops), T("site", self.loc[1], self.fresh()))

    def b_zip(self, args, kwargs):
        its = []
        for a in args:
            i = self.to_iter(a, None)
            its.append(i if isinstance(i, list) else [i])
        if all(not any(isinstance(x, Many) for x in i) for i in its):
            return Lst([tuple(t) for t in zip(*its)])
        if all(i for i in its):
            def el(st, k):
                out = []
                for j, i in enumerate(its):
                    x = i[0]
                    if isinstance(x, Many):
                        out.append(self.element(x, T("site", -2, j, st), k))
                    else:
                        out.append(x)
                return tuple(out)
            return Lst([Many(Builtin("zip", el), T("zip", *[self.src_term(i[0].src) if isinstance(i[0], Many) else self.as_term(i[0]) for i in its]))], "gen", len(self.loops), T("site", self.loc[1], self.fresh()))
        return Lst([])

    def b_map(self, args, kwargs):
        f = args[0]
        it = self.to_iter(args[1], None)
        out = Lst((), "gen", len(self.loops), T("site", self.loc[1], self.fresh()))
        for x in (it if isinstance(it, list) else [it]):
            if isinstance(x, Many):
                x = self.force(x)
                out.items.append(Many(self.call(f, [x.value], {}), x.src, x.rev, x.order))
            else:
                out.items.append(self.call(f, [x], {}))
        return out

    def prelude(self, name, args, kwargs):
        mod = self.prog.modules[next(iter(self.prog.modules))]
        return self.call(self.make_fn(prelude.function(name, mod), Frame(None, mod)), args, kwargs)

    def b_filter(self, args, kwargs):
        return self.prelude("filter", args, kwargs)

    def b_takewhile(self, args, kwargs):
        return self.prelude("takewhile", args, kwargs)

    def b_dropwhile(self, args, kwargs):
        return self.prelude("dropwhile", args, kwargs)

    def b_filterfalse(self, args, kwargs):
        return self.prelude("filterfalse", args, kwargs)

    def b_pairwise(self, args, kwargs):
        return self.prelude("pairwise", args, kwargs)

    def b_starmap(self, args, kwargs):
        return self.prelude("starmap", args, kwargs)

    def b_compress(self, args, kwargs):
        return self.prelude("compress", args, kwargs)

    def b_list(self, args, kwargs, kind="list"):
        l = Lst((), kind, len(self.loops), T("site", self.loc[1], self.fresh()))
        if args:
            if isinstance(args[0], T) and is_path(args[0]):
                return args[0]
            self.lst_extend(l, args[0])
            if isinstance(args[0], Lst):
                l.ordered = args[0].ordered
        return l

    def b_tuple(self, args, kwargs):
        if args and isinstance(args[0], tuple):
            return args[0]
        l = self.b_list(args, kwargs, "tuple")
        return l if isinstance(l, T) or l.many() else tuple(l.items)

    def b_set(self, args, kwargs):
        return self.b_list(args, kwargs, "set")

    b_frozenset = b_set

    def b_dict(self, args, kwargs):
        d = Dct("dict", len(self.loops), T("site", self.loc[1], self.fresh()))
        for a in args:
            if isinstance(a, Dct):
                for k, v, l in a.entries:
                    d.entries.append([k, v, l])
                d.opaque = a.opaque
            elif isinstance(a, Lst) and not a.many() and all(isinstance(x, tuple) and len(x) == 2 for x in a.items):
                for k, v in a.items:
                    self.dset(d, k, v)
            elif isinstance(a, tuple) and all(isinstance(x, tuple) and len(x) == 2 for x in a):
                for k, v in a:
                    self.dset(d, k, v)
            else:
                d.opaque = True
                if isinstance(a, T):
                    d.src = a
        for k, v in kwargs.items():
            d.entries.append([const(k) if isinstance(k, str) else k, v, None])
        return d

    def b_sorted(self, args, kwargs):
        it = self.to_iter(args[0], None)
        rev = kwargs.get("reverse", FALSE)
        l = Lst(it if isinstance(it, list) else [it], "list", len(self.loops), T("site", self.loc[1], self.fresh()))
        key = kwargs.get("key")
        l.ordered = ("sorted", rev is TRUE, key)
        l.items = [Many(i.value, i.src, ("sorted", rev is TRUE, key is not None), i.order, i.loops) if isinstance(i, Many) else i for i in l.items]
        return l

    def b_reversed(self, args, kwargs):
        if isinstance(args[0], QS):
            return Lst([self.qs_many(replace(args[0], rev=not args[0].rev))], "list", len(self.loops), T("site", self.loc[1], self.fresh()))
        l = self.b_list([args[0]], {})
        if isinstance(l, T):
            return TOP
        l.items = [Many(i.value, i.src, (not i.rev) if isinstance(i.rev, bool) else ("sorted", not i.rev[1], i.rev[2]), i.order, i.loops) if isinstance(i, Many) else i for i in reversed(l.items)]
        return l

    def b_int(self, args, kwargs):
        v = args[0] if args else const(0)
        if isinstance(v, T):
            if is_const(v):
                try:
                    return const(int(cval(v)))
                except Exception:
                    self.raise_("ValueError")
            if v.op == "truediv":
                r = div_exact(v.args[0], v.args[1])
                return r if r is not None else T("floordiv", *v.args)
            if self.numeric(v):
                return v
            if v.op in ATOMS_():
                return T("intof", v)
            return T("intof", v)
        return TOP

    def b_modelform_factory(self, args, kwargs):
        """django.forms.models.modelform_factory: a new form class"""
        if "**" in kwargs or len(args) > 4:
            return TOP
        kw = dict(zip(("model", "form", "fields", "exclude"), args))
        kw.update(kwargs)
        return Inst(None, {"factory_kwargs": kw, "factory_at": self.loc})

    def b_get_object_or_404(self, args, kwargs):
        o = args[0]
        if isinstance(o, ModelV):
            o = self.mgr(o)
        return self.call(self.getattr(o, "get"), list(args[1:]), kwargs)

    def b_str(self, args, kwargs):
        v = args[0] if args else EMPTY
        if isinstance(v, T):
            if is_const(v):
                return const(str(cval(v)))
            if is_path(v) or v.op in ("str", "label", "cat", "safe", "rep"):
                return v
            return T("str", v)
        return T("str", self.as_term(v))

    def b_bool(self, args, kwargs):
        if not args:
            return FALSE
        return const(self.truth(args[0]))

    def b_isinstance(self, args, kwargs):
        v, c = args[0], args[1]
        names = [x.last if isinstance(x, Ext) else x.ci.name if isinstance(x, Cls) else "?" for x in (c if isinstance(c, tuple) else [c])]
        if isinstance(v, T) and is_const(v):
            py = type(cval(v)).__name__
            return const(py in names)
        if isinstance(v, Row):
            if any(n in ("Node", "Model", v.model.base.name) for n in names):
                return TRUE
            return const(any(isinstance(x, ModelV) for x in (c if isinstance(c, tuple) else [c])))
        if isinstance(v, Lst):
            return const(v.kind in names)
        if isinstance(v, tuple):
            return const("tuple" in names)
        if isinstance(v, QS):
            return const("QuerySet" in names)
        if isinstance(v, Dct):
            return const("dict" in names)
        if isinstance(v, T) and v.op != "top":
            return T("isinst", v, tuple(names))
        if isinstance(v, Inst) and v.ci is not None:
            mro = [x.name if isinstance(x, ClassInfo) else x[1].split(".")[-1] for x in self.prog.mro(v.ci)]
            return const(any(n in mro for n in names))
        return T("unk", TOP, self.fresh())

    def b_issubclass(self, args, kwargs):
        v, c = args[0], args[1]
        cs = c if isinstance(c, tuple) else (c,)
        if isinstance(v, ModelV):
            mro = self.prog.mro(v.base)
            return const(any(isinstance(x, Cls) and x.ci in mro for x in cs))
        if isinstance(v, Cls) and all(isinstance(x, Cls) for x in cs):
            return const(any(x.ci in self.prog.mro(v.ci) for x in cs))
        return T("issub", self.as_term(v), tuple(self.as_term(x) for x in cs))

    def b_hasattr(self, args, kwargs):
        o, n = args[0], args[1]
        if not (isinstance(n, T) and is_const(n)):
            return T("unk", TOP, self.fresh())
        n = cval(n)
        if isinstance(o, Row):
            if n in o.attrs:
                return TRUE
            try:
                self.row_getattr(o, n)
                return TRUE
            except PyRaise:
                return FALSE
        if isinstance(o, T) and o is not NONE:
            if (o, n) in self.tattrs:
                return TRUE
            return T("hasattr", o, n)
        if isinstance(o, Inst):
            if n in o.attrs or (o.ci and self.class_attr(o.ci, n) is not None):
                return TRUE
            if o.ci is not None and o.ci.module is None:
                return FALSE
            if n in self.prog.stored_attrs() and self.prog.is_kind(o.ci, "Manager"):
                return FALSE
            return T("hasattr", T("inst", o.ci.name if o.ci else "?"), n)
        return T("unk", TOP, self.fresh())

    def b_getattr(self, args, kwargs):
        o, n = args[0], args[1]
        if isinstance(n, T) and not is_const(n):
            if isinstance(o, Row):
                return T("dyn", o.rowid, n)
            if isinstance(o, Inst) or isinstance(o, (ModelV, Cls)):
                return T("dynattr", self.as_term(o), n)
            return T("dynattr", self.as_term(o), n)
        if not isinstance(n, T):
            return TOP
        name = cval(n)
        if len(args) > 2:
            d = args[2]
            if isinstance(o, T) and o.op not in ("top",) and o is not NONE:
                if (o, name) in self.tattrs:
                    return self.tattrs[(o, name)]
                if d is NONE or isinstance(d, T) and is_const(d):
                    h = T("hasattr", o, name)
                    return self.getattr(o, name) if self.branch(h) else d
                return T("ga", o, name)
            if isinstance(o, Inst) and o.ci is not None and o.ci.module is None and name not in o.attrs:
                return d
            try:
                v = self.getattr(o, name)
                if isinstance(v, T) and v.op == "ga" and isinstance(o, (Cls, ModelV)) and name not in ("node_order_by",):
                    return v
                return v
            except PyRaise as e:
                if self.exc_match(e.exc, Ext("AttributeError")):
                    return d
                raise
        return self.getattr(o, name)

    def b_setattr(self, args, kwargs):
        o, n, v = args
        if isinstance(n, T) and is_const(n):
            self.setattr(o, cval(n), v)
        else:
            self.eff("setattr", obj=o, attr=n, value=v)
        return NONE

    def b_vars(self, args, kwargs):
        return AttrDict(args[0]) if args and isinstance(args[0], (Row, Inst)) else TOP

    def b_delattr(self, args, kwargs):
        o, n = args
        if isinstance(n, T) and is_const(n):
            self.eff("delattr", obj=o, attr=cval(n))
            if isinstance(o, Row):
                o.dropped.add(cval(n))
                if cval(n) in o.attrs:
                    del o.attrs[cval(n)]
                else:
                    self.known_[T("hascache", o.rowid, cval(n))] = False
        else:
            self.eff("delattr", obj=o, attr=n)
        return NONE

    def b_type(self, args, kwargs):
        if len(args) == 1:
            o = args[0]
            if isinstance(o, Row):
                return o.model
            if isinstance(o, Inst) and o.ci is not None:
                return Cls(o.ci)
            if isinstance(o, QS) and o.qcls is not None:
                return Cls(o.qcls)
            return T("typeof", self.as_term(o))
        self.eff("extcall", fn=Ext("builtins.type"), args=list(args), kwargs={})
        return T("newtype", self.loc[1])

    def b_super(self, args, kwargs):
        return SuperV(args[0].ci if args and isinstance(args[0], Cls) else None, args[1] if len(args) > 1 else TOP)

    def b_all(self, args, kwargs):
        return self.quant(args[0], "all")

    def b_any(self, args, kwargs):
        return self.quant(args[0], "any")

    def quant(self, v, which):
        it = self.to_iter(v, None)
        if isinstance(it, Many):
            it = [it]
        out = []
        for i in it:
            if isinstance(i, Many):
                i = self.force(i)
                a = self.truth_atom(i.value)
                if is_const(a):
                    # generic element decided: condition holds for every (or no) element of the source
                    if bool(cval(a)) == (which == "any"):
                        out.append(T("nonempty", self.src_term(i.src)) if which == "any" else TRUE)
                    continue
                out.append(T(which, a, self.src_term(i.src)))
            else:
                out.append(self.truth_atom(i))
        return pand(*out) if which == "all" else por(*out)

    def b_next(self, args, kwargs):
        it = args[0]
        dflt = args[1] if len(args) > 1 else None
        items = self.to_iter(it, None)
        if isinstance(items, Many):
            items = [items]
        if not items:
            if dflt is None:
                self.raise_("StopIteration")
            return dflt
        x = items[0]
        if isinstance(it, Lst) and it.kind == "gen":  # the rest of the iterator
            it.items = [Many(TOP, TOP)] if isinstance(x, Many) else list(it.items[1:])
        if isinstance(x, Many):
            if x.order != "filled" and dflt is not None:
                if self.choose(2) == 1:
                    return dflt
            if isinstance(x.src, QS) and isinstance(x.value, Builtin) and x.value.name == "elem":
                q = x.src
                return self.row_of(replace(q, rev=False), "last" if q.rev else "first")
            x = self.force(x)
            return x.value
        return x

    def b_iter(self, args, kwargs):
        if len(args) != 1 or not isinstance(args[0], (QS, Lst)) or isinstance(args[0], Lst) and args[0].kind == "gen":
            return args[0] if args else TOP
        l = Lst((), "gen", len(self.loops), T("site", self.loc[1], self.fresh()))
        items = self.to_iter(args[0], None)
        l.items = [items] if isinstance(items, Many) else items
        return l

    def b_max(self, args, kwargs):
        return self.minmax("max", args, kwargs)

    def b_min(self, args, kwargs):
        return self.minmax("min", args, kwargs)

    def minmax(self, n, args, kwargs):
        if len(args) >= 2 and all(isinstance(a, T) for a in args):
            if all(is_const(a) for a in args):
                return const((max if n == "max" else min)(cval(a) for a in args))
            return T(n, tuple(sorted(args, key=lambda t: t.key)))
        if args and isinstance(args[0], Lst):
            return T(n, self.as_set(args[0]))
        return TOP

    def b_sum(self, args, kwargs):
        return T("sum", self.as_set(args[0])) if args and isinstance(args[0], Lst) else TOP

    def b_abs(self, args, kwargs):
        return TOP

    def b_print(self, args, kwargs):
        return NONE

    def b_repr(self, args, kwargs):
        return T("str", self.as_term(args[0]))

    def b_id(self, args, kwargs):
        return TOP

    def b_hash(self, args, kwargs):
        return TOP

    def b_callable(self, args, kwargs):
        return T("unk", TOP, self.fresh())

    def b_divmod(self, args, kwargs):
        a, b = args
        import ast
        return (self.binop(ast.FloorDiv(), a, b), self.binop(ast.Mod(), a, b))

    def b_cast(self, args, kwargs):
        return args[1] if len(args) > 1 else TOP

    def b_copy(self, args, kwargs):
        if args and isinstance(args[0], Row):
            r = args[0]
            c = Row(r.rowid, r.model, r.adding)
            c.attrs = dict(r.attrs)
            return c
        return args[0] if args else TOP


def ATOMS_():
    from .interp import ATOMS
    return ATOMS
