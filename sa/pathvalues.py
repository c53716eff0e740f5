"""LTree path values: PathValue and PathField walked through with texts and lists of unknown labels.

A text is the sequence of labels it is made of (joined by dots), a list the labels it holds; labels contain neither
dots nor blanks.  Every entry point is walked for every kind of input and 0 to 3 labels.
"""
import ast

from .entries import STATS, prog
from .layout import Undecided
from .positional import HAND, Meth, Num, Obj, Raise, St
from .source import AnalysisBroken, ClassInfo

TYPES = {"text": {"str", "Iterable", "Sequence", "Collection"}, "list": {"list", "Iterable", "Sequence", "Collection", "MutableSequence"},
         "tuple": {"tuple", "Iterable", "Sequence", "Collection"}, "iter": {"Iterable"},
         "pv": {"PathValue", "UserList", "Iterable", "Sequence", "Collection", "MutableSequence"}, "other": {"int"}, "none": set()}


class V:
    """labels: tuple of label names; kind: text, list, tuple, iter, pv, other"""

    def __init__(self, kind, labels=(), sep="."):
        self.kind, self.labels, self.sep = kind, tuple(labels), sep

    def same(self, o):
        return isinstance(o, V) and o.kind == self.kind and o.labels == self.labels and (self.kind != "text" or len(self.labels) < 2 or o.sep == self.sep)

    def __repr__(self):
        n = {"text": "text", "list": "list", "tuple": "tuple", "iter": "iterable", "pv": "PathValue", "other": "number"}[self.kind]
        return n + (" of " + (self.sep.join(self.labels) if self.kind == "text" else ", ".join(self.labels)) if self.labels else " without labels" if self.kind != "other" else "")


class Dict:
    """instance.__dict__: the stored value, or MISSING"""

    def __init__(self, inst):
        self.inst = inst


MISSING = object()


class Instance(Obj):
    def __init__(self, name, stored, loads):
        super().__init__({})
        self.name, self.stored, self.loads = name, stored, loads


class Cls_:
    def __init__(self, name):
        self.name = name


class Paths(Num):
    def __init__(self, pv, ci):
        super().__init__(ci)
        self.pv = pv  # ClassInfo of PathValue

    def make(self, args, st):
        """PathValue(...)"""
        sv = self.ci
        self.ci = self.pv
        try:
            o = Obj({})
            o.base = None
            outs = []
            for k, v, s in self.call(self.method("__init__"), [o] + list(args), st):
                if k == "raise":
                    outs.append((Raise(v), s))
                elif o.base is None:
                    raise Undecided("PathValue without labels")
                else:
                    outs.append((V("pv", o.base), s))
            return outs
        finally:
            self.ci = sv

    def text_of(self, v, st):
        """str(PathValue)"""
        sv = self.ci
        self.ci = self.pv
        try:
            return [(r if k == "return" else Raise(r), s) for k, r, s in self.call(self.method("__str__"), [v], st)]
        finally:
            self.ci = sv

    def test(self, e, st):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance":
            for v, s in self.ev(e.args[0], st):
                ts = e.args[1].elts if isinstance(e.args[1], (ast.Tuple, ast.List)) else self.union(e.args[1])
                names = [t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else None for t in ts]
                known = set().union(*TYPES.values()) | {"bytes", "dict", "set", "NoneType"}
                if None in names or not set(names) <= known:
                    raise Undecided("isinstance")
                k = "none" if v is None else v.kind if isinstance(v, V) else None
                if k is None:
                    raise Undecided("isinstance")
                yield bool(TYPES[k] & set(names)), s
            return
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "hasattr" and isinstance(e.args[1], ast.Constant):
            for v, s in self.ev(e.args[0], st):
                if isinstance(v, V) and e.args[1].value == "__iter__":
                    yield v.kind != "other", s
                elif isinstance(v, V) and e.args[1].value == "split":
                    yield v.kind == "text", s
                else:
                    raise Undecided("hasattr")
            return
        for op in ([e] if not isinstance(e, (ast.BoolOp, ast.UnaryOp, ast.Compare)) else []):
            for v, s in self.ev(op, st):
                if isinstance(v, V):
                    if v.kind in ("iter", "other"):
                        yield True, s
                    else:
                        yield bool(v.labels), s
                elif isinstance(v, (Raise, bool)):
                    yield v, s
                elif v is None:
                    yield False, s
                else:
                    raise Undecided("condition")
            return
        yield from super().test(e, st)

    def union(self, t):
        if isinstance(t, ast.BinOp) and isinstance(t.op, ast.BitOr):
            return self.union(t.left) + self.union(t.right)
        return [t]

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.Is, ast.IsNot)) and (a is None or b is None):
            yield ((a is None and b is None) == isinstance(op, ast.Is)), st
        elif isinstance(op, (ast.In, ast.NotIn)) and isinstance(b, Dict):
            if a != b.inst.name:
                raise Undecided("attribute")
            yield ((b.inst.stored is not MISSING) == isinstance(op, ast.In)), st
        elif isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(a, V) and b == "" and a.kind == "text":
            yield ((not a.labels) == isinstance(op, ast.Eq)), st
        else:
            raise Undecided("comparison")

    def ev(self, e, st):
        if isinstance(e, ast.Attribute):
            for v, s in self.ev(e.value, st):
                if isinstance(v, Instance):
                    yield (Dict(v) if e.attr == "__dict__" else Meth(v, e.attr)), s
                elif isinstance(v, V) and v.kind == "pv" and e.attr == "data":
                    yield V("list", v.labels), s
                elif isinstance(v, Obj) and e.attr == "data" and getattr(v, "base", None) is not None:
                    yield V("list", v.base), s
                elif isinstance(v, Obj) and e.attr in v.attrs:
                    yield v.attrs[e.attr], s
                elif isinstance(v, Raise):
                    yield v, s
                else:
                    yield Meth(v, e.attr), s
            return
        if isinstance(e, ast.Constant):
            yield e.value, st
            return
        if isinstance(e, (ast.List, ast.Tuple)) and not e.elts:
            yield V("list" if isinstance(e, ast.List) else "tuple"), st
            return
        if isinstance(e, ast.List):
            for vs, s in self.ev_all(e.elts, st):
                yield (vs[0] if isinstance(vs[0], Raise) else list(vs)), s
            return
        if isinstance(e, ast.ListComp) and len(e.generators) == 1 and not e.generators[0].ifs and isinstance(e.elt, ast.Name) and isinstance(e.generators[0].target, ast.Name) and e.elt.id == e.generators[0].target.id:
            for v, s in self.ev(e.generators[0].iter, st):
                yield (v if isinstance(v, Raise) else self.listed(v)), s
            return
        if isinstance(e, ast.JoinedStr):
            if len(e.values) == 1 and isinstance(e.values[0], ast.FormattedValue) and e.values[0].conversion == -1 and e.values[0].format_spec is None:
                for v, s in self.ev(e.values[0].value, st):
                    yield from self.to_text(v, s)
                return
            yield "text", st
            return
        yield from super().ev(e, st)

    def listed(self, v):
        if isinstance(v, V) and v.kind in ("list", "tuple", "iter", "pv"):
            return V("list", v.labels)
        if isinstance(v, V) and v.kind == "text" and not v.labels:
            return V("list")
        if isinstance(v, V) and v.kind == "text":
            return V("list", [f"characters of {v!r}"])
        raise Undecided("list of " + repr(v))

    def to_text(self, v, st):
        if isinstance(v, V) and v.kind == "pv":
            yield from self.text_of(v, st)
        elif isinstance(v, V) and v.kind == "text":
            yield v, st
        elif isinstance(v, V) and v.kind in ("list", "tuple", "iter"):
            yield V("text", ("the Python text of a " + v.kind,)), st
        elif v is None:
            yield V("text", ("None",)), st
        else:
            raise Undecided("text")

    def index(self, c, i, st):
        if isinstance(c, Dict):
            if i != c.inst.name:
                raise Undecided("attribute")
            return Raise("KeyError") if c.inst.stored is MISSING else c.inst.stored
        raise Undecided("subscript")

    def bind(self, t, v, st):
        if isinstance(t, ast.Attribute) and t.attr == "data":
            o = st.env.get(t.value.id) if isinstance(t.value, ast.Name) else None
            if isinstance(o, Obj):
                o.base = self.listed(v).labels
                return
        if isinstance(t, ast.Subscript):
            for c, _ in self.ev(t.value, st):
                if isinstance(c, Dict):
                    c.inst.stored = v
                    return
            raise Undecided("assignment target")
        super().bind(t, v, st)

    def evcall(self, e, st):
        f = e.func
        if isinstance(f, ast.Name) and f.id in ("isinstance", "hasattr"):
            yield from self.test(e, st)
            return
        # super().__init__(...) of a list
        if isinstance(f, ast.Attribute) and f.attr == "__init__" and (isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" or isinstance(f.value, ast.Name) and f.value.id == "UserList"):
            me = next(iter(st.env.values()))
            ex = ([] if isinstance(f.value, ast.Call) else e.args[:1]) and e.args[1:] or (e.args if isinstance(f.value, ast.Call) else [])
            arg = ex[0] if ex else next((k.value for k in e.keywords if k.arg == "initlist"), None)
            if arg is None:
                me.base = ()
                yield None, st
                return
            for v, s in self.ev(arg, st):
                if isinstance(v, Raise):
                    yield v, s
                    continue
                me.base = () if v is None else self.listed(v).labels
                yield None, s
            return
        for fn, s in self.ev(f, st):
            if isinstance(fn, Raise):
                yield fn, s
                continue
            for vs, s2 in self.ev_all(e.args, s):
                if vs and isinstance(vs[0], Raise):
                    yield vs[0], s2
                    continue
                yield from self.apply(fn, list(vs), {k.arg: k.value for k in e.keywords}, s2)

    def apply(self, fn, a, kw, st):
        if isinstance(fn, tuple) and fn[0] == "global":
            n = fn[1]
            c = self.ci.module.names.get(n)
            if n == "PathValue" or isinstance(c, ClassInfo) and c is self.pv:
                for k, x in kw.items():
                    a = a + [next(iter(self.ev(x, st)))[0]]
                yield from self.make(a, st)
                return
            if n in ("list", "tuple") and len(a) == 1:
                v = self.listed(a[0])
                yield V("list" if n == "list" else "tuple", v.labels), st
                return
            if n == "list" and not a:
                yield V("list"), st
                return
            if n == "str" and len(a) == 1:
                yield from self.to_text(a[0], st)
                return
            if n == "type":
                yield "type", st
                return
            if n == "getattr" and isinstance(a[0], Instance) and a[1] == "__dict__":
                yield Dict(a[0]), st
                return
            if c is not None and isinstance(getattr(c, "node", None), ast.FunctionDef):
                for k, v, s in self.call(c.node, a, st):
                    yield (v if k == "return" else Raise(v)), s
                return
            raise Undecided("call of " + n)
        if isinstance(fn, Meth):
            o, n = fn.obj, fn.name
            if isinstance(o, tuple) and o == ("global", "PathValue"):
                raise Undecided("class method")
            if isinstance(o, V) and o.kind == "text":
                if n == "strip" and not a:
                    yield o, st
                elif n == "split" and len(a) == 1 and isinstance(a[0], str):
                    if not o.labels:
                        yield V("list", ("",)), st
                    elif a[0] == o.sep or len(o.labels) == 1:
                        yield V("list", o.labels), st
                    else:
                        yield V("list", (repr(o),)), st
                elif n == "split" and not a and not kw:
                    yield V("list", (repr(o),) if len(o.labels) > 1 else o.labels), st
                else:
                    raise Undecided("text method " + n)
                return
            if isinstance(o, str) and n == "join" and len(a) == 1:
                v = a[0]
                if isinstance(v, Obj) and getattr(v, "base", None) is not None:
                    v = V("pv", v.base)
                v = self.listed(v)
                yield V("text", v.labels if v.labels != ("",) else (), o), st
                return
            if isinstance(o, Instance) and n == "refresh_from_db":
                fs = kw.get("fields")
                if fs is not None:
                    for v, s in self.ev(fs, st):
                        names = v if isinstance(v, (list, tuple)) else None
                        if names is None or not all(isinstance(x, str) for x in names):
                            raise Undecided("fields")
                        if o.name in names:
                            o.stored = o.loads
                else:
                    o.stored = o.loads
                yield None, st
                return
            if isinstance(o, Dict) and n == "get" and a and a[0] == o.inst.name:
                yield (a[1] if len(a) > 1 else None) if o.inst.stored is MISSING else o.inst.stored, st
                return
            if isinstance(o, V) and o.kind == "pv" and n == "__str__":
                yield from self.text_of(o, st)
                return
            if isinstance(o, Obj) and not isinstance(o, Instance):
                _, m = prog().class_member(self.ci, n)
                if isinstance(getattr(m, "node", None), ast.FunctionDef):
                    for k, v, s in self.call(m.node, [o] + a, st):
                        yield (v if k == "return" else Raise(v)), s
                    return
        raise Undecided("call")


def method(ci, *names):
    for n in names:
        _, m = prog().class_member(ci, n)
        node = getattr(m, "node", None)
        if isinstance(node, ast.FunctionDef):
            return n, node
    return None, None


def rule_pathvalue():
    p = prog()
    pv, fld = p.find_class("PathValue"), p.find_class("PathField")
    if pv is None or fld is None:
        raise AnalysisBroken("PathValue or PathField not found")
    devs, n, seen, und = [], 0, [], {}

    def dev(ci, meth, key, what):
        if not any(d["key"] == f"{meth}|{key}" for d in devs):
            _, node = method(ci, meth)
            devs.append({"key": f"{meth}|{key}", "what": what, "construct": f"{ci.module.rel}:{getattr(node, 'lineno', 0)} ({ci.name}.{meth})"})

    labels = [("l1", "l2", "l3")[:k] for k in range(4)]
    # construction and text
    A = Paths(pv, pv)

    def guard(fn):
        try:
            fn()
        except Undecided as u:
            und[str(u)] = und.get(str(u), 0) + 1

    def construct():
        nonlocal n
        for ls in labels:
            for kind in ("text", "list", "tuple", "iter", "pv"):
                for v, _ in A.make([V(kind, ls)], St({}, {}, [])):
                    n += 1
                    if not V("pv", ls).same(v):
                        dev(pv, "__init__", kind, f"a PathValue made of a {V(kind, ls)!r} " + (f"raises {v.name}" if isinstance(v, Raise) else f"has the labels {list(v.labels)}"))
        for v, _ in A.make([V("other")], St({}, {}, [])):
            n += 1
            if not (isinstance(v, Raise) and v.name in ("ValueError", "TypeError")):
                dev(pv, "__init__", "other", "a PathValue can be made of a value that is neither text nor iterable")

    def text():
        nonlocal n
        for ls in labels:
            for v, _ in A.text_of(V("pv", ls), St({}, {}, [])):
                n += 1
                if not V("text", ls).same(v):
                    dev(pv, "__str__", "text", f"the text of a {V('pv', ls)!r} is {v!r}, not its labels joined by dots")
    guard(construct)
    guard(text)
    STATS["functions"].update(f"{pv.module.name}.PathValue.{m}" for m in ("__init__", "__str__"))
    # conversions of the field
    B = Paths(pv, fld)
    conn, selfo = Obj({}), Obj({})

    def convert(meth, kinds, want, extra):
        nonlocal n
        _, node = method(fld, meth)
        if node is None:
            return
        STATS["functions"].add(f"{fld.module.name}.{fld.name}.{meth}")
        for v in [None] + [V(k, ls) for k in kinds for ls in labels]:
            args = [selfo, v] + extra
            for k, r, _ in B.call(node, args[:len(node.args.args)], St({}, {}, [])):
                n += 1
                if v is None:
                    if (k, r) != ("return", None):
                        dev(fld, meth, "none", f"None becomes {r!r}" if k == "return" else f"raises {r} for None")
                elif k == "raise":
                    dev(fld, meth, v.kind, f"raises {r} for a {v!r}")
                elif not (isinstance(r, V) and r.kind in want and r.labels == v.labels and (r.kind != "text" or len(r.labels) < 2 or r.sep == ".")):
                    dev(fld, meth, v.kind, f"a {v!r} becomes {r!r}, not a {'/'.join(want)} of the same labels")
    guard(lambda: convert("from_db_value", ("text",), ("pv",), [conn, conn]))
    guard(lambda: convert("to_python", ("text", "list", "pv"), ("pv",), []))
    guard(lambda: convert("get_prep_value", ("text", "list", "pv"), ("text", ), []))
    guard(lambda: convert("get_db_prep_value", ("text", "list", "pv"), ("text",), [conn, False]))
    # the attribute of a node
    desc = descriptor(fld)
    if desc is not None:
        C = Paths(pv, desc)
        _, init = method(desc, "__init__")

        def attribute():
            nonlocal n
            STATS["functions"].update(f"{desc.module.name}.{desc.name}.{m}" for m in ("__get__", "__set__"))
            for stored in [None] + [V(k, ls) for k in ("text", "list", "pv") for ls in labels] + [MISSING]:
                d = Obj({})
                if init is not None:
                    for _ in C.call(init, [d, "path"], St({}, {}, [])):
                        pass
                db = V("pv", labels[2])
                inst = Instance("path", stored, db)
                want = db if stored is MISSING else stored
                _, get = method(desc, "__get__")
                if get is None:
                    return
                for k, r, _ in C.call(get, [d, inst, Cls_("owner")], St({}, {}, [])):
                    n += 1
                    if k == "raise":
                        dev(desc, "__get__", "deferred" if stored is MISSING else "raise", f"reading the path raises {r} " + ("when the field was deferred (only(), defer()), must load it" if stored is MISSING else f"when it is a {stored!r}"))
                    elif want is None:
                        if r is not None:
                            dev(desc, "__get__", "none", f"an unset path reads as {r!r}")
                    elif not V("pv", want.labels).same(r):
                        dev(desc, "__get__", "value", f"a {want!r} reads as {r!r}")
                _, sett = method(desc, "__set__")
                if sett is not None and isinstance(stored, V):
                    inst = Instance("path", V("pv", ("old",)), db)
                    for k, r, _ in C.call(sett, [d, inst, stored], St({}, {}, [])):
                        n += 1
                        if k == "raise" or not (isinstance(inst.stored, V) and inst.stored.labels == stored.labels):
                            dev(desc, "__set__", "set", f"assigning a {stored!r} " + (f"raises {r}" if k == "raise" else f"stores {inst.stored!r}"))
        guard(attribute)
    seen.append(f"PathValue, {fld.name} and the attribute of nodes ({desc.name if desc else 'default'}): texts, lists, tuples, iterables and PathValues of 0 to 3 labels, None, deferred")
    if und and not devs:
        raise Undecided("; ".join(sorted(und)))
    return devs, n, seen


def descriptor(fld):
    """the class whose instance contribute_to_class puts on the model"""
    _, node = method(fld, "contribute_to_class")
    out = None
    for c in ast.walk(node) if node is not None else ():
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name):
            ci = fld.module.names.get(c.func.id)
            if isinstance(ci, ClassInfo) and method(ci, "__get__")[1] is not None:
                out = ci
    if out is None:
        for s in fld.node.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "descriptor_class" for t in s.targets) and isinstance(s.value, ast.Name):
                out = fld.module.names.get(s.value.id)
    return out if isinstance(out, ClassInfo) else None
