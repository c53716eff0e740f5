"""The change list page as its script sees it: rows, attributes, handlers, requests."""
import re

from .jsmodel import *

CONTEXT = ("node-id", "parent-id", "level", "has-children", "can-change")
ANSWER = ("result_html", "tree_context", "page", "num_pages")
DOCUMENT, BODY, LIST, WINDOW = S("el", "document"), S("el", "body"), S("el", "list"), S("window")


def row(i):
    return S("el", "row", i)


def is_el(x, *kinds):
    return isinstance(x, S) and x[0] == "el" and (not kinds or x[1] in kinds)


def is_row(x):
    return is_el(x, "row", "new")


class Request:
    def __init__(self, method, url, data, headers, line):
        self.method, self.url, self.data, self.headers, self.line = method, url, data, headers, line
        self.ok, self.bad = [], []


class Params:
    """URLSearchParams"""

    def __init__(self, base):
        self.base, self.sets = base, {}


class Page:
    def __init__(self, template, rows=2):
        self.t = template
        self.attrs, self.cache, self.classes, self.hidden = {}, {}, {}, set()
        self.contents, self.handlers, self.requests, self.readyfns = {}, [], [], []
        self.rows = [row(i) for i in range(rows)]
        self.reloads, self.region, self.parents = 0, {}, {}
        self.preset = lambda atom: None
        self.inserted = []

    # -------------------------------------------------------------- what the server says of a row
    def context(self, el, parent=None):
        vals = {"node-id": S("id", el), "parent-id": S("id", parent) if parent is not None else 0, "level": S("level", el), "has-children": S("flag", "has children", el), "can-change": S("flag", "may change", el)}
        return Obj(vals)

    def sign(self, d, m):
        if not d.co:
            return (d.k > 0) - (d.k < 0)
        syms = list(d.co)
        if len(syms) == 1 and syms[0][0] == "flag":
            v = d.co[syms[0]] * int(m.choose(syms[0])) + d.k
            return (v > 0) - (v < 0)
        if len(syms) == 1 and syms[0][0] == "level":
            c = d.co[syms[0]]
            for n in (1, 2, 3):
                v = n * c + d.k
                if n < 3 and m.choose(S("flag", f"below level {n}", syms[0][1])):
                    continue
                if n == 3 and v != 0 and (v > 0) != (c > 0):
                    raise Undecided("level")
                if n == 3 and v == 0:
                    raise Undecided("level")
                return (v > 0) - (v < 0)
        els = {s[1] for s in syms}
        if len(els) == 1 and all(s[0] in ("dy", "h") for s in syms) and d.k == 0:
            el = els.pop()
            lo, hi = {"upper": (0, Fraction(1, 2)), "lower": (Fraction(1, 2), 1)}[self.region[el]]
            a, b = d.co.get(S("dy", el), 0), d.co.get(S("h", el), 0)
            v = [a * lo + b, a * hi + b]
            if min(v) >= 0 and max(v) > 0:
                return 1
            if max(v) <= 0 and min(v) < 0:
                return -1
            if v == [0, 0]:
                return 0
        on = [s for s in syms if s[0] == "dy"]
        if len(on) == 1 and d.k == 0:
            # the pointer is over one row and compared with another one
            b, k = on[0][1], d.co[on[0]]
            rest = {s: c / k for s, c in d.co.items() if s[0] != "dy"}
            if rest.pop(S("top", b), 0) == 1:
                tops = [s for s in rest if s[0] == "top"]
                if len(tops) == 1 and rest[tops[0]] == -1 and set(rest) <= {tops[0], S("h", tops[0][1])}:
                    ch = rest.get(S("h", tops[0][1]), 0)
                    if m.choose(S("flag", "the pointer is below", b, tops[0][1])):
                        if ch >= -1:
                            return 1 if k > 0 else -1
                    elif ch <= 0:
                        return -1 if k > 0 else 1
        raise Undecided(f"sign of {d!r}")

    # -------------------------------------------------------------- globals
    def globalvar(self, n, m):
        g = {"document": DOCUMENT, "window": WINDOW, "self": WINDOW, "globalThis": WINDOW}
        if n in g:
            return g[n]
        if n == "django":
            return Obj({"jQuery": S("jquery")}) if self.t["jquery"] else UNDEFINED
        if n in ("$", "jQuery") and False:
            return S("jquery")
        if n in ("JSON", "Object", "Array", "Math", "Number", "String", "Boolean", "URLSearchParams", "console", "location", "history", "Promise", "FormData"):
            return S("location") if n == "location" else S("global", n)
        if n in ("parseInt", "parseFloat"):
            return Native(n, lambda a: m.number(a[0]))
        if n == "gettext":
            if not self.t["gettext"]:
                raise JsThrow("gettext is not defined", m.line)
            return Native(n, lambda a: a[0])
        if n == "setTimeout":
            return Native(n, lambda a: (m.call(a[0], [], UNDEFINED), 1)[1])
        if n == "requestAnimationFrame":
            return Native(n, lambda a: (m.call(a[0], [], UNDEFINED), 1)[1])
        if n in ("encodeURIComponent", "String"):
            return Native(n, lambda a: a[0])
        if n == "Infinity" or n == "NaN":
            raise Undecided(n)
        raise Undecided("name " + n)

    def construct(self, c, args, m):
        if c == S("global", "URLSearchParams"):
            b = args[0] if args else ""
            p = Params(None if isinstance(b, Obj) else b.base if isinstance(b, Params) else b)
            if isinstance(b, Obj):
                p.sets.update(b.props)
            if isinstance(b, Params):
                p.sets.update(b.sets)
            return p
        raise Undecided("new")

    def ready(self):
        for f in list(self.readyfns):
            self.m.call(f, [S("jquery")], DOCUMENT)

    # -------------------------------------------------------------- selectors
    def select(self, sel, m, scope=None):
        """elements of the page for a selector"""
        if isinstance(sel, S) and sel[0] == "cat":
            p = sel[1:]
            if len(p) == 3 and isinstance(p[0], str) and isinstance(p[2], str):
                x = re.search(r"\[data-([\w-]+)\s*=\s*[\"']?$", p[0])
                if x and re.match(r"^[\"']?\](:\w+)?$", p[2]) and re.search(r"(^|[\s>])(tr)?\[data-[\w-]+\s*=\s*[\"']?$", p[0]):
                    got = [r for r in self.all_rows() if (r, "data-" + x.group(1)) in self.attrs and m.equal(self.attrs[(r, "data-" + x.group(1))], p[1], False)]
                    if ":visible" in p[2]:
                        got = [r for r in got if r not in self.hidden]
                    return ElSet(got)
            raise Undecided("selector")
        if not isinstance(sel, str):
            raise Undecided("selector")
        s = sel.strip()
        if s.startswith("<"):
            return S("el", "made", s)
        if s in ("body", "html"):
            return BODY
        if s == "#result_list":
            return LIST
        if re.fullmatch(r"(table)?#result_list(\s*>?\s*tbody)?(\s*>?\s*tr)(\[data-node-id\])?", s) or re.fullmatch(r"tbody\s*>?\s*tr", s) and scope is LIST:
            rows = self.all_rows()
            return ElSet(rows if "tbody" in s or "data-" in s else [S("el", "header")] + rows)
        if s.startswith("#") and re.fullmatch(r"#[\w-]+", s):
            if s[1:] == self.t["context_id"]:
                return S("el", "context")
            return S("el", "other", s) if s[1:] in self.t["ids"] else ElSet([])
        return S("el", "other", s)

    def all_rows(self):
        return list(self.rows)

    def within(self, el, sel, m):
        """elements below ``el``"""
        if el == LIST:
            return self.select(sel if isinstance(sel, S) or str(sel).startswith("#") else "#result_list " + sel, m)
        if el in (DOCUMENT, BODY):
            return self.select(sel, m)
        if is_el(el, "html"):
            if re.fullmatch(r"((table)?#result_list\s*>?\s*)?(tbody\s*>?\s*)?tr", sel.strip()):
                rows = [S("el", "new", el[2], i) for i in range(2)]
                return ElSet(rows if "tbody" in sel else [S("el", "header")] + rows)
            raise Undecided("selector in the answer")
        if is_row(el):
            s = sel if isinstance(sel, str) else ""
            if re.fullmatch(r"a?(\.treebeard-collapse)(\.[\w-]+)*|a", s.strip()):
                tg = S("el", "toggle", el)
                extra = set(re.findall(r"\.([\w-]+)", s)) - {"treebeard-collapse"}
                return tg if tg in self.classes and extra <= self.classes[tg] else ElSet([])
            if "drag-handler" in s:
                return S("el", "handle", el)
            if set(re.findall(r"\w+", re.sub(r":[\w-]+(\([^)]*\))?|\.[\w-]+", "", s))) <= {"td", "th"}:
                ex = "action-checkbox" in s and ":not" in s
                c = S("el", "cells", el, ex, "th" in s and "td" in s)
                return S("el", "cell", el, ex, c[4]) if ":first" in s else c
        return S("el", "other", repr(el), sel if isinstance(sel, str) else repr(sel))

    # -------------------------------------------------------------- properties
    def get(self, o, k, m):
        if o == S("jquery"):
            return self.jquery(k, m)
        if isinstance(o, Request):
            return self.chain(o, k, m)
        if isinstance(o, Params):
            return self.params(o, k, m)
        if o == WINDOW:
            if k == "location":
                return S("location")
            return self.globalvar(k, m)
        if o == S("location"):
            if k == "search":
                return S("search")
            if k == "reload":
                def reload(a):
                    self.reloads += 1
                    return UNDEFINED
                return Native(k, reload)
            raise Undecided("location." + str(k))
        if isinstance(o, S) and o[0] == "global":
            return self.library(o[1], k, m)
        if is_el(o):
            return self.elget(o, k, m)
        if isinstance(o, (int, float, Fraction, Lin)) or isinstance(o, S) and lin(o) is not None:
            if k == "toString":
                return Native(k, lambda a: S("str", o) if not isinstance(o, int) else str(o))
        if isinstance(o, S) and o[0] == "id" and k == "toString":
            return Native(k, lambda a: S("str", o))
        if isinstance(o, S) and o[0] == "event":
            raise Undecided("event property")
        raise Undecided(f"property {k} of {o!r}")

    def put(self, o, k, v, m):
        if is_el(o):
            if k in ("innerHTML", "textContent", "hidden", "id", "className", "href"):
                return
        if o == S("location") and k == "href":
            self.reloads += 1
            return
        if isinstance(o, S) and o[0] == "style":
            if k == "display":
                (self.hidden.add if v == "none" else self.hidden.discard)(o[1])
            return
        if isinstance(o, S) and o[0] == "dataset":
            self.attrs[(o[1], "data-" + re.sub(r"[A-Z]", lambda x: "-" + x.group().lower(), k))] = v
            return
        raise Undecided(f"assignment to {k}")

    def call(self, f, args, this, m):
        if f == S("jquery"):
            return self.wrap(args, m)
        if isinstance(f, S) and f[0] == "global" and f[1] in ("Number", "String", "Boolean"):
            a = args[0]
            return m.number(a) if f[1] == "Number" else m.truth(a) if f[1] == "Boolean" else (a if isinstance(a, str) else S("str", a))
        raise Undecided(f"call of {f!r}")

    def wrap(self, a, m):
        x = a[0] if a else ElSet([])
        if isinstance(x, (Func, Native)):
            self.readyfns.append(x)
            return UNDEFINED
        if is_el(x) or isinstance(x, ElSet):
            return x
        if isinstance(x, S) and x[0] == "html":
            return S("el", "html", x[1])
        if isinstance(x, Arr):
            return ElSet(x.items)
        if x == WINDOW:
            return S("el", "window")
        if isinstance(x, (str, S)):
            if len(a) > 1 and not isinstance(a[1], Obj):
                return self.within(a[1], x, m)
            return self.select(x, m)
        if x is UNDEFINED or x is None:
            return ElSet([])
        raise Undecided("$(...)")

    def library(self, g, k, m):
        N = lambda f: Native(k, f)
        if g == "JSON" and k == "parse":
            def parse_(a):
                if a[0] == S("text", "context"):
                    return Arr([self.context(r) for r in self.rows])
                raise Undecided("JSON.parse")
            return N(parse_)
        if g == "Object":
            def ob(a):
                if isinstance(a[0], Arr):
                    return Obj({i: x for i, x in enumerate(a[0].items)})
                if a[0] is UNDEFINED or a[0] is None:
                    raise JsThrow("there is no context for a row", m.line)
                if not isinstance(a[0], Obj):
                    raise Undecided("Object." + k)
                return a[0]
            if k == "entries":
                return N(lambda a: Arr([Arr([x, y]) for x, y in ob(a).props.items()]))
            if k == "keys":
                return N(lambda a: Arr(list(ob(a).props)))
            if k == "values":
                return N(lambda a: Arr(list(ob(a).props.values())))
            if k == "assign":
                def assign(a):
                    for x in a[1:]:
                        a[0].props.update(x.props)
                    return a[0]
                return N(assign)
        if g == "Array" and k in ("from", "of"):
            return N(lambda a: Arr(m.items(a[0])) if k == "from" else Arr(a))
        if g == "Array" and k == "isArray":
            return N(lambda a: isinstance(a[0], Arr) and not isinstance(a[0], ElSet))
        if g == "Number" and k in ("parseInt", "parseFloat"):
            return N(lambda a: m.number(a[0]))
        if g == "console":
            return N(lambda a: UNDEFINED)
        if g == "Math" and k in ("max", "min"):
            def mx(a):
                v = a[0]
                for x in a[1:]:
                    v = x if m.compare(">" if k == "max" else "<", x, v) else v
                return v
            return N(mx)
        raise Undecided(f"{g}.{k}")

    def params(self, p, k, m):
        def st(a):
            p.sets[a[0]] = a[1]
            return UNDEFINED
        if k == "set":
            return Native(k, st)
        if k == "append":
            return Native(k, lambda a: p.sets.setdefault(a[0], a[1]) and UNDEFINED)
        if k == "delete":
            return Native(k, lambda a: (p.sets.pop(a[0], None), UNDEFINED)[1])
        if k == "toString":
            return Native(k, lambda a: p)
        raise Undecided("URLSearchParams." + str(k))

    # -------------------------------------------------------------- $.something
    def jquery(self, k, m):
        if k in ("get", "post", "ajax", "getJSON"):
            def req(a):
                o = a[0].props if isinstance(a[0], Obj) else {}
                if not o and len(a) > 1 and isinstance(a[1], Obj) and k == "ajax":
                    o = {**a[1].props, "url": a[0]}
                if o:
                    method = o.get("method", o.get("type", {"post": "POST"}.get(k, "GET")))
                    r = Request(method if k != "post" else "POST", o.get("url", UNDEFINED), o.get("data", UNDEFINED), o.get("headers", Obj()), m.line)
                    if "success" in o:
                        r.ok.append(o["success"])
                    if "error" in o:
                        r.bad.append(o["error"])
                    if "complete" in o:
                        r.ok.append(o["complete"])
                        r.bad.append(o["complete"])
                    if isinstance(o.get("beforeSend"), Func):
                        raise Undecided("beforeSend")
                else:
                    data = a[1] if len(a) > 1 else UNDEFINED
                    fn = next((x for x in a[1:3] if isinstance(x, (Func, Native))), None)
                    r = Request("POST" if k == "post" else "GET", a[0], UNDEFINED if data is fn else data, Obj(), m.line)
                    if fn is not None:
                        r.ok.append(fn)
                self.requests.append(r)
                return r
            return Native(k, req)
        if k == "each":
            def each(a):
                o = a[0]
                if isinstance(o, Obj):
                    for x, y in list(o.props.items()):
                        m.call(a[1], [x, y], y)
                    return o
                for i, x in enumerate([o] if is_el(o) else m.items(o)):
                    m.call(a[1], [i, x], x)
                return o
            return Native(k, each)
        if k == "map":
            return Native(k, lambda a: Arr([m.call(a[1], [x, i], UNDEFINED) for i, x in enumerate(m.items(a[0]))]))
        if k == "extend":
            def ext(a):
                for x in a[1:]:
                    a[0].props.update(x.props)
                return a[0]
            return Native(k, ext)
        if k == "param":
            return Native(k, lambda a: a[0])
        raise Undecided("$." + str(k))

    def chain(self, r, k, m):
        def add(*lists):
            def f(a):
                for fn, l in zip(a, lists) if len(lists) == 2 and k == "then" else [(x, l) for x in a for l in lists]:
                    if isinstance(fn, (Func, Native)):
                        l.append(fn)
                return r
            return Native(k, f)
        if k in ("done", "success"):
            return add(r.ok)
        if k in ("fail", "catch", "error"):
            return add(r.bad)
        if k in ("always", "finally", "complete"):
            return add(r.ok, r.bad)
        if k == "then":
            return add(r.ok, r.bad)
        raise Undecided("request." + str(k))

    # -------------------------------------------------------------- elements
    def setget(self, o, k, m):
        return self.elements(o.items, o, k, m)

    def elget(self, o, k, m):
        if isinstance(k, (int, Fraction)):
            return o if k == 0 else UNDEFINED
        if o == DOCUMENT:
            if k == "currentScript":
                return Obj({"dataset": Obj(self.t["script_data"])}) if m.loading and not self.t["module"] else None
            if k == "getElementById":
                def byid(a):
                    e = self.select("#" + a[0], m) if isinstance(a[0], str) else None
                    if e is None:
                        raise Undecided("getElementById")
                    return None if isinstance(e, ElSet) else e
                return Native(k, byid)
            if k in ("querySelector", "querySelectorAll"):
                def q(a):
                    e = self.select(a[0], m)
                    if k == "querySelector":
                        return e if is_el(e) else e.items[0] if e.items else None
                    return Arr([e]) if is_el(e) else Arr(e.items)
                return Native(k, q)
            if k == "body":
                return BODY
            if k == "location":
                return S("location")
        if k == "textContent" or k == "innerHTML" or k == "innerText":
            if o == S("el", "context"):
                return S("text", "context")
        if k == "dataset":
            return S("dataset", o) if False else self.dataset(o)
        if k == "style":
            return S("style", o)
        if k == "classList":
            return Obj({"add": Native("add", lambda a: self.classes.setdefault(o, set()).update(a) or UNDEFINED), "remove": Native("remove", lambda a: self.classes.setdefault(o, set()).difference_update(a) or UNDEFINED), "contains": Native("contains", lambda a: a[0] in self.classes.get(o, ())), "toggle": Native("toggle", lambda a: self.toggle([o], a, m))})
        if k == "getAttribute":
            return Native(k, lambda a: self.attr(o, a[0]) if (o, a[0]) in self.attrs else None)
        if k == "setAttribute":
            return Native(k, lambda a: self.attrs.__setitem__((o, a[0]), a[1]) or UNDEFINED)
        if k == "hasAttribute":
            return Native(k, lambda a: (o, a[0]) in self.attrs)
        if k in ("querySelector", "querySelectorAll"):
            def q2(a):
                e = self.within(o, a[0], m)
                if k == "querySelector":
                    return e if is_el(e) else e.items[0] if e.items else None
                return Arr([e]) if is_el(e) else Arr(e.items)
            return Native(k, q2)
        if k == "addEventListener":
            return Native(k, lambda a: self.handlers.append(([o], a[0], None, a[1], m.line)) or UNDEFINED)
        return self.elements([o], o, k, m)

    def dataset(self, o):
        d = {}
        for (e, n), v in self.attrs.items():
            if e == o and n.startswith("data-"):
                d[re.sub(r"-([a-z])", lambda x: x.group(1).upper(), n[5:])] = S("str", v) if not isinstance(v, str) else v
        return Obj(d)

    def attr(self, e, n):
        v = self.attrs.get((e, n), UNDEFINED)
        return v if isinstance(v, str) or v is UNDEFINED else str(v) if isinstance(v, int) else S("str", v)

    def data(self, e, n):
        n = re.sub(r"[A-Z]", lambda x: "-" + x.group().lower(), n)
        if (e, n) in self.cache:
            return self.cache[(e, n)]
        v = self.attrs.get((e, "data-" + n), UNDEFINED)
        if v is UNDEFINED:
            return v
        if isinstance(v, str):
            v = {"true": True, "false": False, "null": None}.get(v, int(v) if re.fullmatch(r"-?(0|[1-9]\d*)", v) else v)
        if isinstance(v, S) and v[0] == "str":
            v = v[1]
        self.cache[(e, n)] = v
        return v

    def toggle(self, els, a, m):
        for e in els:
            for c in a[0].split():
                cl = self.classes.setdefault(e, set())
                on = m.truth(a[1]) if len(a) > 1 else c not in cl
                (cl.add if on else cl.discard)(c)
        return UNDEFINED

    def elements(self, els, me, k, m):
        N = lambda f: Native(k, f)
        one = els[0] if els else None
        if k == "length":
            return len(els)
        if k in ("first", "last", "eq", "slice"):
            def first(a):
                if not els:
                    return ElSet([])
                if len(els) == 1 and is_el(one, "cells") and (k == "first" or a and a[0] == 0):
                    return S("el", "cell", *one[2:])
                if is_el(one, "cells"):
                    raise Undecided("cell")
                if k == "slice":
                    return ElSet(els[int(a[0]):])
                return els[0] if k == "first" else els[-1] if k == "last" else (els[int(a[0])] if a[0] < len(els) else ElSet([]))
            return N(first)
        if k in ("get", "toArray"):
            return N(lambda a: Arr(els) if not a else els[int(a[0])] if int(a[0]) < len(els) else UNDEFINED)
        if k in ("each", "map", "filter") and not (k == "filter" and False):
            def each(a):
                if k == "filter" and isinstance(a[0], str):
                    return self.filter(els, a[0], m)
                if any(is_el(e, "cells") for e in els):
                    raise Undecided("cells")
                out = []
                for i, e in enumerate(list(els)):
                    r = m.call(a[0], [i, e], e)
                    if k == "map":
                        out.append(r)
                    elif k == "filter" and m.truth(r):
                        out.append(e)
                    elif k == "each" and r is False:
                        break
                return me if k == "each" else ElSet(out)
            return N(each)
        if k == "data":
            def data(a):
                if not a:
                    raise Undecided("data()")
                if isinstance(a[0], Obj):
                    for x, v in a[0].props.items():
                        for e in els:
                            self.cache[(e, x)] = v
                    return me
                if len(a) > 1:
                    for e in els:
                        self.cache[(e, a[0])] = a[1]
                    return me
                return self.data(one, a[0]) if one is not None else UNDEFINED
            return N(data)
        if k in ("attr", "prop"):
            def attr(a):
                if isinstance(a[0], Obj) or len(a) > 1:
                    for n, v in a[0].props.items() if isinstance(a[0], Obj) else [(a[0], a[1])]:
                        n = m.concat([n]) if not isinstance(n, str) else n
                        for e in els:
                            if is_el(e, "handle") and n == "draggable":
                                raise Undecided("draggable")
                            self.attrs[(e, n)] = v
                    return me
                return self.attr(one, a[0]) if one is not None else UNDEFINED
            return N(attr)
        if k == "removeAttr":
            return N(lambda a: ([self.attrs.pop((e, a[0]), None) for e in els], me)[1])
        if k == "removeData":
            return N(lambda a: ([self.cache.pop((e, a[0]), None) for e in els], me)[1])
        if k in ("addClass", "removeClass"):
            def cls(a):
                for e in els:
                    c = self.classes.setdefault(e, set())
                    if not a:
                        c.clear()
                    elif k == "addClass":
                        c.update(a[0].split())
                    else:
                        c.difference_update(a[0].split())
                return me
            return N(cls)
        if k == "toggleClass":
            return N(lambda a: (self.toggle(els, a, m), me)[1])
        if k == "hasClass":
            return N(lambda a: any(a[0] in self.classes.get(e, ()) for e in els))
        if k in ("show", "hide", "fadeIn", "fadeOut", "slideDown", "slideUp"):
            def show(a):
                for e in els:
                    (self.hidden.discard if k in ("show", "fadeIn", "slideDown") else self.hidden.add)(e)
                return me
            return N(show)
        if k == "toggle" and not is_el(one, "list"):
            def tog(a):
                for e in els:
                    on = m.truth(a[0]) if a else e in self.hidden
                    (self.hidden.discard if on else self.hidden.add)(e)
                return me
            return N(tog)
        if k in ("find", "children"):
            def find(a):
                out = [self.within(e, a[0] if a else "td", m) for e in els]
                if len(out) == 1:
                    return out[0]
                return ElSet([y for x in out for y in ([x] if is_el(x) else x.items)])
            return N(find)
        if k in ("not", "is"):
            def nt(a):
                if k == "not" and len(els) == 1 and is_el(one, "cells") and "action-checkbox" in str(a[0]):
                    return S("el", "cells", one[2], True, one[4])
                if all(is_row(e) for e in els) and isinstance(a[0], str):
                    if k == "is" and a[0] in (":visible", ":hidden"):
                        return any((e in self.hidden) == (a[0] == ":hidden") for e in els)
                raise Undecided(k)
            return N(nt)
        if k in ("closest", "parents", "parent"):
            def closest(a):
                s = a[0] if a else ""
                if one is None:
                    return ElSet([])
                if k == "closest" and is_row(one) and re.match(r"tr\b", s):
                    return one
                if is_el(one, "toggle", "handle", "cell", "cells") and re.match(r"tr\b", s):
                    return one[2]
                return S("el", "other", repr(one), s)
            return N(closest)
        if k in ("prepend", "append", "before", "after", "insertAfter", "insertBefore", "appendTo", "prependTo", "html", "prependAll"):
            return N(lambda a: self.insert(els, me, k, a, m))
        if k == "text" and one == S("el", "context"):
            return N(lambda a: S("text", "context"))
        if k == "offset" or k == "position":
            return N(lambda a: Obj({"top": S("top", one), "left": S("left", one)}))
        if k == "getBoundingClientRect":
            raise Undecided(k)
        if k in ("height", "outerHeight", "innerHeight"):
            return N(lambda a: S("h", one))
        if k in ("width", "outerWidth", "innerWidth"):
            return N(lambda a: S("w", one))
        if k in ("offsetHeight", "clientHeight"):
            return S("h", one)
        if k == "on":
            def on(a):
                evs = a[0]
                sel = a[1] if len(a) > 1 and isinstance(a[1], str) else None
                fn = a[-1]
                for ev, f in (evs.props.items() if isinstance(evs, Obj) else [(evs, fn)]):
                    for x in ev.split():
                        self.handlers.append((list(els), x.split(".")[0], sel, f, m.line))
                return me
            return N(on)
        if k == "ready":
            return N(lambda a: self.readyfns.append(a[0]) or me)
        if k in ("click", "drop", "dragstart", "dragend", "dragenter", "dragover", "drag"):
            return N(lambda a: self.handlers.append((list(els), k, None, a[0], m.line)) or me)
        if k == "val":
            return N(lambda a: UNDEFINED if one is None else S("unk", "val", one))
        if k in ("css", "clone", "text", "off", "remove", "empty", "focus", "trigger", "stop", "detach", "width", "end", "blur", "addBack"):
            if k in ("remove", "detach", "empty") and any(is_row(e) or is_el(e, "list", "body", "toggle") for e in els):
                raise Undecided(k)
            if k in ("off", "trigger"):
                raise Undecided(k)
            if k == "css":
                def css(a):
                    d = a[0].props if isinstance(a[0], Obj) else {a[0]: a[1]} if len(a) > 1 else None
                    if d is None:
                        raise Undecided("css")
                    if "display" in d:
                        for e in els:
                            (self.hidden.add if d["display"] == "none" else self.hidden.discard)(e)
                    return me
                return N(css)
            return N(lambda a: S("el", "other", "clone", repr(one)) if k == "clone" else me)
        raise Undecided(f"element property {k}")

    def filter(self, els, sel, m):
        x = re.fullmatch(r"\.([\w-]+)", sel)
        if x:
            return ElSet([e for e in els if x.group(1) in self.classes.get(e, ())])
        raise Undecided("filter")

    def insert(self, els, me, k, a, m):
        if els and is_el(els[0], "cell") and k in ("prepend", "append"):
            flat = []
            for x in a:
                flat.extend(x.items if isinstance(x, Arr) else [x])
            if k == "append":
                raise Undecided("append to a cell")
            for e in els:
                new = []
                for h in flat:
                    new.extend(self.markup(h, e[2]))
                self.contents[e[2]] = [("cell", e[3], e[4])] + new + [x for x in self.contents.get(e[2], []) if x[0] != "cell"]
            return me
        if k in ("insertAfter", "insertBefore"):
            at, what = a[0], list(els)
        elif k in ("after", "before"):
            at = els[0] if els else None
            what = []
            for x in a:
                what.extend(x.items if isinstance(x, Arr) else [x])
        else:
            if any(is_row(e) or is_el(e, "list") for e in els):
                raise Undecided("insertion")
            return me
        if isinstance(at, ElSet):
            at = at.items[0] if at.items else None
        if is_row(at) and all(is_row(x) or is_el(x, "header") for x in what):
            if at not in self.rows:
                raise Undecided("row not in the list")
            for x in what:
                if x in self.rows:
                    self.rows.remove(x)
            i = self.rows.index(at) + (1 if "fter" in k else 0)
            self.rows[i:i] = what
            self.inserted.append((at, what))
            return me
        raise Undecided("insertion")

    def markup(self, h, r):
        """what a piece of markup put into a cell of row ``r`` contains"""
        if isinstance(h, S) and h[0] == "repeat" and isinstance(h[1], str):
            if "treebeard-collapse" in h[1] or "drag-handler" in h[1]:
                raise Undecided("markup")
            n = len(re.findall(r"<", h[1])) - len(re.findall(r"</", h[1]))
            return [("space", self.m.binary("*", h[2], n or 1))]
        if isinstance(h, S) and h[0] == "cat":
            return [y for x in h[1:] for y in self.markup(x, r)]
        if not isinstance(h, str):
            raise Undecided("markup")
        out = []
        for tag in re.findall(r"<[a-zA-Z][^>]*>", h):
            cls = set((re.search(r"class\s*=\s*['\"]([^'\"]*)", tag) or [None, ""])[1].split())
            if "treebeard-collapse" in cls:
                self.classes[S("el", "toggle", r)] = set(cls)
                out.append(("toggle", frozenset(cls)))
            elif "drag-handler" in cls:
                self.classes[S("el", "handle", r)] = set(cls)
                out.append(("handle", bool(re.search(r"draggable\s*=\s*['\"]?true", tag))))
            else:
                out.append(("space", 1))
        return out

    # -------------------------------------------------------------- events
    def matches(self, el, sel, top):
        for s in sel.split(","):
            parts = re.split(r"\s*>\s*|\s+", s.strip())
            last = parts[-1]
            x = re.fullmatch(r"(\*|[a-z]*)((?:\.[\w-]+|\[[^\]]*\])*)", last)
            if not x or any(not re.fullmatch(r"(tbody|table|#result_list)", p) for p in parts[:-1]):
                raise Undecided("selector of a handler")
            tag = {"row": "tr", "new": "tr", "header": "tr", "toggle": "a", "handle": "span", "cell": "td", "list": "table", "body": "body"}.get(el[1] if len(el) > 1 else "", "")
            if x.group(1) not in ("", "*", tag):
                continue
            if any(c not in self.classes.get(el, ()) for c in re.findall(r"\.([\w-]+)", x.group(2))):
                continue
            at = re.findall(r"\[([\w-]+)(?:=[\"']?(\w+)[\"']?)?\]", x.group(2))
            if any(not (n == "draggable" and is_el(el, "handle") and ("handle", True) in self.contents.get(el[2], ())) and (el, n) not in self.attrs for n, _ in at):
                continue
            if is_el(el, "header") and "tbody" in parts:
                continue
            return True
        return False

    def dispatch(self, event, target, m, **props):
        """an event at ``target`` going up to the document; returns whether the default is prevented"""
        chain = [target]
        if is_el(target, "toggle", "handle", "cell"):
            if is_el(target, "toggle", "handle"):
                chain.append(S("el", "cell", target[2]))
            chain.append(target[2])
        chain += [LIST, BODY, DOCUMENT]
        st = {"prevented": False, "stopped": False, "called": 0}
        for i, at in enumerate(chain):
            for els, ev, sel, fn, _ in list(self.handlers):
                if ev != event or at not in els:
                    continue
                cur = at
                if sel is not None:
                    cur = next((c for c in chain[:i] if self.matches(c, sel, at)), None)
                    if cur is None:
                        continue
                e = Obj({"target": target, "currentTarget": cur, "delegateTarget": at, "type": event, "preventDefault": Native("preventDefault", lambda a: st.__setitem__("prevented", True) or UNDEFINED), "stopPropagation": Native("stopPropagation", lambda a: st.__setitem__("stopped", True) or UNDEFINED), **props})
                dt = Obj({n: Native(n, lambda a: UNDEFINED) for n in ("setDragImage", "setData", "clearData")})
                dt.open = True
                e.props["originalEvent"] = Obj({"dataTransfer": dt, **{k: v for k, v in props.items()}})
                e.props["originalEvent"].open = e.open = True
                st["called"] += 1
                if m.call(fn, [e], cur) is False:
                    st["prevented"] = st["stopped"] = True
            if st["stopped"]:
                break
        return st

    def answer(self, r, m, ok, response=UNDEFINED):
        for f in list(r.ok if ok else r.bad):
            m.call(f, [response], UNDEFINED)
