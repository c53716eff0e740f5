"""The addresses of a TreeAdmin: what a request to one of them reaches, and past which checks."""
import re

from .admincheck import *
from .framework import ROUTE
from .jscheck import addresses

CONVERTERS = {"str": "[^/]+", "int": "[0-9]+", "path": ".+", "slug": "[-a-zA-Z0-9_]+", "uuid": "[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}"}
PARAM = re.compile(r"<(?:(\w+):)?(\w+)>")


def matcher(pattern, kind):
    """regular expression of a route, as django.urls makes it"""
    if kind == "re":
        return re.compile(pattern)
    out, i = "", 0
    for m in PARAM.finditer(pattern):
        conv = CONVERTERS.get(m.group(1) or "str")
        if conv is None:
            raise Undecided("converter " + str(m.group(1)))
        out += re.escape(pattern[i:m.start()]) + f"(?P<{m.group(2)}>{conv})"
        i = m.end()
    return re.compile(out + re.escape(pattern[i:]) + r"\Z")


def flat(v):
    if isinstance(v, Lst) and not v.many():
        v = v.items
    if not isinstance(v, (list, tuple)):
        raise Undecided("list of routes")
    out = []
    for r in v:
        if not (isinstance(r, Inst) and r.ci is ROUTE and isinstance(r.attrs["pattern"], T) and is_const(r.attrs["pattern"])):
            raise Undecided("route")
        out.append((cval(r.attrs["pattern"]), r.attrs["kind"], r))
    return out


def resolve(routes, url):
    for pattern, kind, r in routes:
        m = matcher(pattern, kind).search(url) if kind == "re" else matcher(pattern, kind).match(url)
        if m:
            return pattern, r.attrs["view"], m.groupdict() or {str(i): g for i, g in enumerate(m.groups())}
    return None, None, {}


NOTHING = const(404)
SAMPLES = ("12", "3f2b6c1e-9a4d-4c0b-8f00-0123456789ab", "key_1", "o.k@b")


def view_loc(routes, pattern):
    return next((r.attrs["__loc"] for p, _, r in routes if p == pattern and "__loc" in r.attrs), None)


def call_url(I, adm, req, url, pk, params_out):
    """the answer to a request for ``url``; the part of the address equal to a sample key stands for ``pk``"""
    routes = flat(I.call(I.getattr(adm, "get_urls"), [], {}))
    pattern, view, params = resolve(routes, url)
    if pattern is None or view is NONE:
        return Inst(RESPONSE, {"status_code": NOTHING, "content": NONE, "__missed": pattern})
    params_out["route"] = view_loc(routes, pattern)
    named = {k: v for k, v in params.items() if not k.isdigit()}
    val = lambda v: pk if v in SAMPLES and pk is not None else const(v)
    return I.call(view, [req] + [val(v) for k, v in params.items() if k.isdigit()], {k: val(v) for k, v in named.items()})


class UrlMove(AdminMove):
    """a POST to the address the page's script uses for a drop"""
    mti = False

    def __init__(self, backend, relation, url):
        super().__init__(backend, relation)
        self.url = url

    @property
    def name(self):
        return f"POST {self.url} to TreeAdmin[{BACKENDS[self.backend]}]({self.relation})" + "".join(" " + v for v in self.variant)

    def paths(self):
        def prepare(I, M, K):
            adm = Inst(admin_class(), {"model": M})
            params = {n: Row(T("param", n), M) for n in ("node", "target")}
            I.form_values = {**params, "relation": const(self.relation)}
            req = Inst(REQUEST, {"POST": T("post"), "GET": T("get"), "method": const("POST"), "user": I.user()})
            return Builtin("request", lambda a, k: call_url(I, adm, req, self.url, None, params)), [], {}, params
        return custom(("adminurl", self.name), self.name, self.backend, prepare, sorted=self.sorted, **({"proxy": True} if "proxy" in self.variant else {}))

    def layouts(self, n):
        for lay in super().layouts(n):
            for staff in (True, False):
                lay2 = Layout(lay.backend, lay.forest, dict(lay.env), gaps=lay.gaps, keys=lay.keys, newkeys=lay.newkeys, sorted_=lay.sorted_, flags=lay.flags, label=lay.label + f" staff={staff}")
                lay2.perms, lay2.valid = dict(lay.perms), lay.valid
                lay2.perms[("staff", None)] = staff
                yield lay2


class UrlChildren(AdminView):
    """a GET of the address the page's script uses for the children of a node"""
    mti_some = False

    def __init__(self, backend, url, sample, variant=()):
        super().__init__(backend, "children_view", variant)
        self.url, self.mti = url.replace("<key>", sample), False

    @property
    def name(self):
        return f"GET {self.url} of TreeAdmin[{BACKENDS[self.backend]}]" + "".join(" " + v for v in self.variant)

    def paths(self):
        def prepare(I, M, K):
            adm = Inst(admin_class(), {"model": M})
            req = Inst(REQUEST, {"user": I.user(), "method": const("GET"), "POST": T("post"), "GET": T("get")})
            params = {"request": req}
            return Builtin("request", lambda a, k: call_url(I, adm, req, self.url, Row(T("param", "node"), M).pk(), params)), [], {}, params
        return custom(("adminurl", self.name), self.name, self.backend, prepare, sorted=False, **({"proxy": True} if "proxy" in self.variant else {}))

    def layouts(self, n):
        for lay in super().layouts(n):
            for staff in (True, False):
                lay2 = Layout(lay.backend, lay.forest, dict(lay.env), gaps=True, flags=lay.flags, label=lay.label + f" staff={staff}")
                lay2.perms, lay2.form = dict(lay.perms), lay.form
                lay2.perms[("staff", None)] = staff
                yield lay2


def missed(tr):
    r = tr.outcome[1] if tr.outcome[0] != "raise" else None
    return r.attrs["__missed"] if isinstance(r, Inst) and "__missed" in r.attrs else False


def judge_url(op, lay, tr, rp):
    """staff only, with the request token, and then what the view itself must do"""
    out = []

    def dev(key, msg, loc=None, cat="perm"):
        out.append(Dev(cat, f"{op.name}|{key}", msg, tr, lay, loc or (rp.writelog[0].where if rp.writelog else outcome_loc(tr) or last_query(tr))))
    route = tr.params.get("route")
    m = missed(tr)
    if m is not False:
        if lay.perms[("staff", None)]:
            dev("route", "the request reaches no view" if m is None else f"the request reaches the admin's own route '{m}', not the view", cat="route")
        return out
    for e in tr.effects:
        if e.kind == "extcall" and isinstance(e.fn, Ext) and e.fn.last == "csrf_exempt" and isinstance(op, UrlMove):
            dev("csrf", "the move is made without the token that proves the request comes from the site's own pages", route)
    if not lay.perms[("staff", None)]:
        if rp.writes:
            dev("staff-write", "the tree is changed for a user the admin site does not admit", route)
        elif tr.outcome[0] != "raise":
            r = tr.outcome[1]
            if not isinstance(r, Inst) or r.ci is not RESPONSE:
                raise Undecided("response")
            if response(r) < 300:
                dev("staff", "the request is answered for a user the admin site does not admit", route)
        return out
    ds = judge_admin(op, lay, tr, rp) if isinstance(op, UrlMove) else judge_view(op, lay, tr, rp)
    for d in ds:
        if d.cat != "perm":
            d.cat = "route"
        out.append(d)
    return out


def url_ops(backends=("MP", "NS", "AL", "LT")):
    move, children = addresses()
    for b in backends:
        for rel in ("child", "sibling"):
            yield from (UrlMove(b, rel, u) for u in move)
        for s in SAMPLES:
            yield from (UrlChildren(b, u, s) for u in children)
