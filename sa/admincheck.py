"""TreeAdmin: moving nodes over HTTP, permissions, and the context of the change list."""
import itertools

from .capacity import capacity_layouts
from .atomicity import db_of
from .formcheck import *
from .memo import shared_state

from .framework import CHANGELIST, RESPONSE


def admin_class():
    ci = prog().find_class("TreeAdmin")
    if ci is None:
        raise AnalysisBroken("class TreeAdmin not found")
    return ci


def tag_module():
    mod = prog().modules.get("treebeard.templatetags.admin_tree")
    if mod is None:
        raise AnalysisBroken("module templatetags.admin_tree not found")
    return mod


class AdminMove(Op):
    """TreeAdmin.move_node(request) with given form values"""
    schemes = (False,)
    PERMS = tuple((v, c, n, f) for v in (True, False) for c in (True, False) for n in (True, False) for f in (True, False))

    def __init__(self, backend, relation, sorted_=False, variant=()):
        pos = {("child", True): "sorted-child", ("child", False): "last-child", ("sibling", True): "sorted-sibling", ("sibling", False): "left"}[relation, bool(sorted_)]
        super().__init__(backend, "move", pos, sorted_, variant)
        self.relation = relation

    @property
    def name(self):
        s = " node_order_by=" + ",".join(self.sorted) if self.sorted else ""
        return f"TreeAdmin.move_node[{BACKENDS[self.backend]}{s}]({self.relation})" + "".join(" " + v for v in self.variant)

    def paths(self):
        cfg = {"sorted": self.sorted}
        if "proxy" in self.variant:
            cfg["proxy"] = True

        def prepare(I, M, K):
            adm = Inst(admin_class(), {"model": M})
            params = {n: Row(T("param", n), M) for n in ("node", "target")}
            I.form_values = {**params, "relation": const(self.relation)}
            req = Inst(REQUEST, {"POST": T("post"), "GET": T("get"), "method": const("GET" if "GET" in self.variant else "POST"), "user": I.user()})
            return I.getattr(adm, "move_node"), [req], {}, params
        return custom(("admin", self.name), self.name, self.backend, prepare, **cfg)

    def layouts(self, n):
        for i, lay in enumerate(super().layouts(n)):
            for view, anyc, nodec, valid in self.PERMS if len(lay.rows) <= 2 else ((True, True, True, True),):
                lay2 = Layout(lay.backend, lay.forest, dict(lay.env), gaps=lay.gaps, keys=lay.keys, newkeys=lay.newkeys, sorted_=lay.sorted_, flags=lay.flags, label=f"view={view} change={anyc} change(node)={nodec} valid form={valid}")
                t, nd = lay.env["target"], lay.env["node"]
                lay2.perms = {("view", None): view, ("view", nd): view, ("change", None): anyc, ("change", t): not nodec, ("change", nd): nodec, ("view_or_change", None): view or anyc, ("view_or_change", nd): nodec or view, ("view", t): view}
                if t != nd:
                    lay2.perms[("view_or_change", t)] = view or not nodec
                lay2.valid = valid
                lay2.method = "GET" if "GET" in self.variant else "POST"
                yield lay2

    def allowed(self, lay):
        return lay.perms[("change", lay.env["node"])]


def response(v):
    """status code of a returned response"""
    if isinstance(v, Inst) and v.ci is RESPONSE and "status_code" in v.attrs:
        c = v.attrs["status_code"]
        if is_const(c):
            return int(cval(c))
    raise Undecided("response")


def judge_admin(op, lay, tr, rp):
    out = []

    def dev(cat, key, msg, loc=None):
        out.append(Dev(cat, f"{op.name}|{cat}|{key}", msg, tr, lay, loc or (rp.writelog[0].where if rp.writelog else last_query(tr))))
    wrote = [e for e in tr.effects if e.kind in WRITES]
    site = wrote[0].where if wrote else None
    raised = exc_name(tr.outcome[1]) if tr.outcome[0] == "raise" else None
    if "GET" in op.variant:
        if wrote:
            dev("perm", "get", "the tree is changed by a GET request, which proves nothing about the page it comes from", site)
        return out
    full = lay.perms[("view_or_change", None)] and op.allowed(lay)
    if not op.allowed(lay):
        if wrote:
            dev("perm", "written", "the tree is changed although the user may not change the node", site)
        if raised != "PermissionDenied" and lay.valid:
            dev("perm", "response", f"no PermissionDenied although the user may not change the node ({raised or 'returns'})", outcome_loc(tr))
        return out
    if not lay.valid:
        if wrote:
            dev("perm", "invalid", "the tree is changed although the request is not valid", site)
        if raised is None and response(tr.outcome[1]) < 400:
            dev("move", "invalid", "answers OK to an invalid request")
        return out
    if not full:
        return out
    if raised == "PermissionDenied":
        dev("perm", "refused", "PermissionDenied although the user may change the node", outcome_loc(tr))
        return out
    refuse = Op.refuse(op, lay)
    if raised:
        dev("move", "raise:" + raised, f"raises {raised}", outcome_loc(tr))
        return out
    resp = response(tr.outcome[1])
    if refuse:
        if not 400 <= resp < 500:
            dev("move", "refusal", f"a move below itself is answered with {resp}")
        if rp.writes:
            dev("move", "written", "rows were written although the move is refused", site)
        return out
    if not 200 <= resp < 300:
        dev("move", "response", f"a successful move is answered with {resp}")
    for d in judge_mutation(op, lay, tr, rp):
        if d.cat in ("shape", "sorted", "enc", "raise"):
            d.cat = "move"
            out.append(d)
    return out


def admin_ops(backends=("MP", "NS", "AL", "LT")):
    for b in backends:
        for so in (False, ("k1",)):
            for rel in ("child", "sibling"):
                yield AdminMove(b, rel, so)
        yield AdminMove(b, "child", False, ("proxy",))
        yield AdminMove(b, "child", False, ("GET",))


class AdminCap(AdminMove):
    """the same at the limit of the path column"""

    @property
    def name(self):
        return super().name + " at the limits"

    def layouts(self, n):
        for lay in capacity_layouts(self, n):
            if self.refuse(lay):
                continue
            lay.perms = {(k, x): True for k in ("view", "change", "view_or_change") for x in [None] + list(lay.rows)}
            lay.valid = True
            yield lay


def judge_admin_cap(op, lay, tr, rp):
    if tr.outcome[0] == "raise":
        return [Dev("move", f"{op.name}|move|raise:{exc_name(tr.outcome[1])}", f"raises {exc_name(tr.outcome[1])} instead of answering 400", tr, lay, outcome_loc(tr))]
    if response(tr.outcome[1]) >= 400 and rp.rows != {n: r for n, r in lay.rows.items()}:
        return [Dev("move", f"{op.name}|move|written", "rows were changed although the move is refused", tr, lay, rp.writelog[0].where)]
    return []


class AdminList:
    """TreeAdmin.get_queryset(request) of the change list / of the children of one node"""
    kind, sorted, schemes = "admin list", False, (False,)
    mti_some = True

    def __init__(self, backend, what, variant=()):
        self.backend, self.what, self.variant = backend, what, variant
        self.mti = not variant

    @property
    def name(self):
        return f"TreeAdmin.{'get_queryset' if self.what != 'context' else 'tree_context'}[{BACKENDS[self.backend]}] {self.what}" + "".join(" " + v for v in self.variant)

    def paths(self):
        cfg = {"sorted": False}
        for v in self.variant:
            cfg[v] = True

        def prepare(I, M, K):
            adm = Inst(admin_class(), {"model": M})
            req = Inst(REQUEST, {"user": I.user(), "method": const("GET")})
            params = {"request": req}
            if "children" in self.what:
                req.attrs["_treebeard_parent_id"] = Row(T("param", "node"), M).pk()
            elif self.what != "all":
                req.attrs["_treebeard_parent_id"] = NONE
            if self.what.startswith("context"):
                fn = I.mod_lookup(tag_module(), "tree_context")
                cl = I.call(I.getattr(adm, "get_changelist_instance"), [req], {})
                return fn, [cl, req], {}, params
            return I.getattr(adm, "get_queryset"), [req], {}, params
        return custom(("adminlist", self.name), self.name, self.backend, prepare, **cfg)

    def layouts(self, n):
        for m in range(0 if "children" not in self.what else 1, n + 1):
            for f in all_forests(m):
                for x in [x[0] for x in forest_nodes(f)] if "children" in self.what else [None]:
                    lay = Layout(self.backend, f, {"node": x} if x else {}, gaps=True, flags=self.variant)
                    for i in range(2):
                        lay.perms = {("change", nm): (j + i) % 2 == 0 for j, nm in enumerate(lay.rows)}
                        yield lay


def judge_list(op, lay, tr, rp):
    out = []

    def dev(key, msg, loc=None):
        out.append(Dev("changelist", f"{op.name}|changelist|{key}", msg, tr, lay, loc or last_query(tr)))
    if tr.outcome[0] == "raise":
        dev("raise", f"raises {exc_name(tr.outcome[1])}", outcome_loc(tr))
        return out
    for where, msg in shared_state(tr):
        dev("shared", msg, where)
    t = F(lay.forest)
    node = lay.env.get("node")
    here = lay.rows if lay.mti is None else lay.mti
    want = [x for x in t.ch[node] if x in here]
    if not op.what.startswith("context"):
        got = got_rows(tr.outcome[1], rp)
        if op.what == "all":
            want = [x for x in t.doc if x in here]
            if op.backend == "AL":
                # no document order in the database: the order of the list is up to the model
                got, want = sorted(got), sorted(want)
        if got != want:
            dev("rows", f"lists {got}, must list {want}")
        if op.what != "all":
            p = tr.params["request"].attrs.get("_treebeard_parent")
            if p is None or got_row(p, rp) != node:
                dev("parent", "the request does not remember the parent node")
        return out
    judge_context(op, lay, rp, tr.outcome[1], want, node, t, here, dev)
    return out


def judge_context(op, lay, rp, res, want, node, t, here, dev):
    if not isinstance(res, Lst):
        raise Undecided("context")
    got = []
    for d in res.items:
        e = {cval(k): v for k, v, _ in d.entries}
        if set(e) != {"node-id", "parent-id", "level", "has-children", "can-change"}:
            dev("keys", f"context has the keys {sorted(e)}")
            return
        got.append((str(rp.val(e["node-id"])), str(rp.val(e["parent-id"])), rp.val(e["level"]), int(rp.val(e["has-children"])), int(rp.val(e["can-change"]))))
    exp = [(n, node or "0", t.dep[n], int(bool(t.ch[n])), int(lay.perms[("change", n)])) for n in want]
    for i, nm in enumerate(("node-id", "parent-id", "level", "has-children", "can-change")):
        if nm == "has-children" and lay.mti is not None:
            # a child of another class is a child of the node, but not listed: both answers are sensible
            got = [g[:i] + (x[i],) + g[i + 1:] if x[i] and not any(c in here for c in t.ch[g[0]]) else g for g, x in zip(got, exp)]
        if [g[i] for g in got] != [x[i] for x in exp]:
            dev(nm, f"{nm} of {want} is {[g[i] for g in got]}, must be {[x[i] for x in exp]}")


def admin_list_ops(backends=("MP", "NS", "AL", "LT")):
    for b in backends:
        for v in ((), ("proxy",)):
            for w in ("all", "roots", "children", "context", "context of children"):
                yield AdminList(b, w, v)


class AdminView:
    """children_view, changelist_view and _changeform_view as requests reach them"""
    kind, sorted, schemes = "admin view", False, (False,)
    mti_some = True

    def __init__(self, backend, what, variant=()):
        self.backend, self.what, self.variant = backend, what, variant
        self.mti = not variant

    @property
    def name(self):
        return f"TreeAdmin.{self.what}[{BACKENDS[self.backend]}]" + "".join(" " + v for v in self.variant)

    def paths(self):
        cfg = {"sorted": False, **{v: True for v in self.variant if v == "proxy"}}
        method = next((m for m in self.variant if m in ("POST", "HEAD")), "GET")

        def prepare(I, M, K):
            adm = Inst(admin_class(), {"model": M})
            req = Inst(REQUEST, {"user": I.user(), "method": const(method), "POST": T("post"), "GET": T("get")})
            args = [req] + ([Row(T("param", "node"), M).pk()] if self.what == "children_view" else [])
            params = {"request": req}
            if self.what != "changelist_view":
                return I.getattr(adm, self.what), args, {}, params

            def request(a, k):
                r = I.call(I.getattr(adm, self.what), args, {})
                cl = next((v for x, v, _ in r.attrs["context_data"].entries if cval(x) == "cl"), None) if isinstance(r, Inst) and isinstance(r.attrs.get("context_data"), Dct) else None
                if cl is not None and ("POST" not in self.variant or "without an action" in self.variant):
                    # the page is rendered: its template calls the tag
                    params["context"] = I.call(I.mod_lookup(tag_module(), "tree_context"), [cl, req], {})
                return r
            return Builtin("request", request), [], {}, params
        return custom(("adminview", self.name), self.name, self.backend, prepare, **cfg)

    def layouts(self, n):
        for m in range(1 if self.what == "children_view" else 0, n + 1 if self.what != "_changeform_view" else 1):
            for f in all_forests(m):
                for x in [x[0] for x in forest_nodes(f)] if self.what == "children_view" else [None]:
                    for view, form in itertools.product((True, False), ((True, False), (False, True), (False, False)) if self.what == "_changeform_view" else ((True, False),)):
                        lay = Layout(self.backend, f, {"node": x} if x else {}, gaps=True, flags=self.variant)
                        lay.perms = {("change", nm): j % 2 == 0 for j, nm in enumerate(lay.rows)}
                        lay.perms.update({("view", None): view, ("view_or_change", None): view, ("change", None): view})
                        lay.form = form
                        lay.label = f"view permission: {view}"
                        yield lay
                        if view and self.what != "_changeform_view":  # a user who may look but not change anything
                            lay = Layout(self.backend, f, {"node": x} if x else {}, gaps=True, flags=self.variant)
                            lay.perms = {("change", nm): False for nm in lay.rows}
                            lay.perms.update({("view", None): True, ("view_or_change", None): True, ("change", None): False})
                            lay.form = form
                            lay.label = "view permission only"
                            yield lay


def judge_view(op, lay, tr, rp):
    out = []

    def dev(key, msg, loc=None, cat=None):
        out.append(Dev(cat or "changelist", f"{op.name}|{key}", msg, tr, lay, loc or outcome_loc(tr) or last_query(tr)))
    exc = exc_name(tr.outcome[1]) if tr.outcome[0] == "raise" else None
    if op.what == "_changeform_view":
        rb = [e for e in tr.effects if e.kind == "extcall" and isinstance(e.fn, Ext) and e.fn.last == "set_rollback"]
        rolled = bool(rb) and all(a is TRUE for a in rb[-1].args[:1])
        db = db_of(rb[-1].kwargs.get("using", rb[-1].args[1] if len(rb[-1].args) > 1 else NONE), True) if rolled else None
        saved, errors = lay.form
        if exc:
            dev("raise", f"raises {exc}")
        elif errors and not saved and not rolled:
            dev("rollback", "the transaction is not rolled back although the form or a formset has errors", cat="atomic")
        elif errors and not saved and db != "routed":
            dev("rollback-db", f"the transaction of the database '{db}' is rolled back, not that of the database of the model", rb[-1].where, cat="atomic")
        elif (saved or not errors) and rolled:
            dev("rollback", "the transaction is rolled back although there are no errors", rb[-1].where, cat="atomic")
        return out
    if not lay.perms[("view", None)]:
        if exc != "PermissionDenied":
            dev("perm", f"answers without view permission ({exc or 'no error'})", cat="perm")
        return out
    if exc:
        dev("raise:" + exc, f"raises {exc}")
        if exc == "PermissionDenied":
            dev("refused", "refuses a user who may view the model", cat="perm")
        return out
    for where, msg in shared_state(tr):
        dev("shared", msg, where)
    t = F(lay.forest)
    node = lay.env.get("node")
    here = lay.rows if lay.mti is None else lay.mti
    r = tr.outcome[1]
    if op.what == "children_view":
        if response(r) != 200:
            dev("status", f"answers {response(r)}")
            return out
        c = r.attrs["content"]
        if not isinstance(c, Dct):
            raise Undecided("content")
        d = {cval(k): v for k, v, _ in c.entries}
        if not {"result_html", "tree_context", "page", "num_pages"} <= set(d):
            dev("keys", f"the answer has the keys {sorted(d)}")
            return out
        judge_context(op, lay, rp, d["tree_context"], [x for x in t.ch[node] if x in here], node, t, here, dev)
        return out
    cd = r.attrs.get("context_data")
    cl = next((v for k, v, _ in cd.entries if cval(k) == "cl"), None) if isinstance(cd, Dct) else None
    if cl is None:
        raise Undecided("change list")
    got = got_rows(cl.attrs["result_list"], rp)
    want = [x for x in (t.ch[None] if "POST" not in op.variant else t.doc) if x in here]
    if op.backend == "AL" and "POST" in op.variant:
        got, want = sorted(got), sorted(want)
    if got != want:
        dev("rows", f"lists {got}, must list {want}")
    elif "POST" not in op.variant and "context" in tr.params:
        judge_context(op, lay, rp, tr.params["context"], want, None, t, here, dev)
    return out


def admin_view_ops(backends=("MP", "NS", "AL", "LT")):
    for b in backends:
        for v in ((), ("proxy",)):
            yield AdminView(b, "children_view", v)
            yield AdminView(b, "changelist_view", v)
        yield AdminView(b, "changelist_view", ("HEAD",))
        yield AdminView(b, "changelist_view", ("POST",))
        yield AdminView(b, "changelist_view", ("POST", "without an action"))
    yield AdminView("MP", "_changeform_view")
