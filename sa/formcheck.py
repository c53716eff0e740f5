"""MoveNodeForm: what saving, its initial values and its choices do to / say about the tree."""
import ast

from .framework import fake
from .queries import *
from .source import ClassInfo


OPTS, FIELD, REQUEST = fake("Options"), fake("FormField"), fake("Request")

CHILD = ("first-child", "last-child", "sorted-child")


def models(I, base, cfg):
    Tm, M, K = (ModelV(n, base, I.cfg) for n in "TMK")
    for m in (Tm, M, K):
        m.treebase = Tm
    if cfg.get("proxy"):
        M.proxy_for = M.concrete = Tm
    return M, K


class Custom(Paths):
    """paths of an arbitrary callable prepared by `prepare(I, M, K)` -> (fn, args, kwargs, params)"""

    def __init__(self, name, backend, prepare, **cfg):
        base = get_base(backend)
        self.backend, self.meth, self.name = backend, name, name
        c = Config(**{"rec_limit": 14, "fork_counts": True, **({"unit": const(1)} if backend == "LT" else {}), **cfg})
        self.I = UInterp(prog(), c)
        M, K = models(self.I, base, cfg)
        I = self.I
        I.deser_model = M

        def setup(I):
            r = prepare(I, M, K)
            I.effects.clear()
            return r
        self.setup = setup
        self.root, self.n = None, 0
        STATS["entries"] += 1


_custom = {}


def custom(key, *a, **cfg):
    key = key + (repr(sorted(cfg.items(), key=str)),)
    if key not in _custom:
        _custom[key] = Custom(*a, **cfg)
    return _custom[key]


def form_class():
    ci = prog().find_class("MoveNodeForm")
    if ci is None:
        raise AnalysisBroken("class MoveNodeForm not found")
    return ci


class FormSave(Op):
    """MoveNodeForm.save() with given cleaned data"""
    schemes = (False, True)

    def __init__(self, backend, adding, ref, pos, sorted_=False, changed="tree", commit=True, variant=()):
        super().__init__(backend, "move" if not adding else "add_root" if not ref else "add_child" if pos in CHILD else "add_sibling", pos, sorted_, variant)
        self.adding, self.ref, self.changed, self.commit = adding, ref, changed, commit

    @property
    def name(self):
        s = " node_order_by=" + ",".join(self.sorted) if self.sorted else ""
        return f"MoveNodeForm.save[{BACKENDS[self.backend]}{s}] {'new' if self.adding else 'existing'} node, {self.pos} {'of a node' if self.ref else 'at the top'}, {self.changed} changed{'' if self.commit else ', commit=False'}" + "".join(" " + v for v in self.variant)

    base_operands = ("target",)

    @property
    def params(self):
        return ([] if self.adding else ["node"]) + (["target"] if self.ref else [])

    def paths(self):
        cfg = {"sorted": self.sorted}
        if "proxy" in self.variant:
            cfg["proxy"] = True

        def prepare(I, M, K):
            form = Inst(form_class(), {})
            inst = I.new_row(M, [], {}) if self.adding else Row(T("param", "node"), M)
            if self.changed == "key":
                inst.attrs["k1"] = T("formkey")
            params = {"new" if self.adding else "node": inst}
            target = NONE
            if self.ref:
                target = params["target"] = Row(T("param", "target"), M if cfg.get("proxy") else M.treebase)
            cd = Dct()
            cd.entries = [[const("treebeard_ref_node"), target, None], [const("treebeard_position"), const(self.pos), None]]
            ch = {"tree": ["treebeard_position", "treebeard_ref_node"], "key": ["k1"], "pos": ["treebeard_position"], "ref": ["treebeard_ref_node"], "none": ["desc"]}[self.changed]
            form.attrs.update({"_meta": Inst(OPTS, {"model": M}), "instance": inst, "cleaned_data": cd, "changed_data": Lst([const(x) for x in ch]), "is_sorted": I.model_getattr(M, "node_order_by") if self.sorted else const(False)})
            return I.getattr(form, "save"), [], ({} if self.commit else {"commit": const(False)}), params
        return custom(("save", self.name), self.name, self.backend, prepare, **cfg)

    def layouts(self, n):
        for lay in super().layouts(n):
            if not self.adding:
                node, target = lay.env["node"], lay.env.get("target")
                if target is not None and (target == node or lay.is_desc(target, node)):
                    continue  # not offered
                if target is None:
                    lay.env["target"] = fz(lay.forest)[0][0]
                if self.changed == "key":
                    # the form shows the present parent
                    if self.ref != (lay.par[node] is not None) or (self.ref and target != lay.par[node]):
                        continue
                    for k in (5, 15, 25, 35):
                        lay2 = Layout(lay.backend, lay.forest, dict(lay.env), gaps=lay.gaps, keys=lay.keys, newkeys=lay.newkeys, sorted_=lay.sorted_, flags=lay.flags, label=f"new key {k}")
                        lay2.formkey = k
                        yield lay2
                    continue
            yield lay

    def effpos(self):
        if not self.adding and not self.ref:
            return "sorted-sibling" if self.sorted else "first-sibling"
        if self.adding and not self.ref:
            return "sorted-root" if self.sorted else "last-root"
        return self.pos

    def refuse(self, lay):
        return False

    def expected(self, lay):
        f = fz(lay.forest)
        if self.changed == "none" and not self.adding:
            return f
        if self.adding:
            if not self.ref:
                return f + (("NEW", ()),)
            if self.pos in CHILD:
                return insert_child(f, lay.env["target"], ("NEW", ()), self.pos)
            return insert_sibling(f, lay.env["target"], ("NEW", ()), self.pos)
        return super().expected(lay)

    def dest_parent(self, lay):
        if self.adding and not self.ref:
            return None
        if self.changed == "none" and not self.adding:
            return lay.par[lay.env["node"]]
        return super().dest_parent(lay)


def judge_form(op, lay, tr, rp):
    out = [d for d in judge_mutation(op, lay, tr, rp) if d.cat in ("shape", "raise", "enc", "sorted")]
    if op.changed == "key" and tr.outcome[0] != "raise" and rp.rows[lay.env["node"]]["k1"] != lay.formkey:
        out.append(Dev("form", f"{op.name}|form|key", "the edited value is not stored", tr, lay, last_writer(rp, lay.env["node"])))
    if tr.outcome[0] != "raise":
        r = tr.outcome[1]
        want = op.moved(lay)
        if not isinstance(r, Row) or rp.pkof(r.rowid) != want:
            out.append(Dev("form", f"{op.name}|form|result", "save() does not return the node it saved", tr, lay, last_writer(rp, want)))
    for d in out:
        d.key = d.key.replace(f"|{d.cat}|", f"|form:{d.cat}|")
    return out


def form_save_ops(backends=("MP", "NS", "AL", "LT")):
    for b in backends:
        for so in (False, ("k1",)):
            ps = ("sorted-child", "sorted-sibling") if so else ("first-child", "left", "right")
            for adding in (True, False):
                for ref in (True, False):
                    for p in ps if ref else ps[:1]:
                        yield FormSave(b, adding, ref, p, so)
                        yield FormSave(b, adding, ref, p, so, commit=False)
                        if not so:
                            yield FormSave(b, adding, ref, p, so, variant=("proxy",))
                        if adding:
                            yield FormSave(b, adding, ref, p, so, "none")
                        else:
                            yield FormSave(b, adding, ref, p, so, "none")
                            yield FormSave(b, adding, ref, p, so, "none", False)
                            if ref:
                                yield FormSave(b, adding, ref, p, so, "pos")
                                yield FormSave(b, adding, ref, p, so, "ref")
                            if so and p == "sorted-child":
                                yield FormSave(b, adding, ref, p, so, "key")


class FormInit:
    """MoveNodeForm(instance=...): initial values and choices"""
    kind = "form"
    schemes = (False,)

    def __init__(self, backend, instance, sorted_=False, variant=()):
        self.backend, self.instance, self.sorted, self.variant = backend, instance, sorted_, variant

    @property
    def name(self):
        s = " node_order_by=" + ",".join(self.sorted) if self.sorted else ""
        return f"MoveNodeForm()[{BACKENDS[self.backend]}{s}] {'existing node' if self.instance else 'no instance'}" + "".join(" " + v for v in self.variant)

    def paths(self):
        cfg = {"sorted": self.sorted}
        if "proxy" in self.variant:
            cfg["proxy"] = True

        def prepare(I, M, K):
            form = Inst(form_class(), {"_meta": Inst(OPTS, {"model": M})})
            kw, params = {}, {"form": form}
            if self.instance:
                kw["instance"] = params["node"] = Row(T("param", "node"), M)
            return I.getattr(form, "__init__"), [], kw, params
        return custom(("init", self.name), self.name, self.backend, prepare, **cfg)

    def layouts(self, n):
        for m in range(1 if self.instance else 0, n + 1):
            for f in all_forests(m):
                for x in [x[0] for x in forest_nodes(f)] if self.instance else [None]:
                    env = {"node": x} if x else {}
                    if self.sorted:
                        ks, _ = next(key_schemes(f, {}, self))
                        yield Layout(self.backend, f, env, keys=ks, sorted_=True, flags=self.variant)
                    else:
                        yield Layout(self.backend, f, env, gaps=True, flags=self.variant)


def judge_init(op, lay, tr, rp):
    out = []

    def dev(cat, key, msg, loc=None):
        out.append(Dev(cat, f"{op.name}|{cat}|{key}", msg, tr, lay, loc or last_query(tr)))
    for where, msg in left_behind(tr):
        dev("choices", "kept", msg, where)
    if tr.outcome[0] == "raise":
        dev("choices", "raise", f"raises {exc_name(tr.outcome[1])}", outcome_loc(tr))
        return out
    if rp.writes:
        dev("choices", "writes", "writes to the database", rp.writelog[0].where)
    form = tr.params["form"]
    t = F(lay.forest)
    node = lay.env.get("node")
    fields = {cval(k): v for k, v, _ in form.attrs["fields"].entries}
    ref = fields["treebeard_ref_node"]
    want = [n for n in t.doc if node is None or (n != node and node not in t.anc(n))]
    ch = ref.attrs.get("widget_choices")
    if isinstance(ch, QS):
        got = got_rows(ch, rp)
    elif isinstance(ch, Lst):
        got = []
        for it in ch.items:
            v = it[0] if isinstance(it, tuple) else it.items[0]
            if v is not const(""):
                got.append(rp.val(v))
        if not ch.items or (ch.items[0][0] if isinstance(ch.items[0], tuple) else ch.items[0].items[0]) is not const(""):
            dev("choices", "empty", "the root choice is missing or not first")
    else:
        raise Undecided("choices of the field")
    if got != want:
        dev("choices", "set" if sorted(got) != sorted(want) else "order", f"offers {got} as reference nodes, must offer {want}")
    q = ref.attrs.get("queryset")
    if q is None or q is NONE:
        dev("choices", "queryset", "the field has no queryset to validate against")
    elif not set(want) <= set(got_rows(q, rp)):
        dev("choices", "validation", f"offers {want} but accepts only {got_rows(q, rp)}")
    pc = fields["treebeard_position"].attrs.get("choices")
    its = pc.items if isinstance(pc, Lst) else pc if isinstance(pc, tuple) else None
    if its is None:
        raise Undecided("position choices")
    pos = [cval(x[0] if isinstance(x, tuple) else x.items[0]) for x in its]
    ok = ["sorted-child", "sorted-sibling"] if op.sorted else ["first-child", "left", "right"]
    if sorted(pos) != sorted(ok):
        dev("choices", "positions", f"offers the positions {pos}, must offer {ok}")
    if node is not None:
        ini = form.attrs["initial"]
        d = {cval(k): v for k, v, _ in ini.entries} if isinstance(ini, Dct) else {}
        if set(d) != {"treebeard_ref_node", "treebeard_position"}:
            dev("initial", "keys", f"initial values for {sorted(d)}")
            return out
        p, r = cval(d["treebeard_position"]), got_row(d["treebeard_ref_node"], rp)
        f = fz(lay.forest)
        if p not in pos:
            dev("initial", "position", f"the initial position {p} is not offered")
        elif op.sorted:
            if r != t.par[node] or p != "sorted-child":
                dev("initial", "place", f"initially says {p} of {r}, the parent is {t.par[node]}")
        elif r is None:
            if t.prev(node) is not None or t.par[node] is not None:
                dev("initial", "place", f"initially says {p} of the root, but the node is not the first root")
        elif r == node or expected_move(f, node, r, p) != f:
            dev("initial", "place", f"initially says {p} of {r}, which is not where the node is")
    return out


def form_init_ops(backends=("MP", "NS", "AL", "LT")):
    for b in backends:
        for so in (False, ("k1",)):
            for inst in (True, False):
                yield FormInit(b, inst, so)
                if not so:
                    yield FormInit(b, inst, so, ("proxy",))
