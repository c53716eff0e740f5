"""movenodeform_factory: the tree's own columns never become fields of a form."""
from .formcheck import *
from .source import AnalysisBroken, FuncInfo

TREE_COLUMNS = {"MP": ("path", "depth", "numchild"), "NS": ("tree_id", "lft", "rgt", "depth"), "AL": ("parent", "sib_order"), "LT": ("path",)}
SIGNATURE = ("model", "form", "fields", "exclude", "formfield_callback", "widgets", "localized_fields", "labels", "help_texts", "error_messages", "field_classes")
WIDGETS = T("param", "widgets")


class Factory:
    kind, sorted, mti = "factory", False, False
    schemes = (False,)

    def __init__(self, backend, exclude, fields, form, variant=()):
        self.backend, self.exclude, self.fields, self.form, self.variant = backend, exclude, fields, form, variant

    @property
    def name(self):
        o = [f"exclude={self.exclude}"] * (self.exclude != "absent") + [f"fields={self.fields}"] * (self.fields != "absent") + ["form=Own"] * self.form
        return f"movenodeform_factory({BACKENDS[self.backend]}" + "".join(", " + x for x in o) + ")" + "".join(" " + v for v in self.variant)

    def paths(self):
        def prepare(I, M, K):
            mod = I.prog.modules.get("treebeard.forms") or next((m for m in I.prog.modules.values() if m.rel.endswith("forms.py")), None)
            fi = I.prog.lookup(mod, "movenodeform_factory") if mod is not None else None
            if not isinstance(fi, FuncInfo):
                raise AnalysisBroken("function movenodeform_factory not found")
            kw = {}
            given = {"none": NONE, "tuple": (const("desc"),), "empty tuple": (), "list": Lst([const("desc")]), "empty list": Lst()}.get(self.exclude)
            if self.exclude != "absent":
                kw["exclude"] = given
            if self.fields != "absent":
                kw["fields"] = const("__all__") if self.fields == "__all__" else Lst([const("desc"), const(TREE_COLUMNS[self.backend][0])])
            kw["widgets"] = WIDGETS
            I.own_form = Cls(ClassInfo(ast.parse("class OwnForm(MoveNodeForm): pass").body[0], mod))
            if self.form:
                kw["form"] = I.own_form
            m = K if "mti" in self.variant else M
            return I.make_fn(fi, Frame(None, fi.module)), [m], kw, {"exclude": given, "model": m, "own": I.own_form}
        cfg = {"proxy": True} if "proxy" in self.variant else {}
        return custom(("factory", self.name), self.name, self.backend, prepare, **cfg)

    def layouts(self, n):
        yield Layout(self.backend, (), {}, flags=self.variant)


def names(v):
    if v is None or v is NONE:
        return None
    items = v.items if isinstance(v, Lst) else v
    if not isinstance(items, (list, tuple)) or not all(isinstance(x, T) and is_const(x) for x in items):
        raise Undecided("list of field names")
    return [cval(x) for x in items]


def judge_factory(op, lay, tr, rp):
    out = []

    def dev(key, msg, loc=None):
        out.append(Dev("factory", f"{op.name}|factory|{key}", msg, tr, lay, loc or outcome_loc(tr)))
    if tr.outcome[0] == "raise":
        dev("raise", f"raises {exc_name(tr.outcome[1])}", outcome_loc(tr))
        return out
    v = tr.outcome[1]
    if not (isinstance(v, Inst) and "factory_kwargs" in v.attrs):
        raise Undecided("the form class is not made by modelform_factory")
    kw, at = v.attrs["factory_kwargs"], v.attrs["factory_at"]
    got = names(kw.get("exclude"))
    cols = TREE_COLUMNS[op.backend]
    asked = ["desc"] if op.exclude in ("tuple", "list") else []
    for c in cols:
        if got is None or c not in got:
            dev("column:" + c, f"the form gets a field for the tree column {c}: saving it would overwrite the place of the node", at)
    for c in asked:
        if got is None or c not in got:
            dev("excluded:" + c, f"the field {c}, which the caller excludes, is in the form", at)
    extra = set(got or ()) - set(cols) - set(asked)
    if extra:
        dev("extra", f"the fields {sorted(extra)} are left out, which are neither columns of the tree nor excluded by the caller", at)
    g = tr.params["exclude"]
    if isinstance(g, Lst) and names(g) != asked:
        dev("mutated", f"the caller's list of excluded fields becomes {names(g)}: other forms made with it lose these fields", at)
    if kw.get("model") is not tr.params["model"] and kw.get("model") != tr.params["model"]:
        dev("model", "the form is made for another model", at)
    f = kw.get("form")
    if op.form and f is not tr.params["own"]:
        dev("form", "the form class given is not used", at)
    if not op.form and not (isinstance(f, Cls) and f.ci is not None and f.ci.name == "MoveNodeForm"):
        dev("form", "the form is not a MoveNodeForm", at)
    if kw.get("widgets") is not WIDGETS and kw.get("widgets") != WIDGETS:
        dev("kwargs", "another argument (widgets) is not passed on", at)
    if op.fields != "absent":
        x = kw.get("fields")
        if x is None or x is NONE or (op.fields == "__all__") != (isinstance(x, T) and is_const(x)) or op.fields != "__all__" and "desc" not in (names(x) or ()):
            dev("fields", "the fields the caller names are not passed on", at)
    return out


def factory_ops(backends=("MP", "NS", "AL", "LT")):
    for b in backends:
        for v in ((), ("proxy",), ("mti",)):
            for ex in ("absent", "none", "tuple", "empty tuple", "list", "empty list"):
                for fl in ("absent", "__all__", "list"):
                    for form in (False, True):
                        yield Factory(b, ex, fl, form, v)
