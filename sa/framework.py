"""Behaviour of the Django classes that the forms and the admin inherit from."""
import ast
import re

from .source import ClassInfo
from .terms import *
from .values import *


def fake(name):
    return ClassInfo(ast.parse(f"class {name}: pass").body[0], None)


PLAIN_FIELD, CHANGELIST, RESPONSE, PAGINATOR, ADMIN_SITE, ROUTE, USER = map(fake, ("FormField", "ChangeList", "TemplateResponse", "Paginator", "AdminSite", "URLPattern", "User"))


class FrameworkMixin:
    # ------------------------------------------------------------ ModelForm
    def hook_ModelForm_init(self, form):
        def init(a, k):
            inst = k.get("instance", NONE)
            ini = k.get("initial", NONE)
            form.attrs["initial"] = ini if ini is not NONE else Dct()
            form.attrs["instance"] = inst
            fields = Dct()
            fields.entries = [[const(n), self.form_field(form, n), None] for n in ("treebeard_position", "treebeard_ref_node")]
            form.attrs["fields"] = fields
            return NONE
        return Builtin("init", init)

    def form_field(self, form, name):
        cls = self.prog.find_class("TreeNodeChoiceField") if name == "treebeard_ref_node" else None
        return Inst(cls or PLAIN_FIELD, {"queryset": NONE})

    def hook_ModelForm_save(self, form):
        def save(a, k):
            c = a[0] if a else k.get("commit", TRUE)
            inst = form.attrs["instance"]
            if self.truth(c):
                self.call(self.getattr(inst, "save"), [], {})
            return inst
        return Builtin("save", save)

    # ------------------------------------------------------------ ModelChoiceField
    def hook_ModelChoiceField_label_from_instance(self, f):
        return Builtin("label", lambda a, k: T("label", a[0].rowid if isinstance(a[0], Row) else TOP))

    def hook_ModelChoiceField_prepare_value(self, f):
        return Builtin("prepare_value", lambda a, k: self.row_getattr(a[0], "pk") if isinstance(a[0], Row) else a[0])

    def hookset_ModelChoiceField_queryset(self, f, v):
        f.attrs["queryset"] = v
        f.attrs["widget_choices"] = f.attrs["_choices"] if "_choices" in f.attrs else v

    # ------------------------------------------------------------ forms.Form
    def hook_Form_is_valid(self, f):
        def valid(a, k):
            args, kw = f.attrs.get("__args", ((), {}))
            ok = T("form_valid", self.as_term(args[0] if args else kw.get("data", NONE)))
            qs = [(q, v) for q, v in ((self.form_choices(f, n), v) for n, v in getattr(self, "form_values", {}).items() if isinstance(v, Row)) if q is not None]
            if qs and not self.truth(ok):
                return FALSE
            for q, v in qs:
                if not self.truth(self.call(self.getattr(self.call(self.getattr(q, "filter"), [], {"pk": v.pk()}), "exists"), [], {})):
                    return FALSE
            return ok
        return Builtin("is_valid", valid)

    def form_choices(self, f, name):
        """the rows that the choice field of a form class accepts, None when it accepts every row"""
        for c in self.prog.mro(f.ci):
            m = c.body.get(name) if isinstance(c, ClassInfo) else None
            if m is not None:
                e = m[1] if isinstance(m, tuple) and m[0] == "expr" else None
                arg = next((k.value for k in e.keywords if k.arg == "queryset"), e.args[0] if e.args else None) if isinstance(e, ast.Call) else None
                if arg is None:
                    raise Cut("choice field")
                q = self.ev(arg, getattr(c, "scope", None) or Frame(None, c.module))
                if isinstance(q, QS):
                    return None if q.where is TRUE and not q.cut else q
                if isinstance(q, Inst) and self.prog.is_kind(q.ci, "Manager"):
                    return None
                raise Cut("choice field")

    def hook_Form_cleaned_data(self, f):
        vals = getattr(self, "form_values", {})
        d = Dct()
        for c in self.prog.mro(f.ci):
            if isinstance(c, ClassInfo):
                for n in c.body:
                    if n in vals and n not in [cval(k) for k, _, _ in d.entries]:
                        d.entries.append([const(n), vals[n], None])
        return d

    # ------------------------------------------------------------ ModelAdmin
    def perm(self, kind):
        def f(a, k):
            o = a[1] if len(a) > 1 else k.get("obj", NONE)
            return T("perm", kind, o.rowid if isinstance(o, Row) else NONE if o is NONE else TOP)
        return Builtin("has_permission", f)

    def hook_ModelAdmin_has_change_permission(self, adm):
        return self.perm("change")

    def hook_ModelAdmin_has_module_permission(self, adm):
        return Builtin("has_permission", lambda a, k: T("perm", "module", NONE))

    def hook_ModelAdmin_has_add_permission(self, adm):
        return self.perm("add")

    def hook_ModelAdmin_has_delete_permission(self, adm):
        return self.perm("delete")

    def user(self):
        """the user of a request, not a superuser"""
        def has_perm(a, k):
            for s in subterms(self.as_term(a[0])):
                m = re.search(r"(?:^|\.)(view|change|add|delete)(?:_|$)", cval(s)) if is_const(s) and isinstance(cval(s), str) else None
                if m:
                    return self.perm(m.group(1))([NONE, *a[1:]], k)
            raise Cut("permission name")
        return Inst(USER, {"is_authenticated": TRUE, "is_active": TRUE, "is_anonymous": FALSE, "is_superuser": FALSE, "is_staff": T("perm", "staff", NONE), "has_perm": Builtin("has_perm", has_perm), "has_module_perms": self.hook_ModelAdmin_has_module_permission(None)})

    def b_get_permission_codename(self, args, kwargs):
        return T("codename", args[0] if args else kwargs["action"])

    def hook_ModelAdmin_has_view_permission(self, adm):
        return self.perm("view")

    def hook_ModelAdmin_has_view_or_change_permission(self, adm):
        return self.perm("view_or_change")

    def hook_ModelAdmin_get_queryset(self, adm):
        return Builtin("get_queryset", lambda a, k: self.call(self.getattr(self.mgr(adm.attrs["model"]), "get_queryset"), [], {}))

    def hook_ModelAdmin_get_changelist_instance(self, adm):
        def get(a, k):
            qs = self.call(self.getattr(adm, "get_queryset"), [a[0]], {})
            return Inst(CHANGELIST, {"result_list": qs, "queryset": qs, "model": adm.attrs["model"], "model_admin": adm, "page_num": T("page_num"), "paginator": Inst(PAGINATOR, {"num_pages": T("num_pages")})})
        return Builtin("get_changelist_instance", get)

    def hook_ModelAdmin_changelist_view(self, adm):
        def view(a, k):
            if not self.truth(T("perm", "view_or_change", NONE)):
                raise PyRaise(Ext("django.core.exceptions.PermissionDenied"), (), self.loc)
            cl = self.call(self.getattr(adm, "get_changelist_instance"), [a[0]], {})
            d = Dct()
            d.entries = [[const("cl"), cl, None]]
            return Inst(RESPONSE, {"context_data": d})
        return Builtin("changelist_view", view)

    def hook_ModelAdmin_changeform_view(self, adm):
        def view(a, k):
            if self.truth(T("form_saved")):
                return Inst(RESPONSE)  # a redirect
            d = Dct()
            d.entries = [[const("errors"), T("form_errors"), None]]
            return Inst(RESPONSE, {"context_data": d})
        return Builtin("_changeform_view", view)


    # ------------------------------------------------------------ the addresses of an admin
    def hook_ModelAdmin_admin_site(self, adm):
        def admin_view(a, k):
            v = a[0] if a else k["view"]

            def guarded(a2, k2):
                if exempt(v):
                    self.eff("extcall", fn=Ext("django.views.decorators.csrf.csrf_exempt"), args=[], kwargs={})
                if not self.truth(T("perm", "staff", NONE)):
                    return Inst(RESPONSE, {"status_code": const(302), "content": NONE})
                return self.call(v, a2, k2)
            return Builtin("admin_view", guarded)
        return Inst(ADMIN_SITE, {"admin_view": Builtin("admin_view", admin_view)})

    def hook_ModelAdmin_get_urls(self, adm):
        pats = ("", "add/", "autocomplete/", "<path:object_id>/history/", "<path:object_id>/delete/", "<path:object_id>/change/", "<path:object_id>/")
        return Builtin("get_urls", lambda a, k: Lst([Inst(ROUTE, {"pattern": const(p), "view": NONE, "kind": "path", "kwargs": NONE}) for p in pats]))

    def b_path(self, args, kwargs, kind="path"):
        if len(args) < 1:
            return TOP
        return Inst(ROUTE, {"pattern": args[0], "view": args[1] if len(args) > 1 else kwargs.get("view", TOP), "kind": kind, "kwargs": args[2] if len(args) > 2 else kwargs.get("kwargs", NONE), "__loc": "{}:{} ({})".format(*self.loc) if self.loc else None})

    def b_re_path(self, args, kwargs):
        return self.b_path(args, kwargs, "re")

    def b_csrf_exempt(self, args, kwargs):
        v = args[0]
        b = Builtin("csrf_exempt", lambda a, k: self.call(v, a, k))
        b.exempt = True
        return b


def exempt(v):
    """may the view be called without the token that proves the request comes from the site's own pages?"""
    while True:
        if getattr(v, "exempt", False):
            return True
        if isinstance(v, Bound) or isinstance(v, Partial):
            v = v.fn
        elif isinstance(v, Fn):
            return any("csrf_exempt" in ast.dump(d) for d in v.info.node.decorator_list) if isinstance(v.info.node, ast.FunctionDef) else False
        else:
            return False


CODES = {"HttpResponse": 200, "JsonResponse": 200, "HttpResponseBadRequest": 400, "HttpResponseForbidden": 403, "HttpResponseNotFound": 404, "HttpResponseNotAllowed": 405, "HttpResponseServerError": 500, "HttpResponseRedirect": 302}


def _response(name, code):
    def f(self, args, kwargs):
        return Inst(RESPONSE, {"status_code": kwargs.get("status", const(code)), "content": args[0] if args else kwargs.get("content", kwargs.get("data", NONE)), "__class": name})
    return f


for _n, _c in CODES.items():
    setattr(FrameworkMixin, "b_" + _n, _response(_n, _c))
