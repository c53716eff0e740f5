"""Abstract semantics of Django's model/manager/queryset API."""
import ast
from dataclasses import replace

from .terms import *
from .source import *
from .values import *

UNDEF_ = object()

LOOKUPS = {
    "exact", "iexact", "gt", "gte", "lt", "lte", "in", "range", "startswith", "istartswith", "endswith", "contains",
    "isnull", "descendants", "ancestors", "regex", "icontains",
}
QS_METHODS = {
    "filter", "exclude", "all", "none", "get", "create", "bulk_create", "bulk_update", "using", "select_for_update",
    "annotate", "alias", "values", "values_list", "order_by", "reverse", "only", "defer", "first", "last", "exists",
    "count", "aggregate", "update", "delete", "iterator", "in_bulk", "distinct", "prefetch_related", "select_related",
    "latest", "earliest", "get_or_create", "update_or_create", "union", "raw", "_raw_delete", "extra",
    "complex_filter", "as_manager", "contains", "_clone", "_chain", "dates", "resolve_expression",
}
TREE_FIELDS = {"path", "depth", "numchild", "lft", "rgt", "tree_id", "sib_order", "parent", "parent_id"}


LINK = ClassInfo(ast.parse("class ParentLink: pass").body[0], None)


class OrmMixin:
    # ------------------------------------------------------------ attribute access
    def class_attr(self, ci, name, model=None):
        """value of attribute `name` looked up on class ci (functions undescripted: Fn / (kind, Fn) / value)"""
        owner, m = self.prog.class_member(ci, name)
        if m is None:
            return self.injected_attr(ci, name)
        key = (owner, name, model)
        if key in self.clscache:
            return self.clscache[key]
        if isinstance(m, FuncInfo):
            v = self.make_fn(m, self.cls_frame(owner))
        elif isinstance(m, ClassInfo):
            v = Cls(m)
        else:
            fr = self.cls_frame(owner)
            for n in ast.walk(m[1]):
                if isinstance(n, ast.Name) and n.id in owner.body and n.id != name:
                    x = self.class_attr(owner, n.id, model)
                    if x is not None:
                        fr.vars[n.id] = x
            sv = self.loc
            v = self.ev(m[1], fr)
            self.loc = sv
            if isinstance(v, (Dct, Lst)):
                v.shared = f"{owner.name}.{name}"
        self.clscache[key] = v
        return v

    injecting = None

    def injected_attr(self, ci, name):
        """an attribute that module level code puts on the class with setattr"""
        if self.injecting is not None:
            return None
        if not hasattr(self, "injected"):
            self.injected = {}
            self.injecting = self.injected
            sv = self.effects, self.loc, self.unsupported
            self.effects, self.unsupported = [], []
            try:
                for m in self.prog.modules.values():
                    if not any(isinstance(c, ClassInfo) and c.module is m for c in self.prog.mro(ci)):
                        continue
                    for st in m.tree.body:
                        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
                            n = len(self.decisions) if hasattr(self, "decisions") else 0
                            self.ev(st.value, Frame(None, m))
                        elif isinstance(st, ast.For):
                            self.block([st], Frame(None, m))
            finally:
                self.injecting = None
                self.effects, self.loc, self.unsupported = sv
        for c in self.prog.mro(ci):
            if isinstance(c, ClassInfo) and (c.name, name) in self.injected:
                return self.injected[(c.name, name)]
        return None

    def cls_frame(self, ci):
        return Frame(ci.scope, ci.module)

    def descr(self, v, obj, cls):
        """bind a class attribute"""
        if isinstance(v, tuple) and len(v) == 2 and v[0] in ("classmethod", "staticmethod", "property", "cached_property"):
            k, f = v
            if k == "classmethod":
                return Bound(cls, f)
            if k == "staticmethod":
                return f
            if obj is None:
                return TOP
            if k == "property":
                return self.call(f, [obj], {})
            key = ("cp", id(obj), getattr(getattr(f, "info", None), "name", "?"))
            if isinstance(obj, (Inst, Row)) and key[2] in obj.attrs:
                return obj.attrs[key[2]]
            r = self.call(f, [obj], {})
            if isinstance(obj, (Inst, Row)):
                obj.attrs[key[2]] = r
            return r
        if isinstance(v, Fn):
            return Bound(obj, v) if obj is not None else v
        if isinstance(v, Partial) and v.method:
            return Bound(obj, v) if obj is not None else v
        return v

    def mgr(self, model):
        v = self.class_attr(model.base, "objects")
        if isinstance(v, Inst):
            i = Inst(v.ci, {"model": model, "_db": NONE})
            return i
        return self.unsup("manager")

    def getattr(self, o, name):
        if isinstance(o, Row):
            return self.row_getattr(o, name)
        if isinstance(o, ModelV):
            return self.model_getattr(o, name)
        if isinstance(o, QS):
            return self.qs_getattr(o, name)
        if isinstance(o, Inst):
            return self.inst_getattr(o, name)
        if isinstance(o, Ext) and name in ("__name__", "__qualname__"):
            return const(o.last)
        if isinstance(o, Cls):
            if name in ("__name__", "__qualname__"):
                return const(o.ci.name)
            ov = self.tattrs.get((o, name))
            if ov is not None:
                return ov
            v = self.class_attr(o.ci, name)
            if v is None:
                return T("ga", T("v", o), name)
            return self.descr(v, None, o)
        if isinstance(o, ModV):
            v = self.mod_lookup(o.m, name)
            from .interp import UNDEF
            if v is UNDEF:
                m = self.prog.modules.get(o.m.name + "." + name)
                return ModV(m) if m else Ext(o.m.name + "." + name)
            return v
        if isinstance(o, AttrDict):
            return self.adict_getattr(o, name)
        if isinstance(o, SuperV):
            return self.super_getattr(o, name)
        if isinstance(o, MetaV):
            return self.meta_getattr(o, name)
        if isinstance(o, StateV):
            if name == "adding":
                a = o.row.adding
                return a if isinstance(a, T) else const(bool(a))
            if name == "db":
                return T("rowdb", o.row.rowid)
            return TOP
        if isinstance(o, (Lst, Dct, tuple)):
            return self.coll_getattr(o, name)
        if isinstance(o, Ext):
            return Ext(o.dotted + "." + name)
        if isinstance(o, PyRaise):
            return T("excattr", name)
        if isinstance(o, (Fn, Bound, Partial, Builtin)):
            ov = self.tattrs.get((o, name))
            return ov if ov is not None else TOP
        if isinstance(o, Sig):
            if name == "bind":
                return Builtin("bind", lambda a, k: self.sig_bind(o, a, k))
            if name == "parameters":
                n = o.fn.info.node.args if isinstance(o.fn, Fn) else None
                if n:
                    return Lst([const(x.arg) for x in n.posonlyargs + n.args + n.kwonlyargs])
            return TOP
        if isinstance(o, T):
            if o is NONE:
                self.raise_("AttributeError")
            if (o, name) in self.tattrs:
                return self.tattrs[(o, name)]
            if o.op == "top":
                return TOP
            if is_const(o) or self.stringy(o) or is_path(o):
                r = self.str_getattr(o, name)
                if r is not None:
                    return r
            r = self.term_getattr(o, name)
            return r
        return TOP

    def term_getattr(self, o, name):
        if o.op == "cls_of":
            pass
        if name == "model" and o.op == "field":
            return self.field_model(o)
        if o.op == "pkfield" and name in ("attname", "name", "column"):
            return const("id")
        r = self.pred_or_expr_attr(o, name)
        if r is not None:
            return r
        if o.op == "pathval" or o.op == "attr":
            r = self.str_getattr(o, name)
            if r is not None:
                return r
        return T("ga", o, name)

    def pred_or_expr_attr(self, o, name):
        if name in ("add",) and self.is_pred(o):
            return TOP
        return None

    def sig_bind(self, sig, args, kwargs):
        f = sig.fn
        while isinstance(f, Partial):
            f = f.args[0] if f.args else f.fn
        if not isinstance(f, Fn):
            return TOP
        loc = {}
        a = f.info.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        flat = []
        for x in args:
            if isinstance(x, tuple) and x and x[0] == "*opaque":
                return TOP
            flat.append(x)
        for i, x in enumerate(flat):
            if i < len(pos):
                loc[pos[i]] = x
            elif not a.vararg:
                self.raise_("TypeError")
        for k, v in kwargs.items():
            if k == "**":
                return TOP
            if k in loc:
                self.raise_("TypeError")
            if k not in pos and k not in [x.arg for x in a.kwonlyargs] and not a.kwarg:
                self.raise_("TypeError")
            loc[k] = v
        d = Dct()
        for k, v in loc.items():
            d.entries.append([const(k), v, None])
        from .source import ClassInfo
        i = Inst(None, {"arguments": d, "args": tuple(flat)})

        def apply_defaults(aa, kk):
            nd = len(pos) - len(a.defaults)
            for i_, n in enumerate(pos):
                if n not in loc and i_ >= nd:
                    d.entries.append([const(n), self.ev(a.defaults[i_ - nd], f.frame), None])
            for x, df in zip(a.kwonlyargs, a.kw_defaults):
                if x.arg not in loc and df is not None:
                    d.entries.append([const(x.arg), self.ev(df, f.frame), None])
            return NONE

        i.attrs["apply_defaults"] = Builtin("apply_defaults", apply_defaults)
        return i

    # -- plain instances --------------------------------------------------
    def inst_getattr(self, o, name):
        if name in o.attrs:
            return o.attrs[name]
        if name == "__class__":
            return Cls(o.ci)
        if name == "__dict__":
            return AttrDict(o)
        if o.ci is None:
            return TOP
        if o.ci.module is None and o.ci.name == "Request" and name in self.prog.stored_attrs():
            # an attribute that only the code of this repository sets, and has not set
            raise PyRaise(Ext("builtins.AttributeError"), (), self.loc)
        v = self.class_attr(o.ci, name)
        if v is not None:
            return self.descr(v, o, Cls(o.ci))
        if self.prog.is_kind(o.ci, "Manager"):
            return self.manager_getattr(o, name)
        if self.prog.is_kind(o.ci, "UserList"):
            if name == "data":
                return o.attrs.get("data", TOP)
        h = self.ext_hook(o, name) if o.ci.module is not None else None
        if h is not None:
            return h
        if name in self.prog.stored_attrs():
            # a container that the constructor makes is shared by all that use the object
            own, init = self.prog.class_member(o.ci, "__init__")
            for s in ast.walk(init.node) if init is not None and isinstance(getattr(init, "node", None), ast.FunctionDef) else ():
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == name for t in s.targets) and isinstance(s.value, (ast.Dict, ast.List, ast.Set, ast.Call)):
                    v = self.ev(s.value, Frame(None, init.module))
                    if isinstance(v, (Dct, Lst)):
                        v.shared = f"attribute {name} of {o.ci.name}"
                        o.attrs[name] = v
                        return v
        g = self.class_attr(o.ci, "__getattr__")
        if g is not None:
            return self.call(Bound(o, g), [const(name)], {})
        t = T("inst", o.ci.name)
        if (t, name) in self.tattrs:
            return self.tattrs[(t, name)]
        return T("ga", t, name)

    def manager_getattr(self, o, name):
        if name == "db":
            d = o.attrs.get("_db", NONE)
            return d if d is not NONE else T("defaultdb")
        if name == "model":
            return o.attrs.get("model", TOP)
        if name == "_db":
            return o.attrs.get("_db", NONE)
        if name in ("using", "db_manager"):
            def using(a, k):
                if name == "using":
                    qs = self.get_qs(o)
                    return replace(qs, using=self.as_term(a[0] if a else k.get("using", NONE))) if isinstance(qs, QS) else TOP
                i = Inst(o.ci, dict(o.attrs))
                i.attrs = {"model": o.attrs.get("model"), "_db": self.as_term(a[0] if a else k.get("using", NONE))}
                return i
            return Builtin(name, using)
        if name == "get_queryset":
            return Builtin("get_queryset", lambda a, k: self.base_qs(o))
        if name in QS_METHODS:
            def f(a, k):
                qs = self.get_qs(o)
                if not isinstance(qs, QS):
                    return self.unsup("queryset")
                return self.call(self.getattr(qs, name), a, k)
            return Builtin(name, f)
        if name == "_queryset_class":
            return TOP
        if name in self.prog.stored_attrs():
            self.raise_("AttributeError")
        # custom queryset methods are not proxied by Manager
        return T("ga", T("manager"), name)

    def get_qs(self, o):
        return self.call(self.inst_getattr(o, "get_queryset"), [], {})

    def base_qs(self, o):
        return QS(o.attrs.get("model"), None, using=self.as_term(o.attrs.get("_db", NONE)))

    def super_getattr(self, s, name):
        obj = s.obj
        if isinstance(obj, QS):
            if s.owner is None:
                return TOP
            return self.base_qs_method(obj, name)
        if isinstance(obj, (Inst, Row, Cls, ModelV)):
            ci = obj.ci if isinstance(obj, (Inst, Cls)) else obj.model.base if isinstance(obj, Row) else obj.base
            mro = self.prog.mro(ci) if ci is not None else []
            if s.owner in mro:
                rest = mro[mro.index(s.owner) + 1:]
            else:
                rest = []
            for c in rest:
                if isinstance(c, ClassInfo):
                    if name in c.body:
                        v = self.class_attr(c, name)
                        return self.descr(v, None if isinstance(obj, (Cls, ModelV)) else obj, obj if isinstance(obj, (Cls, ModelV)) else Cls(ci)) if not (
                            isinstance(v, tuple) and v and v[0] == "classmethod") else Bound(obj if isinstance(obj, (Cls, ModelV)) else Cls(ci), v[1])
            if isinstance(obj, Row):
                return self.row_base_getattr(obj, name)
            if isinstance(obj, ModelV):
                return self.model_base_getattr(obj, name)
            if isinstance(obj, Inst) and ci is not None and self.prog.is_kind(ci, "Manager"):
                return self.manager_getattr(obj, name)
            if isinstance(obj, Inst) and ci is not None:
                h = self.ext_hook(obj, name)
                if h is not None:
                    return h
            if isinstance(obj, Inst) and name == "__init__":
                return Builtin("init", lambda a, k: self.ext_init(obj, a, k))
            return T("ga", T("super", T("inst", ci.name if ci else "?")), name)
        if isinstance(obj, T):
            return T("ga", T("super", obj), name)
        return TOP

    def ext_hook(self, obj, name):
        """behaviour inherited from a class of the framework"""
        for b in self.prog.ext_bases(obj.ci):
            f = getattr(self, f"hook_{b.split('.')[-1]}_{name.strip('_')}", None)
            if f is not None:
                return f(obj)
        return None

    def ext_init(self, obj, a, k):
        obj.attrs["__args"] = (tuple(a), dict(k))
        self.eff("call", fn=T("ga", T("super", T("inst", obj.ci.name)), "__init__"), args=list(a), kwargs=dict(k))
        if self.prog.is_kind(obj.ci, "UserList"):
            v = k.get("initlist", a[0] if a else Lst())
            obj.attrs["data"] = v
        return NONE

    def instantiate(self, c, args, kwargs):
        ci = c.ci
        names = [b.split(".")[-1] for b in self.prog.ext_bases(ci)]
        excs = {"Exception", "ValueError", "DeprecationWarning", "TypeError", "KeyError", "RuntimeError"}
        if any(n in excs for n in names):
            return PyRaise(c, tuple(args), self.loc)
        if any(n == "QuerySet" for n in names):
            model = kwargs.get("model", args[0] if args else TOP)
            using = kwargs.get("using", args[2] if len(args) > 2 else NONE)
            return QS(model, ci, using=self.as_term(using)) if isinstance(model, ModelV) else self.unsup("queryset of unknown model")
        if ci.name == "PathValue" and "UserList" in names:
            return self.make_pathvalue(args, kwargs)
        if "Func" in names or "Transform" in names or "Lookup" in names:
            return self.expr_func(self.dbfunction(ci), args, kwargs)
        i = Inst(ci)
        if any(n == "Manager" for n in names):
            i.attrs["_db"] = NONE
        if any(n.endswith("Field") for n in names):
            return T("field", ci.name)
        init = self.class_attr(ci, "__init__")
        if init is not None:
            self.call(self.descr(init, i, c), args, kwargs)
        elif self.is_dataclass(ci) or "NamedTuple" in names:
            fields = [s.target.id for s in ci.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            for f in fields:
                d = self.class_attr(ci, f)
                if d is not None:
                    i.attrs[f] = d
            for f, a in zip(fields, args):
                i.attrs[f] = a
            for k, v in kwargs.items():
                if isinstance(k, str):
                    i.attrs[k] = v
        else:
            i.attrs["__args"] = (tuple(args), dict(kwargs))
            if any(True for b in self.prog.ext_bases(ci) if b != "builtins.object") and (args or kwargs):
                self.eff("construct", cls=ci, args=list(args), kwargs=dict(kwargs), inst=i)
        return i

    def is_dataclass(self, ci):
        return any("dataclass" in ast.dump(d) for d in ci.node.decorator_list)

    def make_pathvalue(self, args, kwargs):
        v = kwargs.get("value", args[0] if args else TOP)
        if isinstance(v, T):
            return v
        if isinstance(v, Lst) and not v.many():
            # list of labels
            out = [T("labelstep", x) if not is_path(x) else x for x in v.items if isinstance(x, T)]
            if len(out) == len(v.items):
                return self.ltpath(v)
        return TOP

    def ltpath(self, v):
        if isinstance(v, T):
            return v
        if isinstance(v, Lst) and not v.many():
            parts = []
            for x in v.items:
                if not isinstance(x, T):
                    return TOP
                parts.append(x if x.op in ("sfx",) else T("step", x))
            return cat(*parts)
        return TOP

    # -- models -----------------------------------------------------------
    def model_getattr(self, m, name):
        cfg = self.cfg
        if name == "steplen":
            return STEPLEN if m.base.name.startswith("MP") else T("ga", T("v", m), name)
        if name == "alphabet":
            return T("alphabet")
        if name == "node_order_by":
            return self.nob(m)
        if name == "__name__":
            return T("clsname", m.name)
        if name in ("_default_manager", "_base_manager") and self.default_mgr is not None:
            return self.default_mgr if name == "_default_manager" else self.plain_mgr
        if name in ("objects", "_default_manager", "_base_manager"):
            return self.mgr(m)
        if name == "_meta":
            return MetaV(m)
        if name == "__class__":
            return T("ga", T("v", m), "__class__")
        if name == "mro":
            def mro(a, k):
                own = [m] + [x for x in (getattr(m, "proxy_for", None),) if x is not None]
                return Lst(own + [Cls(c) if isinstance(c, ClassInfo) else Ext(c[1]) for c in self.prog.mro(m.base)])
            return Builtin("mro", mro)
        if name == "__mro__":
            return tuple(self.model_getattr(m, "mro").f([], {}).items)
        v = self.class_attr(m.base, name, m)
        if v is not None:
            return self.descr(v, None, m)
        return self.model_base_getattr(m, name)

    def model_base_getattr(self, m, name):
        if name in ("DoesNotExist", "MultipleObjectsReturned"):
            return Ext("django." + name)
        if name == "check":
            return Builtin("check", lambda a, k: Lst(list(self.base_errors), "list", 0))
        return T("ga", T("v", m), name)

    def nob(self, m):
        s = self.cfg.sorted
        if isinstance(s, (tuple, list)):
            return Lst([const(x) for x in s])
        if s is None:
            a = T("sorted?")
            s = self.branch(a)
        if s:
            return T("nob")
        d = self.class_attr(m.base, "node_order_by")
        return d if d is not None else NONE

    def meta_getattr(self, o, name):
        m = o.model
        if name == "pk":
            return T("pkfield")
        if name == "get_field":
            def gf(a, k):
                return T("field", T("v", m), self.as_term(a[0] if a else TOP))
            return Builtin("get_field", gf)
        if name == "proxy_for_model":
            pf = getattr(m, "proxy_for", None)
            return pf if pf is not None else NONE
        if name == "proxy":
            return const(getattr(m, "proxy_for", None) is not None)
        if name == "concrete_model":
            return getattr(m, "concrete", m)
        if self.default_mgr is not None and name in ("default_manager", "base_manager", "managers", "local_managers"):
            if name == "default_manager":
                return self.default_mgr
            if name == "base_manager":
                return self.plain_mgr
            return Lst([self.other_mgr, self.default_mgr])  # Meta.default_manager_name may name any of them
        if name == "model":
            return m
        if name == "get_ancestor_link":
            def link(a, k):
                if isinstance(a[0], ModelV) and a[0] is m.treebase and is_child_model(m):
                    return Inst(LINK, {"name": const("treebase_ptr"), "attname": const("treebase_ptr_id")})
                return NONE
            return Builtin("get_ancestor_link", link)
        return T("ga", T("meta", m.name), name)

    def field_model(self, f):
        """.model of a field looked up on a model"""
        m = f.args[0]
        if m.op == "v" and isinstance(m.args[0], ModelV):
            return getattr(m.args[0], "treebase", m.args[0])
        return TOP

    def new_row(self, model, args, kwargs):
        r = Row(T("new", model.name, self.fresh()), model, adding=True)
        for k, v in kwargs.items():
            if k == "**":
                r.attrs["**"] = v
                continue
            if isinstance(k, str):
                self.row_set(r, k, v)
        if args and isinstance(args[0], tuple) and args[0] and args[0][0] == "*opaque":
            r.attrs["**"] = args[0][1]
        r.created_from = kwargs
        self.eff("new", obj=r, kwargs=dict(kwargs))
        return r

    def row_getattr(self, r, name):
        if name == "pk" or name == "id":
            if "pk" in r.attrs:
                return r.attrs["pk"]
            return r.pk()
        if name == "_state":
            return StateV(r)
        if name == "__class__":
            return r.model
        if name == "_meta":
            return MetaV(r.model)
        if name == "__dict__":
            return AttrDict(r)
        if name in r.attrs:
            v = r.attrs[name]
            return v
        if name in ("steplen", "alphabet", "node_order_by"):
            return self.model_getattr(r.model, name)
        if name == "parent" and r.model.base.name.startswith("AL"):
            pid = self.row_getattr(r, "parent_id")
            if pid is NONE or self.branch(self.is_none(pid)):
                r_ = NONE
            else:
                r_ = self.parent_row(pid, getattr(r.model, "treebase", r.model))  # the foreign key is to the declaring model
            return r_
        if name in TREE_FIELDS:
            if r.rowid.op == "new":
                return T("attr", r.rowid, name)
            e = ROW_EQ[0](r.rowid, name)
            if e is not None:
                return e
            return attr(r.rowid, name)
        v = self.class_attr(r.model.base, name, r.model)
        if v is not None:
            if not isinstance(v, T):
                return self.descr(v, r, r.model)
            if v.op not in ("call", "field", "top"):
                return v
        b = self.row_base_getattr(r, name)
        return b

    def parent_row(self, pid, model):
        if pid.op == "attr" and pid.args[1] == "pk":
            rid = pid.args[0]
            return Row(rid, model)
        q = QS(model, None, where=T("lk", "pk", "exact", pid))
        return Row(T("row", "get", q, self.epoch), model)

    def row_base_getattr(self, r, name):
        if name == "save":
            return Builtin("save", lambda a, k: self.row_save(r, a, k))
        if name == "delete":
            return Builtin("delete", lambda a, k: self.row_delete(r))
        if name == "refresh_from_db":
            return Builtin("refresh_from_db", lambda a, k: self.row_refresh(r, a, k))
        if name == "DoesNotExist":
            return Ext("django.DoesNotExist")
        if name == "__class__":
            return r.model
        if name.startswith("_cached") or (name.startswith("_") and name not in ("_state", "_meta")):
            # python-level attribute that is not a field
            if name in r.maybe:
                return T("cached", r.rowid, name)
            if self.cfg.cached_parent and r.rowid.op == "param" and not getattr(r, "cleared", False):
                a = T("hascache", r.rowid, name)
                k = self.known(a)
                if k is None:
                    k = self.choose(2, "branch", a) == 0
                    self.assume(a, k)
                if k:
                    return self.cached_value(r, name)
            self.eff("absent", obj=r, attr=name)
            self.raise_("AttributeError")
        if r.rowid.op == "param" and name in self.prog.stored_public():
            self.eff("absent", obj=r, attr=name)
            self.raise_("AttributeError")
        return T("attr", r.rowid, name)

    # -- __dict__ of an object ---------------------------------------------
    def adict_has(self, d, k):
        """None: not there; else a function that reads it"""
        if not (isinstance(k, T) and is_const(k)):
            self.unsup("__dict__ with a computed name")
        n, o = cval(k), d.obj
        if n in o.attrs:
            return lambda: o.attrs[n]
        if isinstance(o, Row):
            c = self.class_attr(o.model.base, n, o.model)
            if c is not None and not (isinstance(c, T) and c.op in ("call", "field", "top")):
                return None  # a method or constant of the class
            try:
                v = self.row_getattr(o, n)
            except PyRaise:
                self.eff("absent", obj=o, attr=n)
                return None
            return lambda: v
        if o.ci is None or o.ci.module is None or self.class_attr(o.ci, n) is not None or n.startswith("_") and n not in ("_db",):
            return None
        return self.unsup("__dict__ of an object")

    def adict_get(self, d, k):
        f = self.adict_has(d, k)
        if f is None:
            self.raise_("KeyError", (k,))
        return f()

    def adict_set(self, d, k, v):
        if not (isinstance(k, T) and is_const(k)):
            self.unsup("__dict__ with a computed name")
        n = len(self.effects)
        self.setattr(d.obj, cval(k), v)
        for e in self.effects[n:]:
            if e.kind == "setattr":
                e.keep = True

    def adict_del(self, d, k):
        f = self.adict_has(d, k)
        if f is None:
            self.raise_("KeyError", (k,))
        v = f()
        self.delattr(d.obj, cval(k))
        return v

    def adict_getattr(self, d, name):
        def get(a, k):
            f = self.adict_has(d, a[0])
            return f() if f is not None else a[1] if len(a) > 1 else NONE

        def setdefault(a, k):
            f = self.adict_has(d, a[0])
            if f is not None:
                return f()
            v = a[1] if len(a) > 1 else NONE
            self.adict_set(d, a[0], v)
            return v

        def pop(a, k):
            n = len(self.effects)
            f = self.adict_has(d, a[0])
            self.effects[n:] = [e for e in self.effects[n:] if e.kind != "absent"]
            if f is not None:
                return self.adict_del(d, a[0])
            if isinstance(d.obj, Row) and isinstance(a[0], T) and is_const(a[0]):
                d.obj.dropped.add(cval(a[0]))
            if len(a) > 1:
                return a[1]
            self.raise_("KeyError", (a[0],))

        def update(a, k):
            for x in a:
                if not isinstance(x, Dct) or x.opaque:
                    self.unsup("__dict__.update")
                for key, v, _ in x.entries:
                    self.adict_set(d, key, v)
            for n, v in k.items():
                self.adict_set(d, const(n), v)
            return NONE
        f = {"get": get, "setdefault": setdefault, "pop": pop, "update": update, "__contains__": lambda a, k: const(self.adict_has(d, a[0]) is not None)}.get(name)
        if f is None:
            return self.unsup("__dict__." + name)
        return Builtin(name, f)

    def cached_value(self, r, name):
        if "parent" in name:
            v = Row(T("cachedparent", r.rowid), r.model)
        else:
            v = T("cached", r.rowid, name)
        r.attrs[name] = v
        return v

    def row_delete(self, r):
        self.eff("rowdelete", obj=r)
        self.epoch += 1
        return (T("rowcount", self.epoch), T("deldict", self.epoch))

    def row_refresh(self, r, a, k):
        self.eff("refresh", obj=r, fields=self.as_term(k.get("fields", a[1] if len(a) > 1 else NONE)), args=tuple(a), kwargs=dict(k))
        f = k.get("fields", a[1] if len(a) > 1 else NONE)
        pk = r.attrs.get("pk", r.pk())
        q = QS(r.model, None, where=T("lk", "pk", "exact", pk))
        newid = T("row", "get", q, self.epoch)
        if f is NONE:
            r.rowid = newid
            for n in [n for n in r.attrs if n in TREE_FIELDS or not n.startswith("_")]:
                del r.attrs[n]
        else:
            names = [cval(x) for x in (f.items if isinstance(f, Lst) else f if isinstance(f, tuple) else []) if isinstance(x, T) and is_const(x)]
            for n in names:
                r.attrs[n] = attr(newid, n)
                r.attrs.pop("parent", None) if n == "parent_id" else None
        r.version += 1
        return NONE

    def row_save(self, r, a, k):
        snap = dict(r.attrs)
        self.eff("save", obj=r, rowid=r.rowid, attrs=snap, adding=r.adding, using=self.as_term(k.get("using", NONE)), kwargs=dict(k))
        self.epoch += 1
        r.adding = False
        return NONE

    def row_set(self, r, name, v):
        r.attrs[name] = v
        if name == "parent":
            r.attrs["parent_id"] = v.pk() if isinstance(v, Row) else v if v is NONE else (
                T("pkof", v) if isinstance(v, T) else TOP)
            if isinstance(v, Row) and "pk" in v.attrs:
                r.attrs["parent_id"] = v.attrs["pk"]
        elif name == "parent_id":
            r.attrs.pop("parent", None)

    def setattr(self, o, name, v):
        if isinstance(o, Row):
            self.eff("setattr", obj=o, attr=name, value=v)
            self.row_set(o, name, v)
            o.touched.append((name, v))
        elif isinstance(o, Inst):
            if o.ci is not None and o.ci.module is not None:
                for b in self.prog.ext_bases(o.ci):
                    f = getattr(self, f"hookset_{b.split('.')[-1]}_{name}", None)
                    if f is not None:
                        f(o, v)
                        return
            o.attrs[name] = v
            self.eff("setattr", obj=o, attr=name, value=v)
        elif isinstance(o, T):
            if o is NONE:
                self.raise_("AttributeError")
            self.eff("setattr", obj=o, attr=name, value=v)
            self.tattrs[(o, name)] = v
        elif isinstance(o, (Cls, ModelV, Fn, Bound, Partial, Builtin)):
            if self.injecting is not None and isinstance(o, Cls):
                self.injecting[(o.ci.name, name)] = v
                return
            self.eff("setattr", obj=o, attr=name, value=v)
            try:
                self.tattrs[(o, name)] = v
            except TypeError:
                pass
        elif isinstance(o, PyRaise):
            pass
        else:
            self.unsup("setattr")

    def delattr(self, o, name):
        if isinstance(o, Row):
            o.dropped.add(name)
            if name in o.attrs:
                del o.attrs[name]
                return
            self.row_base_getattr(o, name) if name.startswith("_") else None
            o.attrs.pop(name, None)
            if name.startswith("_"):
                self.known_[T("hascache", o.rowid, name)] = False
                o.maybe.discard(name)
        elif isinstance(o, Inst):
            if name in o.attrs:
                del o.attrs[name]
            else:
                self.raise_("AttributeError")
        else:
            self.unsup("delattr")

    # -- querysets ---------------------------------------------------------
    def qs_getattr(self, q, name):
        if name == "model":
            return q.model
        if name in ("db", "_db"):
            if name == "_db":
                return q.using
            return q.using if q.using is not NONE else T("defaultdb")
        if q.qcls is not None:
            v = self.class_attr(q.qcls, name)
            if v is not None:
                return self.descr(v, q, Cls(q.qcls))
        if name == "ordered":
            return TOP
        if name == "query":
            return T("ga", T("qs", q), "query")
        return self.base_qs_method(q, name)

    def base_qs_method(self, q, name):
        m = getattr(self, "q_" + name, None)
        if m is not None:
            return Builtin("qs." + name, lambda a, k: m(q, a, k))
        if name in QS_METHODS:
            return Builtin("qs." + name, lambda a, k: self.unsup("queryset method " + name))
        return T("ga", T("qs", q), name)

    # predicates ---------------------------------------------------------
    def kw_pred(self, kwargs, q=None):
        ps = []
        for k, v in kwargs.items():
            if k == "**":
                ps.append(T("lk", "?", "?", TOP))
                continue
            ps.append(self.lk(k, v, q))
        return pand(*ps)

    def lk(self, k, v, q=None):
        if isinstance(k, T):
            # symbolic key: <field|__lookup> or field
            if k.op == "cat" and is_const(k.args[0][-1]) and isinstance(cval(k.args[0][-1]), str) and cval(k.args[0][-1]).startswith("__"):
                fld = cat(*k.args[0][:-1])
                return T("lk", fld, cval(k.args[0][-1])[2:], self.lkval(v))
            if k.op == "cat" and len(k.args[0]) >= 2 and k.args[0][-1].op == "phi":
                pass
            return T("lk", k, "exact", self.lkval(v))
        parts = k.split("__")
        lookup = "exact"
        own = self.dblookups().get(parts[-1]) if len(parts) > 1 else None
        if own and own[0] == "lookup":
            parts.pop()
            lookup = own[1]
        elif parts[-1] in LOOKUPS and len(parts) > 1:
            lookup = parts.pop()
        own = self.dblookups().get(parts[-1]) if len(parts) == 2 and parts[0] == "path" else None
        if own and own[0] == "transform":
            parts = ["path", "depth"] if own[1] == "nlevel" else parts
        f = "__".join(parts)
        if f == "id":
            f = "pk"
        elif f.startswith("id__"):
            f = "pk__" + f[4:]
        if f == "parent" and lookup == "exact":
            f = "parent_id"
            if isinstance(v, Row):
                v = v.attrs.get("pk", v.pk())
        if f == "parent__pk" or f == "parent__id" or f == "parent_id":
            f = "parent_id"
        if f == "path__depth":
            f = "pathdepth"
        if f in ("pk",) and isinstance(v, Row):
            v = v.attrs.get("pk", v.pk())
        # alias substitution
        if q is not None:
            for n, ex in q.annots:
                if n == f:
                    f = T("expr", ex)
                    break
        if lookup == "isnull":
            if v is TRUE:
                return T("lk", f, "exact", NONE)
            if v is FALSE:
                return pnot(T("lk", f, "exact", NONE))
        if lookup == "exact" and v is NONE:
            return T("lk", f, "exact", NONE)
        return T("lk", f, lookup, self.lkval(v))

    def lkval(self, v):
        if isinstance(v, Row):
            return v.attrs.get("pk", v.pk())
        if isinstance(v, T):
            return v
        if isinstance(v, tuple):
            return tuple(self.lkval(x) for x in v)
        if isinstance(v, QS):
            return T("qs", v)
        if isinstance(v, Lst):
            if not v.many():
                return tuple(self.lkval(x) for x in v.items)
            return T("lstval", v.kind, tuple(
                T("many", self.lkval(i.value), self.src_term(i.src) if not isinstance(i.src, T) else i.src) if isinstance(i, Many) else self.lkval(i) for i in v.items))
        if isinstance(v, Inst) and v.ci is not None and v.ci.name == "PathValue":
            return v.attrs.get("data", TOP) if isinstance(v.attrs.get("data"), T) else TOP
        return TOP

    def args_pred(self, args, kwargs, q=None):
        ps = []
        for a in args:
            if isinstance(a, T) and self.is_pred(a):
                ps.append(a)
            elif isinstance(a, Many):
                ps.append(T("manypred", self.as_term(a.value), a.src if isinstance(a.src, T) else T("src", str(a.src))))
            elif isinstance(a, T) and a.op == "existsq":
                ps.append(a)
            else:
                ps.append(T("lk", "?", "?", TOP))
        ps.append(self.kw_pred(kwargs, q))
        return pand(*ps)

    def q_filter(self, q, a, k):
        return replace(q, where=pand(q.where, self.args_pred(a, k, q)))

    def q_exclude(self, q, a, k):
        return replace(q, where=pand(q.where, pnot(self.args_pred(a, k, q))))

    def q_complex_filter(self, q, a, k):
        return self.q_filter(q, a, k)

    def q_all(self, q, a, k):
        return replace(q)

    q__clone = q__chain = q_all

    def q_none(self, q, a, k):
        return replace(q, where=FALSE)

    def q_using(self, q, a, k):
        return replace(q, using=self.as_term(a[0] if a else k.get("alias", TOP)))

    def q_select_for_update(self, q, a, k):
        return replace(q, lock=True, lockargs=tuple(sorted((n, self.as_term(v)) for n, v in k.items())))

    def q_only(self, q, a, k):
        return replace(q, only=tuple(self.as_term(x) for x in a))

    def q_defer(self, q, a, k):
        return replace(q)

    q_prefetch_related = q_select_related = q_defer

    def q_distinct(self, q, a, k):
        return replace(q, distinct=True)

    def q_iterator(self, q, a, k):
        return replace(q)

    def q_order_by(self, q, a, k):
        out = []
        for x in a:
            if isinstance(x, tuple) and x and x[0] == "*opaque":
                out.append(self.as_term(x[1]))
            elif isinstance(x, T):
                out.append(x)
            elif isinstance(x, Many):
                out.append(T("each", x.src if isinstance(x.src, T) else TOP))
            else:
                out.append(TOP)
        out = [cval(x) if is_const(x) else x for x in out]
        return replace(q, order=tuple(out), rev=False)

    def q_reverse(self, q, a, k):
        return replace(q, rev=not q.rev)

    def q_annotate(self, q, a, k):
        an = list(q.annots)
        for n, v in k.items():
            if n == "**":
                an.append(("?", TOP))
            else:
                an.append((n, self.as_term(self.fexpr(v, q))))
        return replace(q, annots=tuple(an))

    q_alias = q_annotate

    def q_values(self, q, a, k):
        return replace(q, values=tuple(cval(x) if isinstance(x, T) and is_const(x) else x for x in a))

    def q_values_list(self, q, a, k):
        fl = k.get("flat", FALSE)
        return replace(q, values=("list",) + tuple(cval(x) if isinstance(x, T) and is_const(x) else x for x in a), flat=fl is TRUE)

    def nonempty(self, q):
        if q.where is FALSE:
            return FALSE
        if has_top(q.where):
            return T("unk", TOP, self.fresh())
        return T("nonempty", T("qs", q.core()), self.epoch)

    def read(self, q, how):
        self.eff("read", qs=q, how=how)
        if q.lock and how in ("get", "first", "last", "index", "exists"):
            self.eff("lock", qs=q, how=how)

    def row_of(self, q, how):
        rid = T("row", how, replace(q, lock=False, lockargs=(), only=None), self.epoch)
        if q.values is not None:
            return self.value_row(rid, q)
        return Row(rid, q.model)

    def value_row(self, rid, q):
        vals = q.values
        if vals and vals[0] == "list":
            fs = vals[1:]
            if q.flat and len(fs) == 1:
                return self.col(rid, fs[0], q)
            return tuple(self.col(rid, f, q) for f in fs)
        d = Dct(depth=len(self.loops), site=T("valuesrow", rid))
        d.rowid = rid
        names = vals or ()
        for f in names:
            d.entries.append([const(f) if isinstance(f, str) else f, self.col(rid, f, q), None])
        if not names:
            d.opaque = True
        return d

    def col(self, rid, f, q):
        if not isinstance(f, str):
            return TOP
        if f in ("pk", "id"):
            return row_pk(rid)
        e = ROW_EQ[0](rid, f)
        if e is not None:
            return e
        return attr(rid, f)

    def q_first(self, q, a, k):
        self.read(q, "first")
        if not self.branch(self.nonempty(q)):
            return NONE
        if q.rev:
            return self.row_of(replace(q, rev=False), "last")
        return self.row_of(q, "first")

    def q_last(self, q, a, k):
        self.read(q, "last")
        if not self.branch(self.nonempty(q)):
            return NONE
        if q.rev:
            return self.row_of(replace(q, rev=False), "first")
        return self.row_of(q, "last")

    def q_get(self, q, a, k):
        if a or k:
            q = self.q_filter(q, a, k)
        self.read(q, "get")
        if self.would_catch("DoesNotExist") or self.cfg.get_may_fail:
            at = self.nonempty(q)
            if not self.branch(at):
                raise PyRaise(Ext("django.DoesNotExist"), (), self.loc)
        return self.row_of(q, "get")

    def q_exists(self, q, a, k):
        self.read(q, "exists")
        return self.nonempty(q)

    def q_contains(self, q, a, k):
        self.read(q, "exists")
        pk = a[0].pk() if a and isinstance(a[0], Row) else TOP
        return self.nonempty(replace(q, where=pand(q.where, T("lk", "pk", "exact", pk))))

    def q_count(self, q, a, k):
        self.read(q, "count")
        if q.where is FALSE:
            return const(0)
        return T("count", T("qs", q.core()), self.epoch)

    def q_aggregate(self, q, a, k):
        self.read(q, "aggregate")
        d = Dct()
        for n, v in k.items():
            ex = self.as_term(self.fexpr(v, q))
            d.entries.append([const(n), T("aggval", ex, T("qs", q.core()), self.epoch), None])
        return d

    def q_update(self, q, a, k):
        kw = {}
        for n, v in k.items():
            kw[n if isinstance(n, str) else str(n)] = self.as_term(self.fexpr(v, q))
        e = self.eff("update", qs=q, kw=kw)
        self.epoch += 1
        return T("rowcount", self.epoch)

    def q_delete(self, q, a, k):
        self.eff("delete", qs=q, args=tuple(a), kwargs=dict(k))
        self.epoch += 1
        n = self.epoch
        return (T("rowcount", n), T("deldict", n))

    q__raw_delete = q_delete

    def q_create(self, q, a, k):
        r = self.new_row(q.model, [], k)
        self.row_save(r, [], {"using": q.using})
        return r

    def q_bulk_create(self, q, a, k):
        objs = a[0] if a else k.get("objs", TOP)
        self.eff("bulk_create", objs=objs, rows=self.row_snaps(objs), qs=q, kwargs=dict(k))
        self.epoch += 1
        return objs

    def q_bulk_update(self, q, a, k):
        objs = a[0] if a else k.get("objs", TOP)
        self.eff("bulk_update", objs=objs, rows=self.row_snaps(objs), qs=q, fields=a[1] if len(a) > 1 else k.get("fields", TOP))
        self.epoch += 1
        return TOP

    def row_snaps(self, objs):
        items = objs.items if isinstance(objs, Lst) else objs if isinstance(objs, (tuple, list)) else ()
        return [(x.rowid, dict(x.attrs)) for x in items if isinstance(x, Row)]

    def qs_slice(self, q, k):
        if isinstance(k, SliceV):
            if k.lo is None and k.hi is None and isinstance(k.st, T) and is_const(k.st) and cval(k.st) == -1:
                return Lst([self.qs_many(replace(q, rev=not q.rev))])
            return replace(q, cut=q.cut + (self.as_term(k.lo) if k.lo is not None else NONE, self.as_term(k.hi) if k.hi is not None else NONE))
        self.read(q, "index")
        if k is const(0):
            if q.rev:
                return self.row_of(replace(q, rev=False), "last")
            return self.row_of(q, "first")
        return self.row_of(replace(q, cut=q.cut + ("idx", self.as_term(k))), "index")

    def qs_many(self, q, site=None):
        """iteration over a queryset"""
        ep = self.epoch

        def el(st, k):
            rid = T("elem", replace(q, lock=False, lockargs=(), only=None), ep, st, k)
            if q.values is not None:
                return self.value_row(rid, q)
            return Row(rid, q.model)
        return Many(Builtin("elem", el), q)

    # -- F expressions -------------------------------------------------------
    def fexpr(self, v, q):
        """resolve annotations referenced through F() in an expression"""
        if isinstance(v, T) and q is not None and q.annots:
            mp = {T("F", n): ex for n, ex in q.annots}
            return subst(v, mp)
        return v

    def const_attr(self, ci, name):
        v = self.class_attr(ci, name)
        return cval(v) if isinstance(v, T) and is_const(v) else None

    def dbfunction(self, ci):
        """what a database function defined in the source does: decided by the SQL function it names"""
        if ci.module is None:
            return ci.name
        return {"subpath": "Subpath", "nlevel": "NLevel", "ltree2text": "Ltree2Text", "text2ltree": "Text2LTree"}.get(self.const_attr(ci, "function"), ci.name + "?")

    def dblookups(self):
        """the lookups and transforms defined in the source, by name"""
        if self._dblookups is None:
            d = self._dblookups = {}
            for m in self.prog.modules.values():
                for ci in m.names.values():
                    if not isinstance(ci, ClassInfo) or ci.module is not m:
                        continue
                    last = {b.split(".")[-1] for b in self.prog.ext_bases(ci)}
                    n = self.const_attr(ci, "lookup_name") if last & {"PostgresOperatorLookup", "Transform"} else None
                    if n and "PostgresOperatorLookup" in last:
                        op = self.const_attr(ci, "postgres_operator")
                        d[n] = ("lookup", {"<@": "descendants", "@>": "ancestors"}.get(op, f"operator {op}"))
                    elif n:
                        d[n] = ("transform", self.const_attr(ci, "function"))
        return self._dblookups

    _dblookups = None

    def expr_func(self, name, args, kwargs):
        """database functions and expressions; strings name columns"""
        def ex(x):
            if isinstance(x, T) and is_const(x) and isinstance(cval(x), str):
                return T("F", cval(x))
            return self.as_term(x)
        a = [ex(x) for x in args]
        of = kwargs.get("output_field")
        if name == "Concat":
            return cat(*a)
        if name == "Substr":
            p, pos = a[0], (self.as_term(args[1]) if len(args) > 1 else self.as_term(kwargs.get("pos", TOP)))
            ln = self.as_term(args[2]) if len(args) > 2 else (self.as_term(kwargs["length"]) if "length" in kwargs else None)
            off = sub(pos, const(1)) if isinstance(pos, T) else None
            if off is None:
                return TOP
            k = div_exact(off, UNIT[0]) if not (is_const(off) and cval(off) == 0) else const(0)
            if k is None:
                return T("substr", p, pos, ln if ln is not None else NONE)
            r = sfx(p, k)
            if ln is not None:
                kl = div_exact(ln, UNIT[0])
                return pfx(r, kl) if kl is not None else T("substr", p, pos, ln)
            return r
        if name == "Left":
            k = div_exact(self.as_term(args[1]), UNIT[0])
            return pfx(a[0], k) if k is not None else TOP
        if name == "Right":
            n = self.as_term(args[1])
            if isinstance(n, T) and n.op == "value":
                n = n.args[0]
            k = div_exact(n, UNIT[0]) if UNIT[0] is STEPLEN and is_path(a[0]) else None
            return T("pathop", "right", a[0], k) if k is not None else TOP
        if name == "Replace" and UNIT[0] is STEPLEN and a and is_path(a[0]):
            new = args[2] if len(args) > 2 else kwargs.get("replacement", EMPTY)
            return T("pathop", "replace", a[0], self.as_term(args[1] if len(args) > 1 else kwargs.get("text", TOP)), self.as_term(new))
        if name == "Length":
            return plen(a[0]) if is_path(a[0]) else T("len", a[0])
        if name in ("NLevel",):
            return T("steps", a[0]) if is_path(a[0]) else TOP
        if name == "Subpath":
            p = a[0]
            pos = self.as_term(args[1] if len(args) > 1 else kwargs.get("pos", TOP))
            ln = args[2] if len(args) > 2 else kwargs.get("length", NONE)
            r = sfx(p, pos)
            if ln is NONE:
                return r
            ln = self.as_term(ln)
            if r is p:
                return pfx(p, ln)
            return T("sub", p, pos, ln)
        if name in ("Ltree2Text", "Text2LTree", "Cast"):
            return a[0] if name != "Cast" else a[0]
        if name in ("Greatest", "Least", "Coalesce"):
            return T(name.lower(), tuple(a))
        if name in ("Max", "Min", "Count", "Sum"):
            return T("agg", name, a[0] if a else NONE)
        if name == "Func":
            f = kwargs.get("function")
            return T("agg" if f is const("Count") or f is const("COUNT") else "dbfunc", cval(f).capitalize() if isinstance(f, T) and is_const(f) and cval(f) else "?", *a)
        if name == "When":
            cond = self.args_pred([x for x in args if isinstance(x, T) and self.is_pred(x)], {k: v for k, v in kwargs.items() if k != "then"})
            th = kwargs.get("then", args[1] if len(args) > 1 else TOP)
            return T("when", cond, ex(th) if not (isinstance(th, T) and th.op == "value") else th)
        if name == "Case":
            d = kwargs.get("default", NONE)
            return T("case", tuple(a), ex(d))
        return T("dbfunc", name, *a)
