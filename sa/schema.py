"""The tables of the tree models: what the declared fields and constraints let the database refuse or hold.

The class bodies are evaluated as declarations (names, helpers with one return, abstract parents, Meta inheritance are
resolved); nothing is run."""
import ast

from .entries import prog
from .layout import Undecided
from .source import AnalysisBroken, ClassInfo, FuncInfo

MODELS = {"MP_Node": {"text": ("path",), "number": ("depth", "numchild"), "unique": ("path",)},
          "NS_Node": {"text": (), "number": ("lft", "rgt", "tree_id", "depth"), "unique": ()},
          "LT_Node": {"text": ("path",), "number": (), "unique": ("path",)}}
WIDE = {"IntegerField", "PositiveIntegerField", "BigIntegerField", "PositiveBigIntegerField"}
NARROW = {"SmallIntegerField", "PositiveSmallIntegerField", "BooleanField"}
TEXT = {"CharField", "TextField", "SlugField"}


class Made:
    """the result of calling a class from outside the repository (or a subclass of it)"""

    def __init__(self, cls, kw, args, node):
        self.cls, self.kw, self.args, self.node = cls, kw, args, node


class Ev:
    """declarations of one class body"""

    def __init__(self, p, ci):
        self.p, self.ci = p, ci

    def ev(self, e, mod, env=()):
        env = dict(env)
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.ev(x.value, mod, env)
                    if not isinstance(v, (list, tuple)):
                        raise Undecided("declaration")
                    out += v
                else:
                    out.append(self.ev(x, mod, env))
            return out
        if isinstance(e, ast.Dict) and all(k is not None for k in e.keys):
            return {self.ev(k, mod, env): self.ev(v, mod, env) for k, v in zip(e.keys, e.values)}
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mult, ast.Sub, ast.Pow)):
            a, b = self.ev(e.left, mod, env), self.ev(e.right, mod, env)
            if isinstance(e.op, ast.Add) and isinstance(a, list) and isinstance(b, list):
                return a + b
            if all(isinstance(x, int) for x in (a, b)):
                return {ast.Add: a + b, ast.Mult: a * b, ast.Sub: a - b}.get(type(e.op)) if not isinstance(e.op, ast.Pow) else a ** min(b, 64)
            raise Undecided("declaration")
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.ev(e.operand, mod, env)
        if isinstance(e, ast.Name) and e.id in env:
            return env[e.id]
        if isinstance(e, (ast.Name, ast.Attribute)):
            if isinstance(e, ast.Name) and self.ci is not None:
                m = self.ci.body.get(e.id)
                if isinstance(m, tuple) and m[0] == "expr" and m[1] is not e:
                    return self.ev(m[1], mod, env)
            r = self.p.resolve_expr(mod, e)
            if isinstance(r, tuple) and r[0] == "expr":
                return self.ev(r[1], r[2] if len(r) > 2 else mod)
            if isinstance(r, tuple) and r[0] == "ext":
                return r
            if r is not None:
                return r
        if isinstance(e, ast.Call):
            f = self.ev(e.func, mod, env)
            kw = {}
            for k in e.keywords:
                v = self.ev(k.value, mod, env)
                if k.arg is None:
                    if not isinstance(v, dict):
                        raise Undecided("declaration")
                    kw.update(v)
                else:
                    kw[k.arg] = v
            if f == ("ext", "builtins.dict"):
                return kw
            args = [self.ev(a, mod, env) for a in e.args]
            if isinstance(f, FuncInfo):
                body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                if len(body) != 1 or not isinstance(body[0], ast.Return) or f.node.args.vararg:
                    raise Undecided("declaration by a function")
                names = [a.arg for a in f.node.args.args]
                ds = f.node.args.defaults
                env2 = {n: self.ev(d, f.module) for n, d in zip(names[len(names) - len(ds):], ds)}
                env2.update(zip(names, args))
                for k, v in list(kw.items()):
                    if k in names or k in [a.arg for a in f.node.args.kwonlyargs]:
                        env2[k] = kw.pop(k)
                if f.node.args.kwarg:
                    env2[f.node.args.kwarg.arg] = kw
                elif kw:
                    raise Undecided("declaration by a function")
                return self.ev(body[0].value, f.module, env2)
            return Made(f, kw, args, e)
        raise Undecided(f"declaration {ast.unparse(e)[:40]}")

    def member(self, name):
        """-> (value, class that declares it)"""
        owner, m = self.p.class_member(self.ci, name)
        if owner is None:
            return None, None
        if isinstance(m, tuple) and m[0] == "expr":
            return Ev(self.p, owner).ev(m[1], owner.module), owner
        return m, owner


def kind(p, f):
    """the name of the Django class a declaration calls"""
    c = f.cls
    if isinstance(c, tuple) and c[0] == "ext":
        return c[1].split(".")[-1]
    if isinstance(c, ClassInfo):
        for k in p.mro(c):
            if isinstance(k, ClassInfo):
                if any(n in k.body for n in ("__init__", "deconstruct", "db_check")):
                    raise Undecided(f"field class {k.name}")
                t = k.body.get("unique")
                if t is not None:
                    raise Undecided(f"field class {k.name}")
            elif k[1].split(".")[-1].endswith(("Field", "Constraint")):
                return k[1].split(".")[-1]
    raise Undecided("class of a field")


def meta(p, ci, name):
    m, owner = Ev(p, ci).member("Meta")
    if not isinstance(m, ClassInfo):
        return None, m
    # class Meta(Base.Meta)
    v, o = Ev(p, m).member(name)
    return v, m


def flag(f, name, default):
    v = f.kw.get(name, default)
    if not isinstance(v, (bool, int)) and v is not None:
        raise Undecided(f"value of {name}")
    return bool(v)


def rule_schema():
    p = prog()
    devs, seen, n = [], [], 0
    for cname, spec in MODELS.items():
        ci = p.find_class(cname)
        if ci is None:
            raise AnalysisBroken(f"class {cname} not found")
        ev = Ev(p, ci)

        def dev(key, what, node=None, owner=None):
            o = owner or ci
            devs.append({"key": f"{cname}|{key}", "what": what, "construct": f"{o.module.rel}:{getattr(node, 'lineno', o.node.lineno)} ({cname})"})
        fields = {}
        for col in spec["text"] + spec["number"]:
            n += 1
            f, owner = ev.member(col)
            if not isinstance(f, Made):
                dev(f"{col}:missing", f"the model declares no field {col}")
                continue
            fields[col] = f
            k = kind(p, f)
            seen.append(f"{owner.module.rel}:{f.node.lineno} {cname}.{col}: {k}")
            if flag(f, "null", False):
                dev(f"{col}:null", f"{col} may be missing: rows without a place in the tree are stored", f.node, owner)
            if col in spec["number"]:
                n += 1
                if k in NARROW:
                    dev(f"{col}:narrow", f"{col} is a {k}: larger trees have numbers it cannot hold", f.node, owner)
                elif k not in WIDE:
                    raise Undecided(f"{cname}.{col} is a {k}")
                elif k == "PositiveIntegerField" or k == "IntegerField":
                    pass
            elif k not in TEXT:
                raise Undecided(f"{cname}.{col} is a {k}")
            elif "db_collation" in f.kw:
                raise Undecided("collation of the path")
        cons, m = meta(p, ci, "constraints")
        together, _ = meta(p, ci, "unique_together")
        for col in spec["unique"]:
            if col not in fields:
                continue
            n += 1
            f = fields[col]
            at = cons and next((c.node for c in cons if isinstance(c, Made)), None) or f.node
            ok = flag(f, "unique", False) or flag(f, "primary_key", False)
            if together is not None:
                t = together if together and isinstance(together[0], list) else [together]
                ok = ok or [col] in t
            why = "no constraint on it alone"
            for c in cons or ():
                if not isinstance(c, Made):
                    raise Undecided("constraint")
                if kind(p, c) != "UniqueConstraint" or c.args:
                    if c.args and kind(p, c) == "UniqueConstraint":
                        raise Undecided("constraint on expressions")
                    continue
                fs = c.kw.get("fields")
                if not isinstance(fs, list):
                    raise Undecided("fields of a constraint")
                seen.append(f"{ci.module.rel}:{c.node.lineno} {cname}: UniqueConstraint({', '.join(map(str, fs))})")
                if fs != [col]:
                    why = f"the constraint covers {', '.join(map(str, fs))} together"
                elif c.kw.get("condition") is not None:
                    why = "the constraint holds for some rows only"
                else:
                    ok = True
                    d = c.kw.get("deferrable")
                    if cname == "LT_Node" and not (isinstance(d, tuple) and d[-1].endswith("Deferrable.DEFERRED")):
                        dev(f"{col}:deferred", "the constraint is not checked at the end of the transaction: shifting siblings breaks it on the way", c.node)
            if not ok:
                dev(f"{col}:unique", f"two rows can have the same {col}: {why}", at)
        ab, m = meta(p, ci, "abstract")
        n += 1
        if ab is not True:
            dev("abstract", "the tree model is not abstract: all trees share its table", getattr(m, "node", None))
    return devs, n, seen
