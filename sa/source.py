"""Parsing of the analysed package and name/class resolution."""
import ast
import os
import hashlib

from . import scaling

REPO = os.environ.get("SA_REPO", "/repo")
SCALED = {int(a): int(b) for a, b in (x.split(":") for x in os.environ.get("SA_SCALED", "").split(",") if x)}  # see scaling.py


class AnalysisBroken(Exception):
    """The analysis cannot answer (vanished anchor, unparsable source)."""


class FuncInfo:
    def __init__(self, node, module, cls=None, qual=""):
        self.node, self.module, self.cls = node, module, cls
        self.name = getattr(node, "name", "<lambda>")
        self.qual = qual or self.name

    def __repr__(self):
        return f"<func {self.module.name}.{self.qual}>"


class ClassInfo:
    def __init__(self, node, module, qual=""):
        self.node, self.module = node, module
        self.name = node.name
        self.qual = qual or node.name
        self.scope = None  # enclosing frame for local classes
        self.body = {}
        for st in node.body:
            self._collect(st)
        self._mro = None

    def _collect(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            # property setters etc. keep the first definition as getter
            if st.name in self.body and any(
                isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in st.decorator_list
            ):
                return
            self.body[st.name] = FuncInfo(st, self.module, self, f"{self.qual}.{st.name}")
        elif isinstance(st, ast.ClassDef):
            self.body[st.name] = ClassInfo(st, self.module, f"{self.qual}.{st.name}")
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.body[t.id] = ("expr", st.value)
                elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple) and len(t.elts) == len(st.value.elts):
                    for a, b in zip(t.elts, st.value.elts):
                        if isinstance(a, ast.Name):
                            self.body[a.id] = ("expr", b)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            self.body[st.target.id] = ("expr", st.value)
        elif isinstance(st, ast.If):
            for s in st.body + st.orelse:
                self._collect(s)

    def __repr__(self):
        return f"<class {self.module.name}.{self.qual}>"


class Module:
    def __init__(self, name, path, src, scaled=None):
        self.name, self.path, self.src = name, path, src
        self.rel = os.path.relpath(path, REPO)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.tree = ast.parse(src, path)
        if scaled:
            self.tree = scaling.scale(self.tree, self.rel, scaled)
        self.names = {}
        for st in self.tree.body:
            self._collect(st)
        self.cache = {}

    def _collect(self, st):
        n = self.names
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            n[st.name] = FuncInfo(st, self)
        elif isinstance(st, ast.ClassDef):
            n[st.name] = ClassInfo(st, self)
        elif isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    n[a.asname] = ("import", a.name, None)
                else:
                    n[a.name.split(".")[0]] = ("import", a.name.split(".")[0], None)
        elif isinstance(st, ast.ImportFrom):
            base = st.module or ""
            if st.level:
                parts = self.name.split(".")
                if not self.is_pkg:
                    parts = parts[:-1]
                if st.level > 1:
                    parts = parts[: -(st.level - 1)]
                base = ".".join(parts + ([st.module] if st.module else []))
            for a in st.names:
                n[a.asname or a.name] = ("import", base, a.name)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    n[t.id] = ("expr", st.value)
                elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple) and len(t.elts) == len(st.value.elts):
                    for a, b in zip(t.elts, st.value.elts):
                        if isinstance(a, ast.Name):
                            n[a.id] = ("expr", b)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            n[st.target.id] = ("expr", st.value)
        elif isinstance(st, (ast.If, ast.Try)):
            for s in st.body + getattr(st, "orelse", []) + getattr(st, "finalbody", []):
                self._collect(s)
            for h in getattr(st, "handlers", []):
                for s in h.body:
                    self._collect(s)


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, "treebeard")
        if not os.path.isdir(root):
            raise AnalysisBroken("package treebeard not found")
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "tests", "locale", "static", "templates"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    self.modules[rel] = Module(rel, p, src, SCALED)
                except SyntaxError as e:
                    raise AnalysisBroken(f"cannot parse {p}: {e}")

    def thresholds(self):
        return scaling.thresholds((m.rel, ast.parse(m.src)) for m in self.modules.values())

    def digest(self):
        h = hashlib.sha256()
        for k in sorted(self.modules):
            h.update(k.encode())
            h.update(self.modules[k].src.encode())
        return h.hexdigest()[:16]

    _stored = None

    def stored_attrs(self):
        """names of private attributes that code of the package assigns"""
        if self._stored is None:
            self._stored = set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        self._stored.add(n.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                        self._stored.add(n.args[1].value)
            self._stored = {x for x in self._stored if isinstance(x, str) and x.startswith("_") and not x.startswith("__") and x not in ("_db", "_meta", "_state", "_hints", "_constructor_args")}
        return self._stored

    _first = None

    def read_first(self):
        """names of attributes that some function reads without having set them before"""
        if self._first is None:
            self._first = set()
            for m in self.modules.values():
                for f in ast.walk(m.tree):
                    if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                        continue
                    occ = []
                    for n in ast.walk(f):
                        if isinstance(n, ast.Attribute):
                            occ.append((n.end_lineno, n.end_col_offset, isinstance(n.ctx, ast.Store), n.attr))
                        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "hasattr", "setattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                            occ.append((n.end_lineno, n.end_col_offset, n.func.id == "setattr", n.args[1].value))
                    seen = set()
                    for _, _, st, name in sorted(occ, key=lambda o: o[:2]):
                        if st:
                            seen.add(name)
                        elif name not in seen:
                            self._first.add(name)
        return self._first

    _public = None

    def stored_public(self):
        """names of public attributes that code of the package assigns and that are not columns, class attributes or annotations"""
        if self._public is None:
            st, known = set(), set(("path", "depth", "numchild", "lft", "rgt", "tree_id", "sib_order", "parent", "parent_id", "pk", "id", "desc", "k1", "k2", "instance", "model"))
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        st.add(n.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                        st.add(n.args[1].value)
                    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.slice, ast.Constant):
                        st.add(n.slice.value)
                    elif isinstance(n, ast.ClassDef):
                        for s in n.body:
                            for t in s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else []:
                                if isinstance(t, ast.Name):
                                    known.add(t.id)
                            if isinstance(s, ast.FunctionDef):
                                known.add(s.name)
            self._public = {x for x in st if isinstance(x, str) and not x.startswith("_")} - known
        return self._public

    _loaded = None

    def loaded_attrs(self):
        """names of attributes that code of the package reads"""
        if self._loaded is None:
            self._loaded = set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Store):
                        self._loaded.add(n.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "hasattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        self._loaded.add(n.args[1].value)
        return self._loaded

    # -- resolution ------------------------------------------------------
    def lookup(self, module, name, seen=()):
        """-> FuncInfo | ClassInfo | Module | ('expr', ast, module) | ('ext', dotted) | None"""
        d = module.names.get(name)
        if d is None:
            return None
        if isinstance(d, tuple) and d[0] == "import":
            _, base, attr = d
            if attr is None:
                return self.modules.get(base) or ("ext", base)
            if f"{base}.{attr}" in self.modules:
                return self.modules[f"{base}.{attr}"]
            if base in self.modules:
                if (base, attr) in seen:
                    return None
                r = self.lookup(self.modules[base], attr, seen + ((base, attr),))
                return r if r is not None else ("ext", f"{base}.{attr}")
            return ("ext", f"{base}.{attr}")
        if isinstance(d, tuple) and d[0] == "expr":
            return ("expr", d[1], module)
        return d

    def resolve_expr(self, module, e):
        """resolve a Name/Attribute expression statically"""
        import ast as A

        if isinstance(e, A.Name):
            return self.lookup(module, e.id) or ("ext", "builtins." + e.id)
        if isinstance(e, A.Attribute):
            b = self.resolve_expr(module, e.value)
            if isinstance(b, Module):
                return self.lookup(b, e.attr) or ("ext", b.name + "." + e.attr)
            if isinstance(b, tuple) and b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
            if isinstance(b, ClassInfo):
                return b.body.get(e.attr)
        if isinstance(e, A.Subscript):
            return self.resolve_expr(module, e.value)
        return None

    def bases(self, ci):
        out = []
        for b in ci.node.bases:
            r = self.resolve_expr(ci.module, b)
            if isinstance(r, tuple) and r[0] == "expr":
                r2 = self.resolve_expr(r[2], r[1])
                r = r2 if r2 is not None else ("ext", "?")
            out.append(r if r is not None else ("ext", "?"))
        return out

    def mro(self, ci):
        """C3-less linearisation (depth first, last occurrence kept): enough here."""
        if ci._mro is None:
            order = []

            def rec(c):
                order.append(c)
                if isinstance(c, ClassInfo):
                    for b in self.bases(c):
                        rec(b)

            rec(ci)
            res = []
            for i, c in enumerate(order):
                if c in order[i + 1:]:
                    continue
                res.append(c)
            ci._mro = res
        return ci._mro

    def find_class(self, name, module=None):
        hits = []
        for m in self.modules.values():
            if module and m.name != module:
                continue
            c = m.names.get(name)
            if isinstance(c, ClassInfo):
                hits.append(c)
        return hits[0] if hits else None

    def class_member(self, ci, name):
        """-> (owner ClassInfo, member) or (None, None)"""
        for c in self.mro(ci):
            if isinstance(c, ClassInfo) and name in c.body:
                return c, c.body[name]
        return None, None

    def ext_bases(self, ci):
        return [c[1] for c in self.mro(ci) if isinstance(c, tuple)]

    def is_kind(self, ci, last):
        return any(e.split(".")[-1] == last for e in self.ext_bases(ci))
