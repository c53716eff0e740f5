"""The texts of the package: translated when they are shown, in every language the package ships, with their values."""
import ast
import glob
import os
import re
import struct

from .entries import prog
from .layout import Undecided
from .source import AnalysisBroken, ClassInfo

DT = "django.utils.translation."
EAGER = {"gettext", "ngettext", "pgettext", "npgettext", "ugettext", "ungettext"}
LAZY = {"gettext_lazy", "ngettext_lazy", "pgettext_lazy", "npgettext_lazy", "ugettext_lazy", "ungettext_lazy"}
NOOP = {"gettext_noop", "ugettext_noop"}
POSITIONS = {"sorted-child", "sorted-sibling", "first-child", "last-child", "first-sibling", "last-sibling", "left", "right"}
LEVELS = {"debug", "info", "success", "warning", "error"}
SHOWN = {"label", "empty_label", "help_text"}
HOLE = re.compile(r"%(?:\((\w+)\))?[-#0 +]*\d*(?:\.\d+)?([sdfrixeg%])")


def holes(s):
    """the values a message takes when it is filled"""
    return sorted(m.group(0) for m in HOLE.finditer(s) if m.group(2) != "%")


# ------------------------------------------------------------------ catalogs
def read_mo(path):
    b = open(path, "rb").read()
    if len(b) < 20:
        raise Undecided("compiled catalog")
    magic = struct.unpack("<I", b[:4])[0]
    end = "<" if magic == 0x950412DE else ">" if magic == 0xDE120495 else None
    if end is None:
        raise Undecided("compiled catalog")
    _, n, o, t = struct.unpack(end + "4I", b[4:20])
    out = {}
    for i in range(n):
        l1, s1 = struct.unpack_from(end + "2I", b, o + 8 * i)
        l2, s2 = struct.unpack_from(end + "2I", b, t + 8 * i)
        out[b[s1:s1 + l1].decode("utf8")] = b[s2:s2 + l2].decode("utf8")
    return out


def read_po(path):
    """[(context, id, plural id, [translations], fuzzy, line)]"""
    out, cur, key, fuzzy, line0 = [], {}, None, False, 0

    def flush():
        nonlocal cur
        if "msgid" in cur:
            tr = [cur[k] for k in sorted(k for k in cur if k.startswith("msgstr"))]
            out.append((cur.get("msgctxt"), cur["msgid"], cur.get("msgid_plural"), tr, cur["fuzzy"], cur["line"]))
        cur = {}
    for i, raw in enumerate(open(path, encoding="utf8"), 1):
        l = raw.strip()
        if l.startswith("#"):
            if l.startswith("#,") and "fuzzy" in l:
                fuzzy = True
            continue
        m = re.match(r'(msgctxt|msgid_plural|msgid|msgstr(?:\[\d+\])?)\s+(".*")$', l)
        if m:
            k = m.group(1)
            if k == "msgctxt" or k == "msgid" and "msgctxt" not in cur or k == "msgid" and "msgid" in cur:
                flush()
            if k in ("msgctxt", "msgid") and "fuzzy" not in cur:
                cur.update(fuzzy=fuzzy, line=i)
                fuzzy = False
            key = k
            cur[key] = ast.literal_eval(m.group(2))
        elif l.startswith('"') and key in cur:
            cur[key] += ast.literal_eval(l)
        elif l:
            raise Undecided("text catalog")
    flush()
    return out


def catalogs(p, dev, seen):
    n = 0
    for po in sorted(glob.glob(os.path.join(p.repo, "treebeard", "locale", "*", "LC_MESSAGES", "*.po"))):
        rel = os.path.relpath(po, p.repo)
        mo = po[:-2] + "mo"
        compiled = read_mo(mo) if os.path.exists(mo) else None
        want = {}
        entries = read_po(po)
        for ctx, mid, plural, trs, fuzzy, line in entries:
            if not mid:
                continue
            n += 1
            ok = [holes(x) for x in ([mid] + ([plural] if plural else []))]
            if not fuzzy and all(trs):
                k = (ctx + "\x04" if ctx else "") + mid + ("\0" + plural if plural else "")
                want[k] = "\0".join(trs)
            for t in trs:
                if t and not fuzzy and holes(t) not in ok:
                    dev(f"{rel}|{mid}", f"the translation of {mid!r} takes the values {holes(t)}, the message {ok[-1]}: showing it fails or drops a value", f"{rel}:{line}")
        seen.append(f"{rel}: {len(entries)} messages")
        if compiled is None:
            if want:
                dev(f"{rel}|compiled", "the catalog is not compiled: its language is not shown", rel)
            continue
        for mid, t in compiled.items():
            if mid:
                n += 1
                base = mid.split("\x04")[-1].split("\0")
                for x in t.split("\0"):
                    if holes(x) not in [holes(b) for b in base]:
                        dev(f"{rel}|compiled|{mid}", f"the compiled translation of {mid!r} takes the values {holes(x)}, the message {holes(base[-1])}", os.path.relpath(mo, p.repo))
        lost = [m for m in want if compiled.get(m) != want[m]]
        if lost:
            dev(f"{rel}|differs", f"{len(lost)} translations of the catalog are not the compiled ones, e.g. that of {lost[0]!r}", rel)
    return n


# ------------------------------------------------------------------ code
def translator(p, mod, f):
    """the translation function a call goes to, or None"""
    for _ in range(4):
        r = p.resolve_expr(mod, f)
        if isinstance(r, tuple) and r[0] == "ext":
            return r[1][len(DT):] if r[1].startswith(DT) else None
        if isinstance(r, tuple) and r[0] == "expr":
            f, mod = r[1], r[2] if len(r) > 2 else mod
            continue
        return None
    return None


class Site:
    """where an expression stands: its module, the functions and the classes around it"""

    def __init__(self, mod, funcs, cls):
        self.mod, self.funcs, self.cls = mod, funcs, cls

    def where(self, node):
        return f"{self.mod.rel}:{node.lineno}" + (f" ({self.funcs[-1].name})" if self.funcs and hasattr(self.funcs[-1], "name") else "")


def sites(mod):
    """(node, Site) of every node; a default argument or decorator belongs to what is around the function"""
    def walk(node, site):
        yield node, site
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            outer = list(node.args.defaults) + [d for d in node.args.kw_defaults if d] + list(getattr(node, "decorator_list", []))
            for c in outer:
                yield from walk(c, site)
            inner = Site(site.mod, site.funcs + [node], site.cls)
            for c in node.body if isinstance(node.body, list) else [node.body]:
                yield from walk(c, inner)
        elif isinstance(node, ast.ClassDef):
            for c in node.bases + [k.value for k in node.keywords] + node.decorator_list:
                yield from walk(c, site)
            inner = Site(site.mod, site.funcs, node)
            for c in node.body:
                yield from walk(c, inner)
        else:
            for c in ast.iter_child_nodes(node):
                yield from walk(c, site)
    for s in mod.tree.body:
        yield from walk(s, Site(mod, [], None))


def bound(name, site):
    """expressions a local name may stand for; ('exc',) for a caught exception; None: unknown"""
    for fn in reversed(site.funcs):
        a = fn.args
        if name in [x.arg for x in a.args + a.kwonlyargs + a.posonlyargs] or a.vararg and a.vararg.arg == name or a.kwarg and a.kwarg.arg == name:
            return None
        out = []
        for s in ast.walk(fn):
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        out.append(s.value)
                    elif any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(t)) and not isinstance(t, (ast.Attribute, ast.Subscript)):
                        return None
            elif isinstance(s, (ast.AnnAssign, ast.NamedExpr)) and isinstance(s.target, ast.Name) and s.target.id == name and s.value is not None:
                out.append(s.value)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
                return None
            elif isinstance(s, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(s.target)):
                return None
            elif isinstance(s, ast.ExceptHandler) and s.name == name:
                out.append(s)
        if out:
            return out
    if site.cls is not None:
        v = [s.value for s in site.cls.body if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets)]
        if v and not site.funcs:
            return v
    v = [s.value for s in site.mod.tree.body if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets)]
    return v or None


def kinds(p, e, site, depth=0):
    """{how an expression's text reaches the user}: lazy, eager, noop, plain, value (not a text of the package), unknown"""
    if depth > 8:
        return {"unknown"}
    rec = lambda x: kinds(p, x, site, depth + 1)
    if isinstance(e, ast.ExceptHandler):
        return {"plain"}
    if isinstance(e, ast.Constant):
        return {"plain"} if isinstance(e.value, str) and re.search(r"[A-Za-z]{2}", HOLE.sub("", e.value)) else {"value"}
    if isinstance(e, ast.IfExp):
        return rec(e.body) | rec(e.orelse)
    if isinstance(e, ast.BoolOp):
        return set().union(*map(rec, e.values))
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
        return rec(e.left)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return rec(e.left) | rec(e.right)
    if isinstance(e, ast.JoinedStr):
        return set().union(*(rec(v.value if isinstance(v, ast.FormattedValue) else v) for v in e.values)) or {"value"}
    if isinstance(e, ast.NamedExpr):
        return rec(e.value)
    if isinstance(e, ast.Call):
        t = translator(p, site.mod, e.func)
        if t in EAGER:
            return {"eager"}
        if t in LAZY:
            return {"lazy"}
        if t in NOOP:
            return {"noop"}
        if isinstance(e.func, ast.Attribute) and e.func.attr == "format":
            return rec(e.func.value)
        r = p.resolve_expr(site.mod, e.func)
        if isinstance(r, tuple) and r[0] == "ext" and r[1].split(".")[-1] in ("str", "format_html", "format_lazy", "mark_safe", "escape", "capfirst") and e.args:
            return rec(e.args[0])
        return {"unknown"}
    if isinstance(e, ast.Name):
        b = bound(e.id, site)
        if b is None:
            return {"unknown"}
        return set().union(*map(rec, b))
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        b = bound(e.value.id, site)
        if b and any(isinstance(x, ast.ExceptHandler) for x in b):
            return {"plain"}
    return {"unknown"}


def template(p, e, site, depth=0):
    """constant templates of a translated message, None when unknown"""
    if depth > 8:
        return None
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return [e.value]
    if isinstance(e, ast.Call) and translator(p, site.mod, e.func) and len(e.args) == 1:
        return template(p, e.args[0], site, depth + 1)
    if isinstance(e, ast.IfExp):
        a, b = template(p, e.body, site, depth + 1), template(p, e.orelse, site, depth + 1)
        return a + b if a is not None and b is not None else None
    if isinstance(e, ast.Name):
        out = []
        for x in bound(e.id, site) or [None]:
            t = template(p, x, site, depth + 1) if x is not None and not isinstance(x, ast.ExceptHandler) else None
            if t is None:
                return None
            out += t
        return out
    return None


def rule_texts():
    p = prog()
    devs, seen, n = [], [], 0

    def dev(key, what, construct):
        if key not in [d["key"] for d in devs]:
            devs.append({"key": key, "what": what, "construct": construct})
    n += catalogs(p, dev, seen)
    if not seen:
        raise AnalysisBroken("no message catalog found")
    shown = 0
    for mod in p.modules.values():
        if not mod.name.startswith("treebeard"):
            continue
        for node, site in sites(mod):
            if not site.funcs and settled(p, node, site):
                dev(f"{mod.rel}|settled|{ast.unparse(node)}", f"{ast.unparse(node)} is translated once, when the module is imported, not when it is shown", site.where(node))
            if isinstance(node, ast.Call):
                t = translator(p, mod, node.func)
                if t in EAGER | LAZY | NOOP:
                    n += 1
                    text = node.args[0].value if node.args and isinstance(node.args[0], ast.Constant) else "a text"
                    seen.append(f"{site.where(node)}: {t}({text!r})")
                    if t in EAGER and not site.funcs:
                        dev(f"{mod.rel}|import|{text}", f"{text!r} is translated once, when the module is imported, not when it is shown", site.where(node))
                for k in node.keywords:
                    if k.arg in SHOWN and mod.name == "treebeard.forms":
                        shown += 1
                        judge(p, dev, k.value, site, f"{k.arg} of a form field")
                f = node.func
                if isinstance(f, ast.Attribute) and f.attr in LEVELS | {"add_message"} and p.resolve_expr(mod, f) == ("ext", f"django.contrib.messages.{f.attr}"):
                    i = 2 if f.attr == "add_message" else 1
                    arg = node.args[i] if len(node.args) > i else next((k.value for k in node.keywords if k.arg == "message"), None)
                    if arg is not None:
                        shown += 1
                        judge(p, dev, arg, site, "message")
            elif isinstance(node, ast.Tuple) and len(node.elts) == 2 and mod.name == "treebeard.forms" and isinstance(node.elts[0], ast.Constant) and node.elts[0].value in POSITIONS:
                shown += 1
                judge(p, dev, node.elts[1], site, f"position {node.elts[0].value}")
            elif isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mod):
                ks = kinds(p, node.left, site)
                ts = template(p, node.left, site) if ks & (EAGER | LAZY | {"lazy", "eager", "noop"}) else None
                right = node.right
                if isinstance(right, ast.Name):
                    b = bound(right.id, site)
                    right = b[0] if b and len(b) == 1 else None
                if ts is None or not isinstance(right, ast.Dict) or not all(isinstance(k, ast.Constant) for k in right.keys):
                    continue
                n += 1
                have = {k.value for k in right.keys}
                for t in ts:
                    need = {m.group(1) for m in HOLE.finditer(t) if m.group(1)}
                    if need - have:
                        dev(f"{mod.rel}|fill|{t}", f"{t!r} is filled without a value for {sorted(need - have)}: showing it fails", site.where(node))
    if not shown:
        raise Undecided("no shown text found")
    return devs, n + shown, seen


def alternatives(e, site, depth=0):
    """the texts one expression may show: branches, also behind a name or in a text that is filled afterwards"""
    if isinstance(e, ast.IfExp):
        return alternatives(e.body, site, depth) + alternatives(e.orelse, site, depth)
    if isinstance(e, ast.BoolOp):
        return [x for v in e.values for x in alternatives(v, site, depth)]
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
        return alternatives(e.left, site, depth)
    if isinstance(e, ast.Name) and depth < 4:
        b = bound(e.id, site)
        if b and not any(isinstance(x, ast.ExceptHandler) or any(isinstance(c, ast.Name) and c.id == e.id for c in ast.walk(x)) for x in b) \
                and any(isinstance(x, (ast.IfExp, ast.BoolOp, ast.BinOp)) for x in b):
            return [y for x in b for y in alternatives(x, site, depth + 1)]
    return [e]


def judge(p, dev, e, site, what):
    if isinstance(e, ast.Constant) and e.value is None:
        return
    for x in alternatives(e, site):
        ks = kinds(p, x, site)
        text = ast.unparse(x)
        if "plain" in ks and not ks & {"lazy", "eager"}:
            dev(f"{site.mod.rel}|untranslated|{text}", f"the text of the {what}, {text}, is not translated when it is shown", site.where(x))
        elif "noop" in ks and ks <= {"noop", "value"}:
            dev(f"{site.mod.rel}|marked|{text}", f"the text of the {what}, {text}, is only marked for translation, never translated", site.where(x))


def settled(p, node, site):
    """does this expression turn a lazy translation into the text of the current language?"""
    lazy = lambda x: any(isinstance(c, ast.Call) and translator(p, site.mod, c.func) in LAZY for c in ast.walk(x))
    if isinstance(node, ast.JoinedStr) or isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
        return lazy(node)
    if isinstance(node, ast.Call):
        if isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Call) and translator(p, site.mod, node.func.value.func) in LAZY:
            return True
        return p.resolve_expr(site.mod, node.func) == ("ext", "builtins.str") and any(lazy(a) for a in node.args)
    return False
