"""Labels of the reference-node choices: indented by depth, never markup."""
import html
import os
import re

from .source import AnalysisBroken
from .admincheck import RESPONSE
from .entries import prog
from .formcheck import *
from .queries import F


class Label:
    """TreeNodeChoiceField.label_from_instance(node)"""
    kind = "label"
    sorted = False
    schemes = (False,)
    mti_some = True

    def __init__(self, backend, sep, variant=()):
        self.backend, self.sep, self.variant = backend, sep, variant

    @property
    def name(self):
        return f"TreeNodeChoiceField.label_from_instance()[{BACKENDS[self.backend]}]" + {"class": "", "plain": " with an unsafe separator", "safe": " with a safe separator"}[self.sep] + "".join(" " + v for v in self.variant)

    def paths(self):
        def prepare(I, M, K):
            cls = I.prog.find_class("TreeNodeChoiceField")
            if cls is None:
                raise AnalysisBroken("TreeNodeChoiceField not found")
            f = Inst(cls, {})
            if self.sep != "class":
                f.attrs["DEPTH_SEPARATOR"] = T("lit", "sep") if self.sep == "plain" else T("safe", T("lit", "sep"))
            node = Row(T("param", "node"), K)
            return I.getattr(f, "label_from_instance"), [node], {}, {"node": node, "sep": I.getattr(f, "DEPTH_SEPARATOR")}
        cfg = {"proxy": True} if "proxy" in self.variant else {}
        return custom(("label", self.name), self.name, self.backend, prepare, **cfg)

    def layouts(self, n):
        for m in range(1, n + 1):
            for f in all_forests(m):
                for x in forest_nodes(f):
                    yield Layout(self.backend, f, {"node": x[0]}, gaps=True, flags=self.variant)


def pieces(t, rp):
    """the rendered text: literal characters, and markers for the node's text and the separator"""
    out = []
    for p in t.args[0] if t.op == "cat" else (t,):
        if is_const(p):
            out += list(str(cval(p)))
        elif p.op == "rep":
            out += pieces(p.args[0], rp) * rp.val(p.args[1])
        elif p.op == "esc":
            x = p.args[0]
            for q in pieces(x, rp):
                out.append(html.escape(q) if isinstance(q, str) else q[:-1] + (q[-1] + 1,))
        elif p.op == "label":
            if p.args[0] is TOP:
                raise Undecided("label of an unknown node")
            out.append(("node", rp.pkof(p.args[0]), 0))
        elif p.op == "str" and p.args[0].op == "label":
            out.append(("node", rp.pkof(p.args[0].args[0]), 0))
        elif p.op == "lit":
            out.append((p.args[0], 0))
        elif p.op == "safe":
            out += pieces(p.args[0], rp)
        else:
            raise Undecided("label text " + p.op)
    return out


def judge_label(op, lay, tr, rp):
    out = []
    loc = outcome_loc(tr) if tr.outcome[0] == "raise" else op_loc(tr)

    def dev(key, msg):
        out.append(Dev("label", f"{op.name}|label|{key}", msg, tr, lay, loc))
    if tr.outcome[0] == "raise":
        dev("raise", f"raises {exc_name(tr.outcome[1])}")
        return out
    v = tr.outcome[1]
    if not isinstance(v, T):
        raise Undecided("label value")
    node = lay.env["node"]
    d = F(lay.forest).dep[node]
    sep = tr.params["sep"]
    unit = pieces(sep.args[0] if sep.op == "safe" else T("esc", sep), rp)
    got = pieces(v.args[0] if v.op == "safe" else T("esc", v), rp)
    want = unit * (d - 1) + [("node", node, 1)]
    if got == want:
        return out
    raw = [p for p in got if not isinstance(p, str) and p[-1] == 0 and (p[0] == "node" or sep.op != "safe")]
    if raw:
        dev("unescaped", f"the text of the {'node' if raw[0][0] == 'node' else 'separator'} is marked as safe without being escaped: it is rendered as markup")
    elif any(not isinstance(p, str) and p[-1] > (0 if p[0] == "sep" and sep.op == "safe" else 1) for p in got):
        dev("twice", "text is escaped twice")
    else:
        dev("indent", f"a node at depth {d} is rendered {''.join(p if isinstance(p, str) else '<' + p[0] + '>' for p in got)!r}, must be the separator {d - 1} times and its own label")
    return out


def op_loc(tr):
    locs = [e.where for e in tr.effects if e.kind == "mark_safe"]
    return locs[-1] if locs else "treebeard/forms.py (TreeNodeChoiceField.label_from_instance)"


def label_ops(backends=("MP", "NS", "AL", "LT")):
    for b in backends:
        for sep in ("class", "plain", "safe"):
            yield Label(b, sep)
        yield Label(b, "class", ("proxy",))


def judge_choice_labels(op, lay, tr, rp):
    """obligation: a list of choices carries for every node the label the field gives it"""
    out = []
    if tr.outcome[0] == "raise":
        return out
    ref = {cval(k): v for k, v, _ in tr.params["form"].attrs["fields"].entries}["treebeard_ref_node"]
    ch = ref.attrs.get("widget_choices")
    if not isinstance(ch, Lst):
        return out
    t = F(lay.forest)
    for it in ch.items:
        v, l = it if isinstance(it, tuple) else it.items
        if v is const("") or not isinstance(l, T):
            continue
        pk = rp.val(v)
        got = pieces(l.args[0] if l.op == "safe" else T("esc", l), rp)
        if ("node", pk, 1) not in got:
            raw = any(p == ("node", pk, 0) for p in got)
            out.append(Dev("label", f"{op.name}|label|{'unescaped' if raw else 'text'}", "the text of a node is rendered as markup" if raw else f"the choice for {pk} does not show {pk}", tr, lay, last_query(tr)))
        elif len(got) != len([p for p in got if isinstance(p, str)]) + 1 or (t.dep[pk] == 1) != (len(got) == 1):
            out.append(Dev("label", f"{op.name}|label|indent", f"the label of {pk} at depth {t.dep[pk]} has {len(got) - 1} characters of indentation", tr, lay, last_query(tr)))
    return out


USER = ("label", "str", "fmt", "row", "param", "post", "exc", "attr", "col", "item")


def unescaped(t, safe=False):
    """a part of user data inside text that is marked as safe"""
    if not isinstance(t, T):
        return None
    if t.op == "safe":
        return unescaped(t.args[0], True)
    if t.op == "esc":
        return None
    if safe and t.op in USER:
        return t
    for a in t.args:
        for x in a if isinstance(a, tuple) else (a,):
            r = unescaped(x, safe)
            if r is not None:
                return r
    return None


def judge_markup(op, lay, tr, rp):
    """obligation: what the view puts into a message or a page is constant, escaped or left to the template's escaping"""
    out = []

    def dev(key, msg, loc):
        out.append(Dev("markup", f"{op.name}|markup|{key}", msg, tr, lay, loc))
    for e in tr.effects:
        if e.kind == "mark_safe" and unescaped(e.value, True) is not None:
            dev("safe", f"marks {show(e.value)[:80]} as safe without escaping it", e.where)
    v = tr.outcome[1] if tr.outcome[0] != "raise" else None
    if isinstance(v, Inst) and v.ci is RESPONSE and v.attrs.get("__class", "").startswith("HttpResponse"):
        c = v.attrs.get("content")
        if isinstance(c, T):
            bad = unescaped(c, True)
            if bad is not None:
                dev("content", f"the response body contains {show(bad)[:60]} unescaped: an HttpResponse is HTML", op_loc(tr))
        elif c is not None and c is not NONE:
            dev("content", "the response body is an object rendered without escaping", op_loc(tr))
    return out


TAG = re.compile(r"\{%.*?%\}|\{\{.*?\}\}|\{#.*?#\}")


def rule_templates():
    """every {{ variable }} of the package's templates is rendered through autoescaping"""
    devs, n, seen = [], 0, []
    repo = prog().repo
    root = os.path.join(repo, "treebeard")
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if not f.endswith((".html", ".txt")) or "templates" not in d:
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, repo)
            text = open(p, encoding="utf8").read()
            off = False
            script = [(m.start(), m.end()) for m in re.finditer(r"<script\b[^>]*>.*?</script>", text, re.S | re.I)]
            for m in TAG.finditer(text):
                t = m.group(0)
                line = text.count("\n", 0, m.start()) + 1
                loc = f"{rel}:{line}"
                if t.startswith("{%"):
                    w = t[2:-2].split()
                    if w[:1] == ["autoescape"]:
                        off = w[1:] == ["off"]
                    elif w[:1] == ["endautoescape"]:
                        off = False
                    continue
                if t.startswith("{#"):
                    continue
                n += 1
                seen.append(f"{t} at {loc}")
                filters = [x.split(":")[0].strip() for x in t[2:-2].split("|")[1:]]
                var = t[2:-2].split("|")[0].strip()
                const_ = var[:1] in "'\"" or var in ("csrf_token", "block.super")
                if not const_ and ("safe" in filters or "safeseq" in filters):
                    devs.append({"key": "safe", "what": f"{t} is rendered without escaping", "construct": loc})
                elif not const_ and off and "escape" not in filters and "force_escape" not in filters and "json_script" not in filters:
                    devs.append({"key": "autoescape", "what": f"{t} is rendered with autoescaping turned off", "construct": loc})
                elif not const_ and any(a < m.start() and m.end() < b and text.rfind(">", 0, m.start()) > text.rfind("<", 0, m.start()) for a, b in script) and "escapejs" not in filters:
                    devs.append({"key": "script", "what": f"{t} is put into a script without escapejs or json_script", "construct": loc})
    if not n:
        raise AnalysisBroken("no template of the package found")
    return devs, n, seen
