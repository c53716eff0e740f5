"""What the change list's script asks of the server, and what it shows."""
import functools
import os

from .jspage import *
from .source import REPO, AnalysisBroken

JS = "treebeard/static/treebeard/treebeard-admin.js"
HTML = "treebeard/templates/admin/tree_change_list.html"
PATHS = 600


def read(rel):
    try:
        with open(os.path.join(REPO, rel), encoding="utf-8") as f:
            return f.read()
    except OSError:
        raise AnalysisBroken(f"{rel} not found")


def script_files(text):
    return [m.group(0) for m in re.finditer(r"<script\b[^>]*>", text)]


@functools.lru_cache(None)
def template():
    """what the change list's template gives the script, and what is wrong with it"""
    text = re.sub(r"\{#.*?#\}|\{% comment %\}.*?\{% endcomment %\}|<!--.*?-->", "", read(HTML), flags=re.S)
    devs = []

    def dev(key, what, pos=0):
        devs.append({"key": key, "what": what, "construct": f"{HTML}:{text.count(chr(10), 0, pos) + 1}"})
    ext = re.search(r"\{%\s*extends\s+[\"']([^\"']+)[\"']", text)
    if not ext:
        raise Undecided("template")
    blocks = {}
    for m in re.finditer(r"\{%\s*block\s+(\w+)\s*%\}(.*?)\{%\s*endblock", text, re.S):
        blocks[m.group(1)] = (m.group(2), m.start(2))
    if "{% include" in text:
        raise Undecided("included template")
    tag = re.search(r"\{%\s*tree_context\s+(\w+)\s+(\w+)\s+as\s+(\w+)\s*%\}", text)
    js = re.search(r"\{\{\s*(\w+)\s*\|\s*json_script\s*(?::\s*[\"']([^\"']+)[\"'])?\s*\}\}", text)
    scr = [m for m in re.finditer(r"<script\b([^>]*(?:\{[{%].*?[%}]\}[^>]*)*)>", text) if "treebeard-admin.js" in m.group(1)]
    t = {"context_id": None, "script_data": {}, "ids": set(re.findall(r"\bid=[\"']([\w-]+)", text)) | {"changelist", "changelist-form", "content-main", "content", "container", "header", "searchbar", "changelist-filter"}, "gettext": "jsi18n" in text, "jquery": True, "module": False}
    if tag and (tag.group(1), tag.group(2)) != ("cl", "request"):
        dev("tree_context", f"tree_context is given ({tag.group(1)}, {tag.group(2)}), not the change list and the request", tag.start())
    if js:
        if tag and js.group(1) != tag.group(3) or not tag:
            dev("json_script", f"the script's data is '{js.group(1)}', which is not the context of the rows", js.start())
        t["context_id"] = js.group(2)
    rl = re.search(r"\{%\s*result_list\s+cl\s*%\}", text)
    if not rl and "result_list" in blocks and "block.super" not in blocks["result_list"][0]:
        dev("result_list", "the page has no list of rows")
    if not scr:
        dev("script", "the page does not load the script of the tree")
    else:
        a = scr[0].group(1)
        for n, v in re.findall(r"data-([\w-]+)\s*=\s*[\"']\s*\{\{\s*([\w.|]+)\s*\}\}\s*[\"']", a):
            t["script_data"][re.sub(r"-([a-z])", lambda x: x.group(1).upper(), n)] = S("token") if v == "csrf_token" else S("text", v)
        t["module"] = bool(re.search(r"type\s*=\s*[\"']module", a))
        if "integrity" in a:
            raise Undecided("script attributes")
        inblock = next(((n, b) for n, b in blocks.items() if b[1] <= scr[0].start() < b[1] + len(b[0])), None)
        if inblock is None:
            dev("script", "the script is outside every block of the page and is never loaded", scr[0].start())
        elif inblock[0] in ("extrahead", "extrastyle"):
            s = inblock[1][0].find("block.super")
            if inblock[0] == "extrahead" and (s < 0 or inblock[1][1] + s > scr[0].start()) and not re.search(r"\bdefer\b", a):
                t["jquery"] = False
        elif inblock[0] not in ("footer", "content", "result_list", "pagination", "extrabody"):
            raise Undecided("block of the script")
        st = re.search(r"\{%\s*static\s+[\"']([^\"']+)[\"']", a)
        if st and not os.path.exists(os.path.join(REPO, "treebeard/static", st.group(1))):
            dev("static", f"the script file {st.group(1)} does not exist", scr[0].start())
    return t, devs


SMALL = {}  # the large numbers of the script and what they are replaced by (scaling.py)
COUNTS = re.compile(r"page|count|depth|level|num|len|size|total|index|tries|attempt|^[ijkn]$", re.I)


def thresholds(node, out, small=None):
    """numbers that sizes are compared with, or lists are cut at"""
    if isinstance(node, list):
        for x in node:
            thresholds(x, out, small)
        return out
    if not isinstance(node, dict):
        return out

    def number(e):
        if isinstance(e, dict) and e.get("type") == "Literal" and isinstance(e.get("value"), int) and not isinstance(e["value"], bool) and e["value"] >= 6:
            out.add(e["value"])
            return True

    def word(e):
        p = e.get("property") if e.get("type") == "MemberExpression" else e
        return p.get("name") or p.get("value") or "" if isinstance(p, dict) else ""
    if node.get("type") == "BinaryExpression" and node["operator"] in ("<", ">", "<=", ">=", "==", "===", "!=", "!==", "%"):
        for a, b in ((node["left"], node["right"]), (node["right"], node["left"])):
            if COUNTS.search(str(word(b))) and not re.search(r"[XY]$", str(word(b))):
                number(a)
    if node.get("type") == "CallExpression" and word(node["callee"]) in ("slice", "splice", "min", "max"):
        for a in node["arguments"]:
            number(a)
    if small and node.get("type") == "Literal" and not isinstance(node.get("value"), bool) and isinstance(node.get("value"), int) and node["value"] in small:
        node["value"] = small[node["value"]]
    for k, v in node.items():
        if isinstance(v, (dict, list)):
            thresholds(v, out, small)
    return out


@functools.lru_cache(None)
def parsed(small=()):
    tree = parse(read(JS))
    if small:
        thresholds(tree, set(), dict(small))
    return tree


def script():
    return parsed(tuple(SMALL.items()))


def explore(scenario, devs, stats, rows=2):
    """``scenario`` on every feasible path of the script"""
    t, _ = template()
    todo, n = [[]], 0
    while todo:
        pre = todo.pop()
        n += 1
        if n > PATHS:
            raise Undecided("path bound")
        page = Page(t, rows)
        if hasattr(scenario, "preset"):
            page.preset = scenario.preset
        m = Machine(script(), page, pre)

        def dev(key, what, line=None):
            devs.append({"key": key, "what": what, "construct": f"{JS}:{line or m.line}", "path": [f"{a!r} is {v}" for a, v in m.taken][:12]})
        try:
            m.run()
            scenario(m, page, dev)
        except JsThrow as e:
            dev("error", f"the script fails: {e.msg}", e.line)
        stats["n"] += 1
        for i in range(len(pre), len(m.taken)):
            todo.append([v for _, v in m.taken[:i]] + [not m.taken[i][1]])
    return n


def setup(m, page, dev, els, why):
    """every row carries its own context, a drag handle and an expander as the context says"""
    for el in els:
        want = page.context(el, page.parents.get(el)).props
        for k, v in want.items():
            got = page.attrs.get((el, "data-" + k), UNDEFINED)
            if k != "parent-id" and got != v and got != S("str", v):
                dev(f"{why}:context", f"a row's data-{k} is {got!r}, not that of its node")
                return
            if k == "parent-id" and not (got == v or v == 0 and got in (0, "0")):
                dev(f"{why}:context", f"a row's data-{k} is {got!r}, not the node's parent")
                return
        c = page.contents.get(el, [])
        cells = [x for x in c if x[0] == "cell"]
        can, has = m.choose(S("flag", "may change", el)), m.choose(S("flag", "has children", el))
        drag = any(x == ("handle", True) for x in c)
        if drag != can:
            dev(f"{why}:handle", "a row of a node the user may not change can be dragged" if drag else "a row of a node the user may change cannot be dragged")
        tg = [x for x in c if x[0] == "toggle"]
        if bool(tg) != has:
            dev(f"{why}:toggle", "a node without children can be expanded" if tg else "a node with children cannot be expanded")
        if tg and "treebeard-collapsed" not in tg[0][1]:
            dev(f"{why}:toggle", "a row whose children are not shown is not marked collapsed")
        sp = Lin({})
        for x in c:
            if x[0] == "space":
                l = lin(x[1])
                if l is None:
                    raise Undecided("indentation")
                sp = Lin({s: sp.co.get(s, 0) + l.co.get(s, 0) for s in {**sp.co, **l.co}}, sp.k + l.k)
        lev = S("level", el)
        known = 1 if m.facts.get(S("flag", "below level 1", el)) is False else 2 if m.facts.get(S("flag", "below level 2", el)) is False else None
        ok = sp == Lin({lev: 1}, -1) or known and set(sp.co) <= {lev} and sp.co.get(lev, 0) * known + sp.k == known - 1
        if not ok:
            dev(f"{why}:indent", f"a row of level L is indented by {sp!r}, not by L-1")
        if cells and not cells[0][1]:
            dev(f"{why}:cell", "the handle goes into the cell of the action checkbox")


def rows_scenario(m, page, dev):
    setup(m, page, dev, page.rows, "rows")


def text_of(v):
    return v[1:] if isinstance(v, S) and v[0] == "cat" else (v,) if isinstance(v, str) else None


def url_parts(v):
    p = text_of(v)
    if p is None:
        raise Undecided("address")
    p = list(p)
    if isinstance(p[0], str) and p[0].startswith("./"):
        p[0] = p[0][2:]
    return tuple(p)


def fields(v):
    if isinstance(v, Obj):
        return v.props
    if isinstance(v, Params):
        return v.sets
    raise Undecided("request data")


URLS = {}


def judge_post(m, page, dev, r, dragged, target, relation, why):
    if str(r.method).upper() != "POST":
        dev(f"{why}:method", f"a drop is sent with {r.method}, which the view does not read", r.line)
        return
    u = url_parts(r.url)
    URLS.setdefault("move", set()).add(u)
    d = fields(r.data)
    for k, v, n in (("node", S("id", dragged), "the dragged node"), ("target", S("id", target), "the node it is dropped on")):
        x = d.get(k, UNDEFINED)
        if isinstance(x, S) and x[0] == "str":
            x = x[1]
        if x != v:
            dev(f"{why}:{k}", f"the posted {k} is {x!r}, not {n}" if x is not UNDEFINED else f"no {k} is posted", r.line)
    if d.get("relation", UNDEFINED) != relation:
        dev(f"{why}:relation", f"the posted relation is {d.get('relation', UNDEFINED)!r}, must be '{relation}' for a drop on the {'upper' if relation == 'sibling' else 'lower'} half", r.line)
    h = {str(k).lower(): v for k, v in r.headers.props.items()} if isinstance(r.headers, Obj) else {}
    if h.get("x-csrftoken") != S("token") and d.get("csrfmiddlewaretoken") != S("token"):
        dev(f"{why}:csrf", "the request token is not sent: the server refuses every drop", r.line)


def drag(m, page, dev, a, b, half, why, leave=None, across=False):
    """drag row a, over the given rows and over the other half of row b, and drop it on the given half of row b"""
    handle = S("el", "handle", a)
    n0, r0 = len(page.requests), page.reloads
    page.dispatch("dragstart", handle, m)
    if leave is not None:
        page.region[leave] = "upper" if half == "lower" else "lower"
        page.dispatch("dragenter", S("el", "cell", leave, True, True), m)
        page.dispatch("dragover", S("el", "cell", leave, True, True), m, pageY=unlin(Lin({S("top", leave): 1, S("dy", leave): 1})))
        page.dispatch("drag", handle, m, pageY=S("unk", "drag position"))
    cell = S("el", "cell", b, True, True)
    if across:
        page.region[b] = "upper" if half == "lower" else "lower"
        page.dispatch("dragenter", cell, m)
        page.dispatch("dragover", cell, m, pageY=unlin(Lin({S("top", b): 1, S("dy", b): 1})))
        page.dispatch("drag", handle, m, pageY=S("unk", "drag position"))
    page.region[b] = half
    if not across:
        page.dispatch("dragenter", cell, m)
    over = page.dispatch("dragover", cell, m, pageY=unlin(Lin({S("top", b): 1, S("dy", b): 1})))
    page.dispatch("drag", handle, m, pageY=S("unk", "drag position"))
    if not over["prevented"] and a != b:
        dev(f"{why}:dragover", "rows do not accept a drop (the default of dragover is not prevented)")
    page.dispatch("drop", cell, m)
    new = [r for r in page.requests[n0:] if str(r.method).upper() != "GET" or url_parts(r.url)[0:1] == ("move/",)]
    if a == b:
        if new:
            dev(f"{why}:itself", "dropping a row on itself sends a request", new[0].line)
    elif len(new) != 1:
        dev(f"{why}:posts", f"a drop sends {len(new)} requests to move the node")
    else:
        judge_post(m, page, dev, new[0], a, b, {"upper": "sibling", "lower": "child"}[half], why)
        for ok in (True, False):
            r1 = page.reloads
            page.answer(new[0], m, ok, S("text", "answer"))
            if page.reloads == r1:
                dev(f"{why}:reload", f"the page is not loaded again after {'a move' if ok else 'a refused move, so its message is not shown'}", new[0].line)
    page.dispatch("dragend", handle, m)
    return r0


def flags(atom, known, deep=None):
    """what a scenario fixes of a row's context"""
    if atom[0] != "flag":
        return None
    return deep if atom[1].startswith("below level") else known.get(atom[1])


def drop_scenario(half, same=False):
    def f(m, page, dev):
        a, b = page.rows[0], page.rows[0 if same else 1]
        if page.classes.get(S("el", "handle", a)) is None:
            return
        drag(m, page, dev, a, b, half, "drop" if not same else "drop on itself")
    f.preset = lambda atom: flags(atom, {"may change": True})
    return f


def history_scenario(half):
    """one drag after another, over other rows, then back: nothing of the first is left"""
    def f(m, page, dev):
        a, b, c = page.rows[:3]
        other = "upper" if half == "lower" else "lower"
        drag(m, page, dev, a, c, other, "first drop")
        drag(m, page, dev, b, a, half, "second drop", leave=c)
        drag(m, page, dev, b, c, half, "drop after crossing the row", across=True)
    f.preset = lambda atom: flags(atom, {"may change": True, "has children": atom[2] == row(1)}, True)
    return f


def expand_scenario(pages):
    def f(m, page, dev):
        a = page.rows[0]
        tg = S("el", "toggle", a)
        if tg not in page.classes:
            return
        order0 = list(page.rows)
        rows = load(m, page, dev, a, pages, "expand")
        if rows is None:
            return
        if page.rows != order0[:1] + rows + order0[1:]:
            dev("expand:order", "the children are not shown below their parent, in their order")
        setup(m, page, dev, rows, "expand")
        if any(r in page.hidden for r in rows):
            dev("expand:hidden", "the loaded children are hidden")
        if "treebeard-expanded" not in page.classes[tg] or page.classes[tg] & {"treebeard-loading", "treebeard-collapsed"}:
            dev("expand:state", f"after expanding, the row is marked {sorted(page.classes[tg])}")
        sub = []
        if m.choose(S("flag", "has children", rows[0])):
            got = load(m, page, dev, rows[0], 1, "expand a loaded row")
            if got is None:
                return
            sub = got
        n = len(page.requests)
        page.dispatch("click", tg, m)
        if any(r not in page.hidden for r in rows + sub):
            dev("collapse:shown", "collapsing a row leaves some of its descendants visible")
        if "treebeard-collapsed" not in page.classes[tg] or "treebeard-expanded" in page.classes[tg]:
            dev("collapse:state", f"after collapsing, the row is marked {sorted(page.classes[tg])}")
        page.dispatch("click", tg, m)
        if len(page.requests) != n:
            dev("expand again:request", "expanding a row again requests its children again", page.requests[-1].line)
            return
        if any(r in page.hidden for r in rows):
            dev("expand again:hidden", "expanding a row again leaves its children hidden")
        if any((r in page.hidden) == ("treebeard-expanded" in page.classes.get(S("el", "toggle", rows[0]), ())) for r in sub):
            dev("expand again:deeper", "after expanding again, a deeper row's mark and its children disagree")

    def preset(atom):
        if atom[0] != "flag":
            return None
        el = atom[2]
        if is_el(el, "row"):
            return flags(atom, {"may change": True, "has children": el == row(0)}, True)
        return flags(atom, {"may change": el[3] == 0, "has children": None if el[3] == 0 else False}, True)
    f.preset = preset
    return f


def request(m, page, dev, a, k, no, why):
    """judge request k, for a page of the children of row a; the rows of its answer"""
    r = page.requests[k]
    u = url_parts(r.url)
    if str(r.method).upper() != "GET":
        dev(f"{why}:method", f"the children are requested with {r.method}", r.line)
    if S("id", a) not in u:
        dev(f"{why}:url", "the address requested does not name the row's node", r.line)
        return None
    URLS.setdefault("children", set()).add(tuple("<key>" if x == S("id", a) else x for x in u))
    d = fields(r.data) if not (r.data is UNDEFINED) else {}
    p = d.get("p", 1 if no == 1 else UNDEFINED)
    if isinstance(p, str) and p.isdigit():
        p = int(p)
    if p != no:
        dev(f"{why}:p", f"request {no} asks for page {p!r}", r.line)
        return None
    if not (isinstance(r.data, Params) and r.data.base == S("search")):
        dev(f"{why}:filters", "the request does not carry the parameters of the page (its search, filters and ordering)", r.line)
    here = [S("el", "new", S("req", k), i) for i in range(2)]
    for x in here:
        page.parents[x] = a
    return here


def reply(m, page, a, k, rows, no, pages):
    resp = Obj({"result_html": S("html", S("req", k)), "tree_context": Arr([page.context(x, a) for x in rows]), "page": no, "num_pages": pages})
    page.answer(page.requests[k], m, True, resp)


def overlap_scenario(order, pages=2):
    """two rows are expanded, the children of the second are asked for before the first are there"""
    def f(m, page, dev):
        tops = page.rows[:2]
        rows, sent, no = {t: [] for t in tops}, {}, {t: 0 for t in tops}

        def sends(t, n0):
            new = page.requests[n0:]
            if len(new) != (1 if no[t] < pages else 0):
                dev("overlap:pages", f"{len(new)} requests follow page {no[t]} of {pages} of the children of a row")
                return False
            if new:
                no[t] += 1
                sent[t] = n0, request(m, page, dev, t, n0, no[t], "overlap")
                return sent[t][1] is not None
            sent.pop(t)
            return True
        for t in tops:
            n0 = len(page.requests)
            page.dispatch("click", S("el", "toggle", t), m)
            if not sends(t, n0):
                return
        for i in order:
            t = tops[i]
            if t not in sent:
                continue
            k, here = sent[t]
            rows[t] += here
            n0 = len(page.requests)
            reply(m, page, t, k, here, no[t], pages)
            if not sends(t, n0):
                return
        if page.rows != tops[:1] + rows[tops[0]] + tops[1:] + rows[tops[1]]:
            dev("overlap:order", "the children of two rows that load at the same time are mixed, lost or shown twice")
        for t in tops:
            setup(m, page, dev, rows[t], "overlap")
            cl = page.classes[S("el", "toggle", t)]
            if "treebeard-expanded" not in cl or cl & {"treebeard-loading", "treebeard-collapsed"}:
                dev("overlap:state", f"after expanding, the row is marked {sorted(cl)}")
    f.preset = lambda atom: flags(atom, {"may change": True, "has children": is_el(atom[2], "row")}, True)
    return f


def impatient_scenario(clicks):
    """the row is clicked again while its children load"""
    def f(m, page, dev):
        a = page.rows[0]
        tg = S("el", "toggle", a)
        page.dispatch("click", tg, m)
        for _ in range(clicks):
            page.dispatch("click", tg, m)
        if len(page.requests) != 1:
            dev("impatient:request", f"the children of a row are requested {len(page.requests)} times at once")
            return
        here = request(m, page, dev, a, 0, 1, "impatient")
        if here is None:
            return
        reply(m, page, a, 0, here, 1, 1)
        agree(m, page, dev, a, here, "impatient")
        page.dispatch("click", tg, m)
        agree(m, page, dev, a, here, "impatient")
    f.preset = lambda atom: flags(atom, {"may change": True, "has children": atom[2] == row(0)}, True)
    return f


def failed_scenario(m, page, dev):
    """the first request for the children of a row fails: they can be asked for again"""
    a = page.rows[0]
    tg = S("el", "toggle", a)
    page.dispatch("click", tg, m)
    if len(page.requests) != 1:
        return
    page.answer(page.requests[0], m, False, S("text", "answer"))
    for _ in range(2):
        if len(page.requests) == 1:
            page.dispatch("click", tg, m)
    if len(page.requests) == 1:
        dev("failed:request", "after a failed request, the children of a row are never asked for again", page.requests[0].line)
        return
    here = request(m, page, dev, a, 1, 1, "failed")
    if here is not None:
        reply(m, page, a, 1, here, 1, 1)
        agree(m, page, dev, a, here, "failed")


failed_scenario.preset = lambda atom: flags(atom, {"may change": True, "has children": atom[2] == row(0)}, True)


def agree(m, page, dev, a, rows, why):
    """the mark of the row says whether its children are shown"""
    cl = page.classes[S("el", "toggle", a)]
    there = [x for x in rows if x in page.rows]
    if there != rows:
        dev(f"{why}:rows", f"{len(there)} of {len(rows)} children are in the list")
        return
    shown = [x not in page.hidden for x in rows]
    want = {"treebeard-expanded"} if all(shown) else {"treebeard-collapsed"}
    if len(set(shown)) > 1 or cl & {"treebeard-expanded", "treebeard-collapsed", "treebeard-loading"} != want:
        dev(f"{why}:state", f"the row is marked {sorted(cl)}, its children are {'shown' if all(shown) else 'hidden' if not any(shown) else 'partly shown'}")


def load(m, page, dev, a, pages, why):
    """expand row a, whose children come in so many pages; the rows loaded"""
    tg = S("el", "toggle", a)
    n0 = len(page.requests)
    e = page.dispatch("click", tg, m)
    if not e["called"]:
        dev(f"{why}:click", "clicking the expander of a row does nothing")
        return None
    if not e["prevented"]:
        dev(f"{why}:default", "clicking the expander also follows its link")
    if len(page.requests) == n0:
        dev(f"{why}:request", "expanding a row does not request its children")
        return None
    rows, k = [], n0
    while k < len(page.requests):
        no = k - n0 + 1
        if no > pages:
            dev(f"{why}:pages", f"page {no} of {pages} is requested", page.requests[k].line)
            return None
        here = request(m, page, dev, a, k, no, why)
        if here is None:
            return None
        rows += here
        reply(m, page, a, k, here, no, pages)
        k += 1
    if k - n0 != pages:
        dev(f"{why}:pages", f"{k - n0} of {pages} pages of children are requested", page.requests[-1].line)
        return None
    missing = [x for x in rows if x not in page.rows]
    if missing:
        dev(f"{why}:rows", f"{len(missing)} of {len(rows)} loaded rows are not put into the list")
        return None
    return rows


def rule_page():
    """the scenarios, on every path of the script; again with its large numbers made small"""
    SMALL.clear()
    values = sorted(thresholds(script(), set()))
    try:
        out = scenarios()
    except Undecided as u:
        if not values:
            raise
        out = u
    if not values or not isinstance(out, Undecided) and out[0]:
        return out
    for t in (1, 2):
        SMALL.update({v: t + i for i, v in enumerate(values)})
        try:
            again = scenarios()
        except Undecided:
            continue
        finally:
            SMALL.clear()
        if again[0]:
            return again
    if isinstance(out, Undecided):
        raise out
    return out


def scenarios():
    t, devs = template()
    devs = list(devs)
    stats = {"n": 0}
    done, und = [], []
    URLS.clear()
    for name, sc, rows in (("rows", rows_scenario, 2), ("drop above", drop_scenario("upper"), 2), ("drop below", drop_scenario("lower"), 2), ("drop on itself", drop_scenario("upper", True), 2), ("two drops, above", history_scenario("upper"), 3), ("two drops, below", history_scenario("lower"), 3), ("expand, one page", expand_scenario(1), 2), ("expand, two pages", expand_scenario(2), 2), ("expand, three pages", expand_scenario(3), 2), ("overlapping, in turn", overlap_scenario((0, 1, 0, 1)), 2), ("overlapping, second first", overlap_scenario((1, 1, 0, 0)), 2), ("overlapping, nested", overlap_scenario((0, 1, 1, 0)), 2), ("clicked while loading", impatient_scenario(1), 2), ("clicked twice while loading", impatient_scenario(2), 2), ("failed request", failed_scenario, 2)):
        got = []
        try:
            n = explore(sc, got, stats, rows)
            done.append(f"{name}: {n} paths")
        except Undecided as u:
            und.append(f"{name}: {u}")
            if os.environ.get("SA_DEBUG"):
                import traceback
                traceback.print_exc()
        devs += [{**d, "key": name + "|" + d["key"]} for d in got]
    out, seen = [], set()
    for d in devs:
        if d["key"] not in seen:
            seen.add(d["key"])
            out.append(d)
    if und and not out:
        raise Undecided("; ".join(und))
    return out, stats["n"], done


@functools.lru_cache(None)
def addresses():
    """the addresses the script uses for a drop and for the children of a node"""
    try:
        rule_page()
    except (Undecided, AnalysisBroken):
        pass
    move = [u[0] for u in URLS.get("move", ()) if len(u) == 1]
    ch = ["".join(u) for u in URLS.get("children", ()) if u.count("<key>") == 1 and all(isinstance(x, str) for x in u)]
    return sorted(set(move))[:1] or ["move/"], sorted(set(ch))[:1] or ["children/<key>/"]
