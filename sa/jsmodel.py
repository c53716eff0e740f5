"""Path-sensitive abstract interpretation of the change list's script.

The syntax tree comes from acorn.  Rows, ids, levels, permissions, texts and
positions are symbols; the page is a model (attributes, classes, visibility,
handlers, requests).  Every undecided condition forks; whatever the model does
not know raises Undecided.
"""
import json
import os
import re
import subprocess
from fractions import Fraction

from .layout import Undecided
from .source import REPO

ACORN = "/opt/veriftools/node/node_modules/acorn"


def parse(text):
    prog = "const a=require(%s);let s='';process.stdin.on('data',d=>s+=d);process.stdin.on('end',()=>console.log(JSON.stringify(a.parse(s,{ecmaVersion:'latest',locations:true}))))" % json.dumps(ACORN)
    try:
        r = subprocess.run(["node", "-e", prog], input=text, capture_output=True, text=True, timeout=60)
    except (OSError, subprocess.SubprocessError):
        raise Undecided("no parser for JavaScript")
    if r.returncode:
        raise Undecided("the script cannot be parsed: " + (r.stderr.strip().splitlines() or ["?"])[-1][:100])
    return json.loads(r.stdout)


class Undef:
    def __repr__(self):
        return "undefined"

    def __bool__(self):
        return False


UNDEFINED = Undef()


class S(tuple):
    """a symbol: operator and arguments"""
    __slots__ = ()

    def __new__(cls, *a):
        return tuple.__new__(cls, a)

    def __eq__(self, o):
        return isinstance(o, S) and tuple.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    __hash__ = tuple.__hash__

    def __repr__(self):
        return f"{self[0]}({', '.join(map(repr, self[1:]))})"


class Lin:
    """a linear expression of numeric symbols"""

    def __init__(self, co, k=0):
        self.co, self.k = {s: Fraction(c) for s, c in co.items() if c}, Fraction(k)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.co == o.co and self.k == o.k

    def __hash__(self):
        return hash((frozenset(self.co.items()), self.k))

    def __repr__(self):
        return " + ".join([f"{c}*{s!r}" for s, c in self.co.items()] + [str(self.k)])


def lin(v):
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, float, Fraction)):
        return Lin({}, v)
    if isinstance(v, Lin):
        return v
    if isinstance(v, S) and v[0] in NUMERIC:
        return Lin({v: 1})
    return None


NUMERIC = {"top", "left", "h", "w", "dy", "level", "flag", "num"}


def unlin(l):
    if not l.co:
        return int(l.k) if l.k.denominator == 1 else l.k
    if l.k == 0 and len(l.co) == 1 and next(iter(l.co.values())) == 1:
        return next(iter(l.co))
    return l


class Obj:
    def __init__(self, props=None, cls=None):
        self.props, self.cls = dict(props or {}), cls


class Arr:
    def __init__(self, items=()):
        self.items = list(items)


class ElSet(Arr):
    """a jQuery set of known elements"""


class Func:
    def __init__(self, node, env, this=None, home=None):
        self.node, self.env, self.this, self.home = node, env, this, home


class Native:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return f"<{self.name}>"


class Class:
    def __init__(self, node, env, sup):
        self.node, self.env, self.sup = node, env, sup
        self.methods = {m["key"].get("name"): m for m in node["body"]["body"] if m["type"] == "MethodDefinition"}

    def find(self, n):
        return (self, self.methods[n]) if n in self.methods else self.sup.find(n) if self.sup else (None, None)


class Env:
    def __init__(self, parent=None):
        self.vars, self.parent = {}, parent

    def home(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e
            e = e.parent
        return None


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class JsThrow(Exception):
    """the script fails at run time"""

    def __init__(self, msg, line):
        self.msg, self.line = msg, line


class Machine:
    MAX = 40000

    def __init__(self, ast, page, decisions=()):
        self.ast, self.page, self.decisions, self.taken = ast, page, list(decisions), []
        self.globals = Env()
        self.steps, self.line, self.loading, self.depth = 0, 0, True, 0
        self.facts = {}
        page.m = self

    # -------------------------------------------------------------- forks
    def choose(self, atom):
        if atom in self.facts:
            return self.facts[atom]
        v = self.page.preset(atom)
        if v is not None:
            self.facts[atom] = v
            return v
        i = len(self.taken)
        v = self.decisions[i] if i < len(self.decisions) else True
        self.taken.append((atom, v))
        self.facts[atom] = v
        return v

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None or v is UNDEFINED:
            return False
        if isinstance(v, (int, float, Fraction)):
            return v != 0
        if isinstance(v, str):
            return v != ""
        if isinstance(v, (Obj, Arr, Func, Native, Class)):
            return True
        if isinstance(v, S):
            if v[0] == "flag":
                return self.choose(v)
            if v[0] in ("text", "id", "str", "token", "event", "script", "el", "html", "request", "cell"):
                return True
            if v[0] in ("level", "h", "w"):
                return True
            if v[0] in ("unk", "cond"):
                return self.choose(v)
        if isinstance(v, Lin):
            return self.compare(">", v, 0) or self.compare("<", v, 0)
        raise Undecided(f"truth of {v!r}")

    def compare(self, op, a, b):
        x, y = lin(a), lin(b)
        if x is None or y is None:
            raise Undecided(f"comparison of {a!r} and {b!r}")
        d = Lin({s: x.co.get(s, 0) - y.co.get(s, 0) for s in {**x.co, **y.co}}, x.k - y.k)
        sg = self.page.sign(d, self)
        return {"<": sg < 0, ">": sg > 0, "<=": sg <= 0, ">=": sg >= 0, "==": sg == 0}[op]

    def equal(self, a, b, strict):
        if a is b:
            return True
        if isinstance(a, S) and isinstance(b, S):
            if a == b:
                return True
            if a[0] == b[0] == "id" or {a[0], b[0]} == {"id"}:
                return False  # different nodes
            if a[0] == "str" and b[0] == "str":
                return self.equal(a[1], b[1], strict)
            if not strict and "str" in (a[0], b[0]):
                return self.equal(a[1] if a[0] == "str" else a, b[1] if b[0] == "str" else b, strict)
            if a[0] == b[0] == "el":
                return False
            raise Undecided(f"{a!r} == {b!r}")
        if isinstance(b, S):
            a, b = b, a
        if isinstance(a, S):
            if a[0] == "flag" and not isinstance(b, (str, S)) and b in (0, 1) and not isinstance(b, bool):
                return self.choose(a) == bool(b)
            if a[0] == "flag" and not strict and b in ("0", "1", True, False):
                return self.choose(a) == (b in ("1", True))
            if a[0] == "flag" and strict:
                return False
            if a[0] == "str" and isinstance(a[1], S) and a[1][0] == "flag" and b in ("0", "1"):
                return self.choose(a[1]) == (b == "1")
            if a[0] == "str" and isinstance(b, (int, float)):
                return not strict and self.equal(a[1], b, False)
            if a[0] in ("unk",):
                return self.choose(S("cond", "==", a, b if isinstance(b, (str, int, float, bool, type(None))) else repr(b)))
            if a[0] in ("id", "el", "event", "text", "token") and (b is None or b is UNDEFINED or b == "" and not isinstance(b, bool)):
                return False
            if a[0] == "id" and b in (0, "0"):
                return False  # the parent key of a root
            if a[0] == "str" and isinstance(a[1], S) and a[1][0] == "id":
                return self.equal(a[1], b, strict)
            if lin(a) is not None and lin(b) is not None:
                return self.compare("==", a, b)
            raise Undecided(f"{a!r} == {b!r}")
        if lin(a) is not None and lin(b) is not None:
            return self.compare("==", a, b)
        if not strict and (a is None or a is UNDEFINED) and (b is None or b is UNDEFINED):
            return True
        if isinstance(a, (str, bool, type(None), Undef, int, float)) and isinstance(b, (str, bool, type(None), Undef, int, float)):
            if strict or type(a) is type(b):
                return type(a) is type(b) and a == b
            if a is None or b is None or a is UNDEFINED or b is UNDEFINED:
                return False
            raise Undecided("loose comparison")
        return False

    # -------------------------------------------------------------- statements
    def run(self):
        env = Env(self.globals)
        self.hoist(self.ast["body"], env)
        for s in self.ast["body"]:
            self.stmt(s, env)
        self.loading = False
        self.page.ready()

    def hoist(self, body, env):
        for s in body:
            if s["type"] == "FunctionDeclaration":
                env.vars[s["id"]["name"]] = Func(s, env)

    def block(self, body, env):
        self.hoist(body, env)
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > self.MAX:
            raise Undecided("step bound")
        self.line = s["loc"]["start"]["line"]
        t = s["type"]
        f = getattr(self, "s_" + t, None)
        if f is None:
            raise Undecided("statement " + t)
        return f(s, env)

    def s_ExpressionStatement(self, s, env):
        self.ev(s["expression"], env)

    def s_EmptyStatement(self, s, env):
        pass

    def s_FunctionDeclaration(self, s, env):
        pass

    def s_ClassDeclaration(self, s, env):
        env.vars[s["id"]["name"]] = Class(s, env, self.ev(s["superClass"], env) if s.get("superClass") else None)

    def s_VariableDeclaration(self, s, env):
        for d in s["declarations"]:
            v = self.ev(d["init"], env) if d.get("init") else UNDEFINED
            self.bind(d["id"], v, env)

    def s_BlockStatement(self, s, env):
        self.block(s["body"], Env(env))

    def s_IfStatement(self, s, env):
        if self.truth(self.ev(s["test"], env)):
            self.stmt(s["consequent"], Env(env))
        elif s.get("alternate"):
            self.stmt(s["alternate"], Env(env))

    def s_ReturnStatement(self, s, env):
        raise Ret(self.ev(s["argument"], env) if s.get("argument") else UNDEFINED)

    def s_BreakStatement(self, s, env):
        raise Brk()

    def s_ContinueStatement(self, s, env):
        raise Cont()

    def s_ThrowStatement(self, s, env):
        raise JsThrow("throws an exception", self.line)

    def s_ForOfStatement(self, s, env):
        for x in self.items(self.ev(s["right"], env)):
            e = Env(env)
            tgt = s["left"]["declarations"][0]["id"] if s["left"]["type"] == "VariableDeclaration" else s["left"]
            if s["left"]["type"] == "VariableDeclaration":
                self.bind(tgt, x, e)
            else:
                self.assign(tgt, x, env)
            try:
                self.stmt(s["body"], e)
            except Brk:
                break
            except Cont:
                continue

    def s_ForInStatement(self, s, env):
        o = self.ev(s["right"], env)
        if not isinstance(o, Obj):
            raise Undecided("for-in")
        for x in list(o.props):
            e = Env(env)
            self.bind(s["left"]["declarations"][0]["id"], x, e)
            try:
                self.stmt(s["body"], e)
            except Brk:
                break
            except Cont:
                continue

    def loop(self, test, body, update, env, first=True):
        n = 0
        while not first or test is None or self.truth(self.ev(test, env)):
            first = True
            n += 1
            if n > 50:
                raise Undecided("loop bound")
            try:
                self.stmt(body, Env(env))
            except Brk:
                break
            except Cont:
                pass
            if update is not None:
                self.ev(update, env)

    def s_ForStatement(self, s, env):
        e = Env(env)
        if s.get("init"):
            self.stmt(s["init"], e) if s["init"]["type"] == "VariableDeclaration" else self.ev(s["init"], e)
        self.loop(s.get("test"), s["body"], s.get("update"), e)

    def s_WhileStatement(self, s, env):
        self.loop(s["test"], s["body"], None, env)

    def s_DoWhileStatement(self, s, env):
        self.loop(s["test"], s["body"], None, env, False)

    def s_SwitchStatement(self, s, env):
        v = self.ev(s["discriminant"], env)
        on = False
        try:
            e = Env(env)
            for c in s["cases"]:
                on = on or c["test"] is None or self.equal(v, self.ev(c["test"], e), True)
                if on:
                    for x in c["consequent"]:
                        self.stmt(x, e)
        except Brk:
            pass

    def bind(self, t, v, env):
        k = t["type"]
        if k == "Identifier":
            env.vars[t["name"]] = v
        elif k == "AssignmentPattern":
            self.bind(t["left"], self.ev(t["right"], env) if v is UNDEFINED else v, env)
        elif k == "ArrayPattern":
            xs = self.items(v)
            for i, p in enumerate(t["elements"]):
                if p is None:
                    continue
                if p["type"] == "RestElement":
                    self.bind(p["argument"], Arr(xs[i:]), env)
                else:
                    self.bind(p, xs[i] if i < len(xs) else UNDEFINED, env)
        elif k == "ObjectPattern":
            for p in t["properties"]:
                if p["type"] != "Property":
                    raise Undecided("rest of an object")
                key = p["key"]["name"] if p["key"]["type"] == "Identifier" and not p["computed"] else self.ev(p["key"], env)
                self.bind(p["value"], self.get(v, key), env)
        else:
            raise Undecided("pattern " + k)

    def assign(self, t, v, env):
        if t["type"] == "Identifier":
            h = env.home(t["name"])
            (h or self.globals).vars[t["name"]] = v
        elif t["type"] == "MemberExpression":
            o = self.ev(t["object"], env)
            self.put(o, self.key(t, env), v)
        elif t["type"] in ("ArrayPattern", "ObjectPattern"):
            raise Undecided("destructuring assignment")
        else:
            raise Undecided("assignment to " + t["type"])

    # -------------------------------------------------------------- expressions
    def ev(self, e, env):
        self.steps += 1
        if self.steps > self.MAX:
            raise Undecided("step bound")
        self.line = e["loc"]["start"]["line"]
        f = getattr(self, "e_" + e["type"], None)
        if f is None:
            raise Undecided("expression " + e["type"])
        return f(e, env)

    def e_Literal(self, e, env):
        if "regex" in e:
            return S("regex", e["regex"]["pattern"])
        v = e["value"]
        return v

    def e_TemplateLiteral(self, e, env):
        parts = []
        for i, q in enumerate(e["quasis"]):
            parts.append(q["value"]["cooked"])
            if i < len(e["expressions"]):
                parts.append(self.ev(e["expressions"][i], env))
        return self.concat(parts)

    def concat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, S) and p[0] == "cat":
                out.extend(p[1:])
            else:
                out.append(p)
        res = []
        for p in out:
            if isinstance(p, bool):
                p = "true" if p else "false"
            elif p is UNDEFINED or p is None:
                p = "undefined" if p is UNDEFINED else "null"
            elif isinstance(p, (int, float, Fraction)):
                p = str(p)
            elif isinstance(p, S) and p[0] == "str":
                p = p[1]
            if isinstance(p, str) and res and isinstance(res[-1], str):
                res[-1] += p
            elif p != "":
                res.append(p)
        if not res:
            return ""
        if any(isinstance(p, (Obj, Arr, Func, Native)) for p in res):
            raise Undecided("text of an object")
        return res[0] if len(res) == 1 and isinstance(res[0], str) else S("cat", *res)

    def e_Identifier(self, e, env):
        n = e["name"]
        if n == "undefined":
            return UNDEFINED
        h = env.home(n)
        if h is not None:
            return h.vars[n]
        return self.page.globalvar(n, self)

    def e_ThisExpression(self, e, env):
        h = env.home("this")
        return h.vars["this"] if h else UNDEFINED

    def e_ArrowFunctionExpression(self, e, env):
        return Func(e, env)

    e_FunctionExpression = e_ArrowFunctionExpression

    def e_ClassExpression(self, e, env):
        return Class(e, env, self.ev(e["superClass"], env) if e.get("superClass") else None)

    def e_ArrayExpression(self, e, env):
        out = []
        for x in e["elements"]:
            if x["type"] == "SpreadElement":
                out.extend(self.items(self.ev(x["argument"], env)))
            else:
                out.append(self.ev(x, env))
        return Arr(out)

    def e_ObjectExpression(self, e, env):
        o = Obj()
        for p in e["properties"]:
            if p["type"] == "SpreadElement":
                v = self.ev(p["argument"], env)
                if not isinstance(v, Obj):
                    raise Undecided("spread")
                o.props.update(v.props)
                continue
            k = self.ev(p["key"], env) if p["computed"] else p["key"].get("name", p["key"].get("value"))
            o.props[str(k) if isinstance(k, (int, float)) else k] = self.ev(p["value"], env)
        return o

    def e_SequenceExpression(self, e, env):
        v = UNDEFINED
        for x in e["expressions"]:
            v = self.ev(x, env)
        return v

    def e_ConditionalExpression(self, e, env):
        return self.ev(e["consequent"] if self.truth(self.ev(e["test"], env)) else e["alternate"], env)

    def e_LogicalExpression(self, e, env):
        a = self.ev(e["left"], env)
        if e["operator"] == "??":
            return self.ev(e["right"], env) if a is None or a is UNDEFINED else a
        if self.truth(a) == (e["operator"] == "&&"):
            return self.ev(e["right"], env)
        return a

    def e_UnaryExpression(self, e, env):
        o = e["operator"]
        if o == "typeof":
            try:
                v = self.ev(e["argument"], env)
            except Undecided:
                raise
            return "undefined" if v is UNDEFINED else "string" if isinstance(v, str) or isinstance(v, S) and v[0] in ("str", "cat") else "function" if isinstance(v, (Func, Native)) else "boolean" if isinstance(v, bool) else "number" if lin(v) is not None else "object"
        v = self.ev(e["argument"], env)
        if o == "!":
            return not self.truth(v)
        if o == "+":
            return self.number(v)
        if o == "-":
            l = lin(v)
            if l is None:
                raise Undecided("negation")
            return unlin(Lin({s: -c for s, c in l.co.items()}, -l.k))
        if o == "void":
            return UNDEFINED
        raise Undecided("operator " + o)

    def number(self, v):
        if isinstance(v, S) and v[0] == "str":
            return self.number(v[1])
        if isinstance(v, str):
            if re.fullmatch(r"\s*-?\d+\s*", v):
                return int(v)
            raise Undecided("number of a text")
        if isinstance(v, bool):
            return int(v)
        if lin(v) is not None:
            return v
        raise Undecided(f"number of {v!r}")

    def e_BinaryExpression(self, e, env):
        a, b = self.ev(e["left"], env), self.ev(e["right"], env)
        return self.binary(e["operator"], a, b)

    def binary(self, o, a, b):
        if o in ("==", "==="):
            return self.equal(a, b, o == "===")
        if o in ("!=", "!=="):
            return not self.equal(a, b, o == "!==")
        if o in ("<", ">", "<=", ">="):
            return self.compare(o, self.number(a) if isinstance(a, S) and a[0] == "str" else a, self.number(b) if isinstance(b, S) and b[0] == "str" else b)
        x, y = lin(a), lin(b)
        if o == "+" and (x is None or y is None):
            if any(isinstance(v, (str, S)) for v in (a, b)):
                return self.concat([a, b])
            raise Undecided("addition")
        if x is None or y is None:
            x, y = lin(self.number(a)), lin(self.number(b))
        if o in ("+", "-"):
            s = 1 if o == "+" else -1
            return unlin(Lin({k: x.co.get(k, 0) + s * y.co.get(k, 0) for k in {**x.co, **y.co}}, x.k + s * y.k))
        if o == "*" and (not x.co or not y.co):
            if x.co:
                x, y = y, x
            return unlin(Lin({k: c * x.k for k, c in y.co.items()}, y.k * x.k))
        if o == "/" and not y.co and y.k:
            return unlin(Lin({k: c / y.k for k, c in x.co.items()}, x.k / y.k))
        if o == "%" and not x.co and not y.co:
            return unlin(Lin({}, x.k % y.k))
        raise Undecided("operator " + o)

    def e_AssignmentExpression(self, e, env):
        o = e["operator"]
        if o == "=":
            v = self.ev(e["right"], env)
        else:
            a = self.ev(e["left"], env)
            if o in ("||=", "&&=", "??="):
                keep = (a is not None and a is not UNDEFINED) if o == "??=" else self.truth(a) == (o == "||=")
                if keep:
                    return a
                v = self.ev(e["right"], env)
            else:
                v = self.binary(o[:-1], a, self.ev(e["right"], env))
        self.assign(e["left"], v, env)
        return v

    def e_UpdateExpression(self, e, env):
        a = self.number(self.ev(e["argument"], env))
        b = self.binary("+", a, 1 if e["operator"] == "++" else -1)
        self.assign(e["argument"], b, env)
        return b if e["prefix"] else a

    def key(self, e, env):
        return self.ev(e["property"], env) if e["computed"] else e["property"]["name"]

    def e_ChainExpression(self, e, env):
        return self.ev(e["expression"], env)

    def e_MemberExpression(self, e, env):
        o = self.ev(e["object"], env)
        if e.get("optional") and (o is None or o is UNDEFINED):
            return UNDEFINED
        k = self.key(e, env)
        self.line = e["loc"]["start"]["line"]
        return self.get(o, k)

    def e_NewExpression(self, e, env):
        c = self.ev(e["callee"], env)
        return self.construct(c, self.args(e, env))

    def construct(self, c, args):
        if isinstance(c, Class):
            o = Obj(cls=c)
            own, m = c.find("constructor")
            x = c
            while x is not None:
                for f in x.node["body"]["body"]:
                    if f["type"] == "PropertyDefinition":
                        en = Env(x.env)
                        en.vars["this"] = o
                        o.props[f["key"]["name"]] = self.ev(f["value"], en) if f.get("value") else UNDEFINED
                x = x.sup
            if m:
                self.call(Func(m["value"], own.env, home=own), args, o)
            return o
        return self.page.construct(c, args, self)

    def args(self, e, env):
        out = []
        for a in e["arguments"]:
            if a["type"] == "SpreadElement":
                out.extend(self.items(self.ev(a["argument"], env)))
            else:
                out.append(self.ev(a, env))
        return out

    def e_CallExpression(self, e, env):
        c = e["callee"]
        while c["type"] == "ChainExpression":
            c = c["expression"]
        if c["type"] == "Super":
            h = env.home("__home")
            own, m = h.vars["__home"].sup.find("constructor") if h and h.vars["__home"].sup else (None, None)
            if m:
                self.call(Func(m["value"], own.env, home=own), self.args(e, env), env.home("this").vars["this"])
            return UNDEFINED
        if c["type"] == "MemberExpression":
            o = self.ev(c["object"], env)
            if (c.get("optional") or e.get("optional")) and (o is None or o is UNDEFINED):
                return UNDEFINED
            k = self.key(c, env)
            f = self.get(o, k)
            a = self.args(e, env)
            self.line = c["property"]["loc"]["start"]["line"]
            return self.call(f, a, o)
        f = self.ev(c, env)
        a = self.args(e, env)
        self.line = e["loc"]["start"]["line"]
        return self.call(f, a, UNDEFINED)

    # -------------------------------------------------------------- objects
    def items(self, v):
        if isinstance(v, Arr):
            return list(v.items)
        if v is UNDEFINED or v is None:
            raise JsThrow(f"{v!r} is not a list", self.line)
        raise Undecided(f"items of {v!r}")

    def get(self, o, k):
        if o is UNDEFINED or o is None:
            raise JsThrow(f"property {k!r} of {'null' if o is None else 'undefined'}", self.line)
        if isinstance(o, Obj):
            if k in o.props:
                return o.props[k]
            if o.cls is not None:
                own, m = o.cls.find(k)
                if m is not None:
                    f = Func(m["value"], own.env, home=own)
                    return self.call(f, [], o) if m["kind"] == "get" else f
            if getattr(o, "open", False):
                raise Undecided(f"property {k}")
            return self.objmethod(o, k)
        if isinstance(o, Arr):
            return self.arrget(o, k)
        if isinstance(o, (Func, Class)):
            if k in ("call", "apply", "bind"):
                def via(a):
                    if k == "call":
                        return self.call(o, a[1:], a[0] if a else UNDEFINED)
                    if k == "apply":
                        return self.call(o, self.items(a[1]) if len(a) > 1 else [], a[0])
                    return Native("bound", lambda b: self.call(o, a[1:] + b, a[0]))
                return Native(k, via)
            if isinstance(o, Class):
                own, m = o.find(k)
                if m and m.get("static"):
                    return Func(m["value"], own.env, home=own)
            raise Undecided(f"function property {k}")
        if isinstance(o, str) or isinstance(o, S) and o[0] in ("str", "cat", "text", "repeat"):
            return self.strget(o, k)
        return self.page.get(o, k, self)

    def objmethod(self, o, k):
        if k == "hasOwnProperty":
            return Native(k, lambda a: a[0] in o.props)
        return UNDEFINED

    def put(self, o, k, v):
        if isinstance(o, Obj):
            o.props[k] = v
        elif isinstance(o, Arr) and isinstance(k, int):
            while len(o.items) <= k:
                o.items.append(UNDEFINED)
            o.items[k] = v
        else:
            self.page.put(o, k, v, self)

    def strget(self, o, k):
        if k == "length" and isinstance(o, str):
            return len(o)
        if k == "repeat":
            def rep(a):
                n = self.number(a[0])
                if isinstance(n, int) and isinstance(o, str):
                    if n < 0:
                        raise JsThrow("negative repeat count", self.line)
                    return o * n
                return S("repeat", o, n)
            return Native(k, rep)
        if k in ("toString", "valueOf"):
            return Native(k, lambda a: o)
        if isinstance(o, str):
            if k in ("startsWith", "endsWith", "includes"):
                return Native(k, lambda a: isinstance(a[0], str) and {"startsWith": o.startswith, "endsWith": o.endswith, "includes": o.__contains__}[k](a[0]))
            if k in ("toLowerCase", "toUpperCase", "trim"):
                return Native(k, lambda a: {"toLowerCase": o.lower, "toUpperCase": o.upper, "trim": o.strip}[k]())
            if k == "concat":
                return Native(k, lambda a: self.concat([o] + a))
        elif k == "concat":
            return Native(k, lambda a: self.concat([o] + a))
        raise Undecided(f"text method {k}")

    def arrget(self, o, k):
        if k == "length":
            return len(o.items)
        if isinstance(k, bool) or isinstance(k, (int, Fraction)):
            k = int(k)
            return o.items[k] if 0 <= k < len(o.items) else UNDEFINED
        if not isinstance(k, str):
            raise Undecided("index")
        if isinstance(o, ElSet):
            return self.page.setget(o, k, self)
        f = getattr(self, "a_" + k, None)
        if f is None:
            raise Undecided(f"array method {k}")
        return Native(k, lambda a: f(o, a))

    def a_push(self, o, a):
        o.items.extend(a)
        return len(o.items)

    def a_unshift(self, o, a):
        o.items[:0] = a
        return len(o.items)

    def a_pop(self, o, a):
        return o.items.pop() if o.items else UNDEFINED

    def a_shift(self, o, a):
        return o.items.pop(0) if o.items else UNDEFINED

    def a_reverse(self, o, a):
        o.items.reverse()
        return o

    def a_forEach(self, o, a):
        for i, x in enumerate(list(o.items)):
            self.call(a[0], [x, i, o], UNDEFINED)
        return UNDEFINED

    def a_map(self, o, a):
        return Arr([self.call(a[0], [x, i, o], UNDEFINED) for i, x in enumerate(list(o.items))])

    def a_filter(self, o, a):
        return Arr([x for i, x in enumerate(list(o.items)) if self.truth(self.call(a[0], [x, i, o], UNDEFINED))])

    def a_some(self, o, a):
        return any(self.truth(self.call(a[0], [x, i, o], UNDEFINED)) for i, x in enumerate(list(o.items)))

    def a_every(self, o, a):
        return all(self.truth(self.call(a[0], [x, i, o], UNDEFINED)) for i, x in enumerate(list(o.items)))

    def a_concat(self, o, a):
        out = list(o.items)
        for x in a:
            out.extend(x.items if isinstance(x, Arr) else [x])
        return Arr(out)

    def a_slice(self, o, a):
        lo, hi = (list(a) + [None, None])[:2]
        return Arr(o.items[lo if isinstance(lo, int) else None:hi if isinstance(hi, int) else None])

    def a_join(self, o, a):
        sep = a[0] if a else ","
        out = []
        for i, x in enumerate(o.items):
            if i:
                out.append(sep)
            out.append(x)
        return self.concat(out)

    def a_entries(self, o, a):
        return Arr([Arr([i, x]) for i, x in enumerate(o.items)])

    def a_keys(self, o, a):
        return Arr(list(range(len(o.items))))

    def a_includes(self, o, a):
        return any(self.equal(x, a[0], True) for x in o.items)

    # -------------------------------------------------------------- calls
    def call(self, f, args, this):
        self.steps += 1
        if self.steps > self.MAX:
            raise Undecided("step bound")
        if isinstance(f, Native):
            return f.f(list(args))
        if isinstance(f, Func):
            n = f.node
            if n.get("async") or n.get("generator"):
                raise Undecided("asynchronous function")
            env = Env(f.env)
            if n["type"] != "ArrowFunctionExpression":
                env.vars["this"] = this
                env.vars["arguments"] = Arr(args)
            if f.home is not None:
                env.vars["__home"] = f.home
            for i, p in enumerate(n["params"]):
                if p["type"] == "RestElement":
                    self.bind(p["argument"], Arr(args[i:]), env)
                else:
                    self.bind(p, args[i] if i < len(args) else UNDEFINED, env)
            if n["body"]["type"] != "BlockStatement":
                return self.ev(n["body"], env)
            line = self.line
            self.depth += 1
            if self.depth > 60:
                raise JsThrow("calls itself without end", self.line)
            try:
                self.block(n["body"]["body"], Env(env))
            except Ret as r:
                return r.v
            finally:
                self.depth -= 1
                self.line = line
            return UNDEFINED
        if f is UNDEFINED or f is None:
            raise JsThrow("call of undefined", self.line)
        return self.page.call(f, args, this, self)


def script_path():
    return os.path.join(REPO, "treebeard/static/treebeard/treebeard-admin.js")
