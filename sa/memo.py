"""Results that are remembered between calls: nothing remembered may outlive what it was computed from.

A read operation that stores something computed from rows where later calls find it (on the node object, on the
manager, in a class or module variable, behind functools.cache) answers for the tree as it was then.  What is kept
on the node object is judged against the operations that change the tree: they must drop it or set it anew.
"""
import ast

from .entries import prog, summarise
from .interp import *
from .layout import Undecided
from .source import ClassInfo

KNOWN_KINDS = ("parent", "depth")  # kinds whose value judge_memory knows
CONST_ATTRS = {"pk", "id", "_state"}


def deps(v, out=None, seen=None):
    """the attributes of rows and the query results a value is computed from"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if isinstance(v, T):
        if v in seen:
            return out
        seen.add(v)
        if v.op == "attr" and len(v.args) == 2:
            if v.args[1] not in CONST_ATTRS:
                out.add(v)
            if isinstance(v.args[0], T) and v.args[0].op not in ("param", "new"):
                out.add("query")
            return out
        for a in v.args:
            deps(a, out, seen)
    elif isinstance(v, QS):
        out.add("query")
    elif isinstance(v, Row):
        if v.rowid.op != "param":
            out.add("query")
    elif isinstance(v, Many):
        deps(v.value, out, seen)
        deps(v.src, out, seen)
    elif isinstance(v, Lst):
        for i in v.items:
            deps(i, out, seen)
    elif isinstance(v, Dct):
        for e in v.entries:
            deps(e[0], out, seen)
            deps(e[1], out, seen)
    elif isinstance(v, (tuple, list, frozenset, set)):
        for i in v:
            deps(i, out, seen)
    return out


def under_deps(conds):
    out = set()
    for c in conds:
        deps(c[0] if isinstance(c, tuple) else c, out)
    return out


def outlives(e, key, value, queries, conds, fixed=()):
    """what the remembered value depends on and the key does not determine"""
    if any(isinstance(x, Inst) and x.ci is not None and not (x.ci.module is not None and any(prog().is_kind(x.ci, k) for k in ("Manager", "ModelAdmin"))) for x in key):
        return set()  # found again only with the same short-lived object
    d = deps(value)
    if e.kind == "memo" and not key and isinstance(value, tuple) and any(isinstance(x, (Inst, Row)) for x in value):
        d.add("argument")  # what one call was given or made is there in the next
    if isinstance(value, T) and is_const(value):
        d |= under_deps(conds)
    if queries and (not isinstance(value, T) or not is_const(value)):
        d.add("query")
    return d - deps(tuple(x for x in key if not isinstance(x, Row))) - set(fixed)


def memos(tr):
    """(where, place, object name, attribute) of everything a path leaves behind that depends on rows"""
    r = getattr(tr, "memos_", None)
    if r is not None:
        return r
    r = []
    rows = {id(o): n for n, o in tr.params.items() if isinstance(o, Row)}
    absent = set()  # public attributes that were looked for and not there
    for e in tr.effects:
        conds = tr.conds[:e.nconds]
        if e.kind == "memo":
            if outlives(e, e.key, e.value, e.queries, e.under):
                r.append((e.where, e.where_kept, None, None))
        elif e.kind == "setitem" and getattr(e.container, "shared", None):
            if outlives(e, (e.key,), e.value, (), conds):
                r.append((e.where, f"the shared {e.container.shared}", None, None))
        elif e.kind == "absent":
            absent.add((id(e.obj), e.attr))
        elif e.kind == "setattr" and isinstance(e.attr, str) and (e.attr in prog().loaded_attrs() or getattr(e, "keep", False)):
            o = e.obj
            if isinstance(o, Row):
                if id(o) in rows and (e.attr.startswith("_") and e.attr in prog().read_first() or (id(o), e.attr) in absent) and not e.attr.startswith("_state") and not any(k in e.attr for k in KNOWN_KINDS):
                    r.append((e.where, f"attribute {e.attr} of the node object", rows[id(o)], e.attr))
            elif isinstance(o, Inst) and o.ci is not None and o.ci.module is not None and prog().is_kind(o.ci, "Manager"):
                if outlives(e, (), e.value, (), conds):
                    r.append((e.where, f"attribute {e.attr} of the manager", None, None))
            elif isinstance(o, (Cls, ModelV)):
                if outlives(e, (), e.value, (), conds):
                    r.append((e.where, f"attribute {e.attr} of the class", None, None))
    tr.memos_ = r
    return r


_cleared = {}


def cleared(backend, name):
    """do add_child and move drop attribute `name` of the objects they are given (or set it anew)?"""
    k = (backend, name)
    if k not in _cleared:
        bad = []
        for meth, spec in (("add_child", ["target", ("new", "new")]), ("move", ["node", "target", ("const", "first-child")])):
            for t in summarise(backend, meth, spec):
                if t.outcome[0] != "return":
                    continue
                for pn in ("target", "node"):
                    o = t.params.get(pn)
                    if isinstance(o, Row) and name not in o.dropped and name not in o.attrs:
                        bad.append((meth, pn))
        _cleared[k] = bad[:1]
    return _cleared[k]


def memo_devs(op, tr):
    """[(where, message)] of one path of a read operation"""
    out = []
    for where, place, obj, attr in memos(tr):
        if obj is not None:
            b = cleared(op.backend, attr)
            if b:
                out.append((where, f"the result is kept in {place}, and {b[0][0]} leaves it there: later calls answer for the old tree"))
        else:
            out.append((where, f"the result is kept in {place}: later calls answer for the old tree"))
    return out


def left_behind(tr):
    """[(where, message)] of what an operation without a node of its own keeps for later calls"""
    return [(where, f"what the operation computes is kept in {place}: later calls work with what this one left there") for where, place, obj, attr in memos(tr) if obj is None]


def shared_state(tr):
    """[(where, message)]: what one request leaves behind in objects that all requests share"""
    out = []
    for e in tr.effects:
        if e.kind == "setattr" and isinstance(e.attr, str) and (e.attr in prog().loaded_attrs() or getattr(e, "keep", False)):
            o = e.obj
            if isinstance(o, Inst) and o.ci is not None and o.ci.module is not None and prog().is_kind(o.ci, "ModelAdmin") or isinstance(o, (Cls, ModelV)):
                out.append((e.where, f"attribute {e.attr} of the {'admin' if isinstance(o, Inst) else 'class'}, which all requests share, is set while a request is answered"))
        elif e.kind == "setitem" and getattr(e.container, "shared", None):
            if outlives(e, (e.key,), e.value, (), tr.conds[:e.nconds]):
                out.append((e.where, f"the shared {e.container.shared} is changed while a request is answered"))
        elif e.kind == "memo":
            if outlives(e, e.key, e.value, e.queries, e.under):
                out.append((e.where, f"what a request reads is kept in {e.where_kept}"))
    return out
