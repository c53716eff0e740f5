"""What generate_label guarantees about the label it returns, on every path."""
from .entries import count_trace, prog
from .interp import UNDEF, Config, Interp
from .source import AnalysisBroken, FuncInfo
from .terms import *
from .values import *


class GenInterp(Interp):
    def primitive(self, info, args, kwargs):
        if info.name == "generate_label":
            return UNDEF  # inlined here, modelled everywhere else
        return super().primitive(info, args, kwargs)


def find_function(name):
    for m in prog().modules.values():
        f = m.names.get(name)
        if isinstance(f, FuncInfo) and f.module is m:
            return f
    raise AnalysisBroken(f"function {name} not found")


def lt(conds, a, b):
    """the path establishes a < b"""
    if any(c.op == "slt" and c.args == (a, b) and v for c, v in conds):
        return True
    differ = any(c.op == "eq" and set(c.args) == {a, b} and not v for c, v in conds)
    return differ and any(c.op == "slt" and c.args == (b, a) and not v for c, v in conds)


def notin(conds, x, s):
    """True: the path establishes that x is not in s; None: x was looked for in something made of s"""
    if any(c.op == "in" and c.args[0] is x and c.args[1] is s and not v for c, v in conds):
        return True
    return None if any(c.op == "in" and c.args[0] is x and c.args[1] is not s and not v for c, v in conds) else False


def impossible(conds, given):
    """None for a neighbour that is given"""
    return any(c.op == "isnull" and v and c.args[0] in given for c, v in conds)


def rule_label():
    """on every path that returns a label: it was compared with `before`, `after` and `skip` and lies strictly between, unused"""
    fi = find_function("generate_label")
    devs, n, seen, und = [], 0, [], 0
    for b, a in ((0, 0), (1, 0), (0, 1), (1, 1)):
        I = GenInterp(prog(), Config())
        skip, before, after = (T("param", x) for x in ("skip", "before", "after"))

        def setup(I):
            return Fn(fi, None), [], {"skip": skip, "before": before if b else NONE, "after": after if a else NONE}, {}
        traces = I.explore("generate_label", setup)
        which = f"before {'given' if b else 'absent'}, after {'given' if a else 'absent'}"
        rets = [t for t in traces if t.outcome[0] == "return" and not impossible(t.conds, [x for x, g in ((before, b), (after, a)) if g])]
        if not rets:
            devs.append({"key": f"none|{b}{a}", "what": f"no path returns a label ({which})", "construct": f"{fi.module.rel} (generate_label)"})
        for t in traces:
            count_trace(t)
        for t in rets:
            n += 1
            v = t.outcome[1]
            # an empty string is as good as none
            given_b = b and (T("truth", before), False) not in [(c, r) for c, r in t.conds]
            given_a = a and (T("truth", after), False) not in [(c, r) for c, r in t.conds]
            want = [("used", notin(t.conds, v, skip), "is not known to be unused (not tested against `skip`)")]
            if given_b:
                want.append(("before", lt(t.conds, v, before), "is not known to sort before `before`"))
            if given_a:
                want.append(("after", lt(t.conds, after, v), "is not known to sort after `after`"))
            if not isinstance(v, T) or v.op in ("top", "phi"):
                und += 1
                continue
            for k, ok, msg in want:
                if ok is None:
                    und += 1
                elif not ok and not any(d["key"] == k for d in devs):
                    devs.append({"key": k, "what": f"a returned label {msg} on a path with {which}", "construct": f"{fi.module.rel} (generate_label)",
                                 "path": [("" if r else "not ") + show(c)[:160] for c, r in t.conds]})
        seen.append(f"generate_label, {which}: {len(traces)} paths, {len(rets)} return a label")
    if und and not devs:
        raise Undecided("the returned label is not a term, or is looked for in a set that is not known")
    return devs, n, seen


from .layout import Undecided  # noqa: E402
