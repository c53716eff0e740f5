"""The system check of the default manager."""
import ast

from .formcheck import *
from .source import AnalysisBroken, ClassInfo

GOOD = ("its own manager", "a subclass of its own manager")
MANAGERS = {"MP": "MP_NodeManager", "NS": "NS_NodeManager", "AL": "AL_NodeManager", "LT": "LT_NodeManager"}


class SysCheck:
    kind = "check"
    sorted = False
    schemes = (False,)
    mti = False

    def __init__(self, backend, mgr, variant=()):
        self.backend, self.mgr, self.variant = backend, mgr, variant

    @property
    def name(self):
        return f"{BACKENDS[self.backend]}.check() with {self.mgr} as default manager" + "".join(" " + v for v in self.variant)

    def paths(self):
        def prepare(I, M, K):
            P = I.prog
            own = P.find_class(MANAGERS[self.backend])
            other = P.find_class(MANAGERS["NS" if self.backend == "MP" else "MP"])
            base = P.find_class("NodeManager")
            if None in (own, other, base):
                raise AnalysisBroken("manager class not found")
            ci = {"its own manager": own, "a subclass of its own manager": None, "a manager unrelated to trees": None, "the manager of another tree type": other, "the abstract tree manager": base}[self.mgr]
            if self.mgr == "a subclass of its own manager":
                ci = ClassInfo(ast.parse(f"class UserManager({own.name}): pass").body[0], own.module)
            elif ci is None:
                ci = ClassInfo(ast.parse("class UserManager: pass").body[0], own.module)
            I.default_mgr = Inst(ci, {})
            plain = ClassInfo(ast.parse("class Manager: pass").body[0], own.module)
            I.plain_mgr = Inst(plain, {})
            # the model has a second manager, of the opposite kind
            I.other_mgr = Inst(plain if self.mgr in GOOD else own, {})
            I.base_errors = [T("base_error")]
            return I.getattr(M, "check"), [], {}, {}
        cfg = {"proxy": True} if "proxy" in self.variant else {}
        return custom(("syscheck", self.name), self.name, self.backend, prepare, **cfg)

    def layouts(self, n):
        yield Layout(self.backend, (), {}, flags=self.variant)


def judge_syscheck(op, lay, tr, rp):
    out = []

    def dev(key, msg):
        out.append(Dev("check", f"{op.name}|check|{key}", msg, tr, lay, outcome_loc(tr)))
    if tr.outcome[0] == "raise":
        dev("raise", f"raises {exc_name(tr.outcome[1])}")
        return out
    v = tr.outcome[1]
    if not isinstance(v, Lst) or not all(isinstance(x, T) for x in v.items):
        raise Undecided("result of check()")
    ids = []
    for x in v.items:
        if x.op == "base_error":
            ids.append("django")
        else:
            if x.op != "checkmsg":
                raise Undecided("message of check()")
            d = dict(x.args[2])
            ids.append((x.args[0], cval(d["id"]) if "id" in d and is_const(d["id"]) else None))
    if "django" not in ids:
        dev("lost", "the errors Django itself found are lost")
    mine = [x for x in ids if x != "django"]
    want = [] if op.mgr in GOOD else [("Error", "treebeard.E001")]
    if mine != want:
        dev("missing" if want and not mine else "wrong", f"reports {mine}, must report {want}")
    return out


def syscheck_ops(backends=("MP", "NS", "AL", "LT")):
    for b in backends:
        for m in ("its own manager", "a subclass of its own manager", "a manager unrelated to trees", "the manager of another tree type", "the abstract tree manager"):
            for v in ((), ("proxy",)):
                yield SysCheck(b, m, v)
