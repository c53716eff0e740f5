"""The checks: property id -> tasks."""
import os

from .atomicity import judge_alias, judge_atomic
from .capacity import capacity_ops, judge_capacity
from .bulk import dump_ops, judge_dump, judge_load, load_ops
from .creation import creation_ops, handler_ops, judge_creation, judge_legacy, legacy_mutations, legacy_queries, warned
from .deletes import *
from .adminurls import judge_url, url_ops
from .jscheck import rule_page
from .admincheck import AdminCap, admin_list_ops, admin_ops, admin_view_ops, judge_admin, judge_admin_cap, judge_list, judge_view
from .formcheck import form_init_ops, form_save_ops, judge_form, judge_init
from .repair import fix_ops, judge_fix, judge_problems, problem_ops
from .refusals import judge_position, position_ops
from .effects import judge_columns, judge_readonly, read_ops
from .labelgen import rule_label
from .pathvalues import rule_pathvalue
from .schema import rule_schema
from .texts import rule_texts
from .positional import rule_alphabet, rule_numconv
from .labels import judge_choice_labels, judge_label, judge_markup, label_ops, rule_templates
from .resultmodel import judge_model, model_ops
from .stale import judge_lock, stale_delete_ops, stale_ops
from .formfactory import factory_ops, judge_factory
from .syscheck import judge_syscheck, syscheck_ops
from .harness import Rule, TIER, Task

ALL = ("MP", "NS", "AL", "LT")
THOROUGH = TIER == "thorough"
SORTS = (("k1",), ("k1", "k2"), ("-k1",))
CHECKS = {}
DN = int(os.environ.get("SA_DN", "0"))  # development: smaller trees


def check(pid):
    def deco(fn):
        CHECKS[pid] = fn
        return fn
    return deco


def size(quick, thorough):
    return (thorough if THOROUGH else quick) - DN


def unsorted_tasks(backends, cats, kinds=("add_root", "add_child", "add_sibling", "move"), variants=((), ("cached",), ("proxy",)), n=None, n2=None):
    n = n or size(5, 6)
    n2 = n2 or size(4, 5)
    out = []
    for v in variants:
        for op in mutation_ops(backends, kinds, (False,), (v,)):
            out.append(Task(op, judge_mutation, cats, n if not v else n2))
    return out


def sorted_tasks(backends, cats, kinds=("add_root", "add_child", "add_sibling", "move"), sorts=SORTS, n=None, variants=((),)):
    n = n or size(4, 4)
    return [Task(op, judge_mutation, cats, n) for op in mutation_ops(backends, kinds, sorts, variants)]


def mixed_tasks(backends, cats, kinds=("add_child", "add_sibling", "move"), sorts=(False, ("k1",)), n=None):
    """operands of different classes: an instance of a multi-table child and an instance of its base, or the base manager"""
    out = []
    for v in (("base-target",), ("base-node",), ("base-manager",)):
        ks = [k for k in kinds if k == "move" or v[0] == "base-manager" or (v[0] == "base-target" and k != "move")]
        for op in mutation_ops(backends, ks, sorts, (v,)):
            out.append(Task(op, judge_mutation, cats, n or size(3, 4)))
    return out


def delete_tasks(backends, cats, variants=((), ("proxy",)), n=None):
    return [Task(op, judge_delete, cats, n or size(5, 6)) for op in delete_ops(backends, variants)]


def query_tasks(backends, groups, variants=((), ("cached",), ("proxy",)), n=None):
    out = []
    for v in variants:
        for so in (False, ("k1",)):
            if so and v:
                continue
            for op in query_ops(backends, (v,), so):
                if op.group in groups:
                    out.append(Task(op, judge_query, None, n or (size(6, 7) if not v and not so else size(5, 6))))
    return out


def encoding(b):
    def tasks():
        cats = {"enc"}
        t = unsorted_tasks((b,), cats, variants=((), ("cached",), ("proxy",)) + ((("mysql",),) if b == "MP" else ()))
        return t + sorted_tasks((b,), cats) + delete_tasks((b,), {"enc"}) + mixed_tasks((b,), cats)
    return tasks


class EncOnly:
    """restrict `enc` deviations to some kinds"""

    def __init__(self, judge, want):
        self.j, self.want = judge, want

    def __call__(self, *a):
        return [d for d in self.j(*a) if d.cat != "enc" or self.want(d.key.split("|")[2].split(":")[0])]


CHECKS["C01"] = encoding("MP")
CHECKS["C03"] = encoding("NS")
CHECKS["C04"] = encoding("AL")
CHECKS["C05"] = encoding("LT")


@check("C06")
def _():
    return unsorted_tasks(ALL, {"shape", "raise"}, variants=((), ("cached",), ("proxy",), ("mysql",))) + mixed_tasks(ALL, {"shape", "raise"}, sorts=(False,)) + flip_probe()


def flip_probe():
    out = []
    for op in mutation_ops(("LT",), ("add_sibling", "move"), (False,)):
        op.schemes = ("flip",)
        op.suffix = " labels A1,A10"
        out.append(Task(op, judge_mutation, {"shape"}, 4))
    return out


@check("C07")
def _():
    return sorted_tasks(ALL, {"shape", "sorted", "raise"}, variants=((), ("cached",))) + mixed_tasks(ALL, {"shape", "sorted", "raise"}, sorts=(("k1",),))


@check("C08")
def _():
    return delete_tasks(ALL, {"delete", "enc"}, variants=((), ("proxy",), ("mysql",)))


@check("C02")
def _():
    return [Task(op, judge_capacity, None, size(3, 4) if op.sorted else size(4, 5)) for op in capacity_ops()]


@check("C09")
def _():
    return [Task(op, judge_position, None, size(3, 4)) for op in position_ops(ALL)]


@check("C10")
def _():
    return unsorted_tasks(ALL, {"refusal"}, ("move",)) + sorted_tasks(ALL, {"refusal"}, ("move",), sorts=(("k1",),)) + mixed_tasks(ALL, {"refusal"}, ("move",))


@check("C12")
def _():
    b = ("MP", "NS", "LT")
    return unsorted_tasks(b, {"signal"}) + sorted_tasks(b, {"signal"}, sorts=(("k1",),)) + delete_tasks(b, {"signal"})


@check("C13")
def _():
    return unsorted_tasks(ALL, {"mem", "cache"}) + sorted_tasks(ALL, {"mem", "cache"}, sorts=(("k1",),), variants=((), ("cached",)))


@check("C14")
def _():
    return query_tasks(ALL, {"relation"})


@check("C15")
def _():
    return query_tasks(ALL, {"predicate"})


@check("C16")
def _():
    return query_tasks(ALL, {"listing", "count"})


@check("C17")
def _():
    return query_tasks(ALL, {"annotated"})


@check("C18")
def _():
    return [Task(op, judge_problems, None, size(4, 5)) for op in problem_ops()]


@check("C19")
def _():
    return [Task(op, judge_fix, None, size(4, 4) if op.sorted else size(4, 5)) for op in fix_ops()]


@check("C20")
def _():
    n = size(4, 5)
    out = [Task(op, judge_atomic, None, n if not op.sorted else 3) for v in ((), ("proxy",)) for op in mutation_ops(ALL, ("add_root", "add_child", "add_sibling", "move"), (False, ("k1",)) if not v else (False,), (v,))]
    out += [Task(op, judge_atomic, None, n) for op in delete_ops(ALL, ((), ("proxy",)))]
    out += [Task(op, judge_atomic, None, 3) for op in list(fix_ops()) + list(capacity_ops())]
    out += [Task(op, judge_atomic, None, 2) for op in load_ops(ALL, 3, 1) if op.items]
    return out


@check("C23")
def _():
    n, s = (5, 3) if THOROUGH else (4, 2)
    return [Task(op, judge_load, None, 2 if op.sorted else 3) for op in load_ops(ALL, n, s)] + [Task(op, judge_dump, None, size(4, 5)) for op in dump_ops(ALL)]


@check("C21")
def _():
    return [Task(op, judge_creation, None, size(3, 4)) for op in creation_ops(ALL)] + [Task(op, judge_creation, None, 3) for op in creation_ops(ALL, sortings=(False,), variants=(("proxy",),))]


@check("C30")
def _():
    out = [Task(op, warned(judge_mutation), {"shape", "raise", "enc", "sorted", "legacy"}, size(3, 4)) for op in legacy_mutations(ALL)]
    out += [Task(op, warned(judge_creation), None, size(3, 4)) for op in creation_ops(ALL, ("instance", "kwargs", "saved"), legacy=True)]
    out += [Task(op, warned(judge_mutation), {"shape", "raise", "enc", "sorted", "legacy"}, size(3, 4)) for op in handler_ops()]
    return out + [Task(op, warned(judge_legacy), None, size(4, 5)) for op in legacy_queries(ALL)]


@check("C24")
def _():
    return [Task(op, judge_form, None, size(4, 5) if not op.sorted else size(3, 4)) for op in form_save_ops(ALL)] + [Task(op, judge_init, {"initial"}, size(5, 6)) for op in form_init_ops(ALL) if op.instance]


@check("C25")
def _():
    return [Task(op, judge_init, {"choices"}, size(5, 6)) for op in form_init_ops(ALL)]


@check("C26")
def _():
    return [Task(op, judge_admin, {"perm"}, size(3, 4)) for op in admin_ops(ALL)] + [Task(op, judge_view, {"perm"}, size(3, 4)) for op in admin_view_ops(ALL) if op.what != "_changeform_view"] + [Task(op, judge_url, {"perm"}, size(2, 3)) for op in url_ops(ALL)]


@check("C27")
def _():
    out = [Task(op, judge_admin, {"move"}, size(4, 5) if not op.sorted else size(3, 4)) for op in admin_ops(ALL)]
    out += [Task(AdminCap("MP", r, so), judge_admin_cap, {"move"}, size(3, 4)) for r in ("child", "sibling") for so in (False, ("k1",))]
    return out + [Task(op, judge_view, {"atomic"}, 1) for op in admin_view_ops(("MP",)) if op.what == "_changeform_view"]


@check("C33")
def _():
    return [Task(op, judge_list, None, size(5, 6)) for op in admin_list_ops(ALL)] + [Task(op, judge_view, {"changelist"}, size(4, 5)) for op in admin_view_ops(ALL) if op.what != "_changeform_view"]


@check("C11")
def _():
    return [Task(op, judge_readonly, None, size(a, b)) for op, a, b in read_ops(ALL)]


@check("C35")
def _():
    out = [Task(op, judge_columns, None, size(3, 4)) for v in ((), ("proxy",)) for op in mutation_ops(ALL, sortings=(False, ("k1",)) if not v else (False,), variants=(v,))]
    out += [Task(op, judge_columns, None, size(4, 5)) for op in delete_ops(ALL)]
    return out + [Task(op, judge_columns, None, 2) for op in load_ops(ALL, 3, 1) if op.items]


@check("C22")
def _():
    cats = {"shape", "enc", "raise", "sorted"}
    out = [Task(op, judge_mutation, cats, size(3, 4)) for op in stale_ops(ALL)]
    out += [Task(op, judge_lock, None, size(3, 4)) for v in ((), ("proxy",)) for op in mutation_ops(("MP", "NS", "LT"), ("add_child",), (False, ("k1",)), (v,))]
    return out + [Task(op, judge_delete, None, size(3, 4)) for op in stale_delete_ops(ALL)]


@check("C28")
def _():
    out = [Task(op, judge_label, None, size(4, 5)) for op in label_ops(ALL)]
    out += [Task(op, judge_choice_labels, None, size(3, 4)) for op in form_init_ops(ALL)]
    out += [Task(op, judge_markup, None, size(3, 4)) for op in list(admin_ops(ALL)) + list(admin_list_ops(ALL))]
    return out + [Rule("templates", rule_templates)]


@check("C29")
def _():
    return [Task(op, judge_model, None, size(3, 4)) for op in model_ops(ALL)]


@check("C31")
def _():
    return [Task(op, judge_syscheck, None, 1) for op in syscheck_ops(ALL)]


@check("C32")
def _():
    return [Rule("NumConv", rule_numconv), Rule("alphabet", rule_alphabet)]


@check("C34")
def _():
    return [Rule("generate_label", rule_label)]


@check("C36")
def _():
    return [Task(op, judge_alias, None, size(4, 5)) for v in (("alias",), ("alias", "proxy")) for op in delete_ops(ALL, (v,))]


@check("C37")
def _():
    return [Rule("PathValue", rule_pathvalue)]


@check("C39")
def _():
    return [Task(op, judge_url, {"route"}, size(2, 3)) for op in url_ops(ALL)] + [Rule("page", rule_page)]


@check("C40")
def _():
    return [Rule("tables", rule_schema)]


@check("C41")
def _():
    return [Rule("texts", rule_texts)]


@check("C38")
def _():
    return [Task(op, judge_factory, None, 1) for op in factory_ops(ALL)]
