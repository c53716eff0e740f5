"""Running checks: distributing operations over processes, known findings, evidence."""
import copy
import json
import os
import re
import sys
import time
import traceback
from multiprocessing import get_context

from . import entries
from .entries import STATS
from .interp import CALLED
from .layout import NoColumn, Undecided
from .source import AnalysisBroken

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
DEADLINE = float(os.environ.get("SA_DEADLINE", "640" if TIER == "quick" else "3000"))
WORKERS = int(os.environ.get("SA_WORKERS", "8"))


def with_mti(op, layouts, n):
    """the layouts, and those with multi-table inheritance: only the operands are instances of the child model"""
    base = [v[5:] for v in getattr(op, "variant", ()) if v.startswith("base-")]
    for lay in layouts:
        if not base:
            yield lay
        if base or (getattr(op, "mti", True) and (TIER != "quick" or len(lay.rows) < n)):
            l2 = copy.copy(lay)
            l2.mti = {x for k, x in lay.env.items() if x in lay.rows and k not in base and k not in getattr(op, "base_operands", ())} | set(getattr(lay, "sel", ()))
            if getattr(op, "mti_some", False):
                l2.mti |= set(list(lay.rows)[::2])
            if base or l2.mti != set(lay.rows):
                yield l2


class Task:
    """one operation decided over its layouts"""

    def __init__(self, op, judge, cats, n):
        self.op, self.judge, self.cats, self.n = op, judge, cats, n

    def run(self, deadline):
        op = self.op
        out = {"name": op.name, "layouts": 0, "decided": 0, "paths": 0, "undecided": {}, "devs": [], "skipped": 0}
        seen = {}
        try:
            P = op.paths()
            p0 = P.n
            for lay in with_mti(op, op.layouts(self.n), self.n):
                if time.time() > deadline:
                    out["skipped"] += 1
                    break
                out["layouts"] += 1
                try:
                    tr, rp = P.on(lay)
                    ds = self.judge(op, lay, tr, rp)
                except NoColumn as u:
                    if not hasattr(op, "group"):
                        k = str(u)
                        out["undecided"][k] = out["undecided"].get(k, 0) + 1
                        continue
                    from .survey import Dev
                    loc = definition(getattr(op, "meth", None))
                    ds = [Dev(op.group, f"{op.name}|{op.group}|column", f"asks the database for the column {u}, which these models do not have", None, lay, loc)]
                except Undecided as u:
                    k = str(u)
                    out["undecided"][k] = out["undecided"].get(k, 0) + 1
                    if out["decided"] == 0 and sum(out["undecided"].values()) > 60:
                        break
                    continue
                except AnalysisBroken:
                    raise
                except Exception as e:  # an engine limit, never a verdict
                    k = "engine: " + type(e).__name__ + ": " + str(e)[:100]
                    if os.environ.get("SA_DEBUG"):
                        traceback.print_exc()
                    out["undecided"][k] = out["undecided"].get(k, 0) + 1
                    if sum(out["undecided"].values()) > 60 and out["decided"] == 0:
                        break
                    continue
                out["decided"] += 1
                for d in ds:
                    if self.cats is None or d.cat in self.cats:
                        if d.key in seen:
                            seen[d.key]["count"] += 1
                        else:
                            seen[d.key] = dev_json(d)
            out["paths"] = P.n - p0
        except AnalysisBroken as e:
            out["broken"] = str(e)
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            out["undecided"]["engine: " + type(e).__name__ + ": " + str(e)[:200]] = 1
        out["devs"] = list(seen.values())
        out["functions"] = sorted(STATS["functions"] | CALLED)
        return out


def definition(name):
    """file, line and name of the first function of that name"""
    import ast
    for m in entries.prog().modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return f"treebeard/{m.rel.split('treebeard/')[-1]}:{n.lineno} ({n.name})"
    return None


def dev_json(d):
    steps = []
    tr = d.tr
    if tr is not None:
        from .terms import show
        for a, b in tr.conds[:40]:
            try:
                steps.append(("" if b else "not ") + show(a))
            except Exception:
                pass
    eff = []
    if tr is not None:
        for e in tr.effects:
            if e.kind in entries.WRITES or e.kind in ("lock", "call", "refresh"):
                eff.append(f"{e.kind} at {e.where}")
    return {"key": d.key, "category": d.cat, "what": d.msg, "construct": d.loc or getattr(tr, "returned_at", None) or "treebeard/", "position": str(d.lay) if d.lay is not None else None,
            "path_conditions": steps, "effects_on_path": eff[:40], "count": 1}


class Rule:
    """a rule over the source: a function returning (devs, obligations, analysed)

    devs: list of dicts key/what/construct; obligations: number of sites decided;
    analysed: list of descriptions of the analysed constructs"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.op = self

    def run(self, deadline):
        out = {"name": self.name, "layouts": 0, "decided": 0, "paths": 0, "undecided": {}, "devs": [], "skipped": 0}
        try:
            devs, n, analysed = self.fn()
            out["decided"] = out["layouts"] = n
            out["analysed"] = analysed[:60]
            for d in devs:
                out["devs"].append({"key": f"{self.name}|{d['key']}", "category": "rule", "what": d["what"], "construct": d.get("construct"), "path_conditions": d.get("path", []), "count": 1})
        except AnalysisBroken as e:
            out["broken"] = str(e)
        except Undecided as u:
            out["undecided"][str(u)] = 1
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            out["undecided"]["engine: " + type(e).__name__ + ": " + str(e)[:200]] = 1
        out["functions"] = sorted(STATS["functions"] | CALLED)
        return out


_tasks = []
_deadline = 0


def _run(i):
    sys.setrecursionlimit(6000)
    return i, _tasks[i].run(_deadline)


def run_tasks(tasks, deadline):
    global _tasks, _deadline
    _tasks, _deadline = tasks, deadline
    res = [None] * len(tasks)
    if WORKERS <= 1 or len(tasks) <= 1:
        for i in range(len(tasks)):
            res[i] = _run(i)[1]
        return res
    entries.prog()  # parse once, share by fork
    ctx = get_context("fork")
    with ctx.Pool(min(WORKERS, len(tasks))) as pool:
        for i, r in pool.imap_unordered(_run, range(len(tasks)), chunksize=1):
            res[i] = r
    return res


KF = os.path.join(ROOT, "known_findings.txt")


def known(pid):
    out = {}
    try:
        for l in open(KF):
            m = re.match(r"KNOWN property=(\S+) key=(.+?) :: (.*)$", l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    except OSError:
        pass
    return out


def run_check(pid, meta, tasks):
    t0 = time.time()
    deadline = t0 + DEADLINE
    res = run_tasks(tasks, deadline)
    kf = known(pid)
    viol, kfs, broken = [], [], []
    fns = set()
    for r in res:
        fns.update(r.get("functions", []))
        if r.get("broken"):
            broken.append(f"{r['name']}: {r['broken']}")
        for d in r["devs"]:
            if d["key"] in kf:
                kfs.append((d["key"], kf[d["key"]]))
            else:
                viol.append(d)
    tot = {k: sum(r[k] for r in res) for k in ("layouts", "decided", "paths", "skipped")}
    und = {r["name"]: r["undecided"] for r in res if r["undecided"]}
    nund = sum(sum(u.values()) for u in und.values())
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    replay = None
    scaled = os.environ.get("SA_SCALED")
    if scaled:
        for d in viol:
            d["what"] += f" (with the number {', '.join(x.replace(':', ' of the code being ') for x in scaled.split(','))})"
    if viol:
        replay = os.path.join("evidence", f"{pid}.violations.json")
        with open(os.path.join(ROOT, replay), "w") as f:
            json.dump(viol, f, indent=1)
    if scaled and not viol:
        print(f"{pid} scaled {scaled}: {tot['decided']} decided of {tot['layouts']}, {time.time() - t0:.1f}s")
        return 0
    ev = evidence(pid, meta, res, tot, und, nund, fns, viol, kfs, broken, time.time() - t0)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, what in kfs:
        print(f"KNOWN-FINDING: property={pid} {what} [{k}]")
    print(f"{pid}: {len(tasks)} obligations groups, {tot['decided']} decided of {tot['layouts']} ({nund} undecided), {tot['paths']} paths, {len(fns)} functions, {time.time() - t0:.1f}s")
    for d in viol[:12]:
        print(f"  {d['construct']}: {d['key']}: {d['what']}" + (f" (position {d['position']})" if d.get("position") else ""))
    if viol:
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    if broken:
        for b in broken[:10]:
            print("ANALYSIS BROKEN:", b)
        return 2
    return 0


def evidence(pid, meta, res, tot, und, nund, fns, viol, kfs, broken, secs):
    analysed = []
    for r in res:
        analysed += r.get("analysed", [])
    return {
        "property": pid,
        "tier": TIER if TIER in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": {
            "thresholds": {str(v): sites[:20] for v, sites in entries.prog().thresholds().items()},
            "explanation": meta["technique"] + ". Rule: " + meta["rule"],
            "source_digest": entries.prog().digest(),
            "analysed_groups": len(res),
            "groups": [{"name": r["name"], "decided": r["decided"], "of": r["layouts"], "paths": r["paths"]} for r in res],
            "obligations_decided": tot["decided"],
            "obligations_undecided": nund,
            "undecided": und,
            "groups_cut_by_deadline": tot["skipped"],
            "distinct_paths": tot["paths"],
            "functions_analysed": sorted(fns),
            "constructs": analysed[:200],
            "known_findings": [k for k, _ in kfs],
            "analysis_broken": broken,
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(secs, 2),
        "violations": len(viol),
    }
