#!/usr/bin/env python3
"""python3 sa/run.py C01 [C02 ...]: decide properties on the current source of /repo"""
import os
import re
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(6000)
os.environ.setdefault("PYTHONHASHSEED", "0")

from sa.checks import CHECKS  # noqa
from sa import scaling  # noqa
from sa.entries import prog  # noqa
from sa.harness import TIER, run_check  # noqa
from sa.props import PROPS  # noqa


EXACT = {"C02", "C31", "C32", "C34", "C37", "C38", "C39", "C40", "C41"}  # not about the size of a tree


def scaled(pid, t0):
    """decide it again with the large numbers of the code made small (scaling.py)"""
    values = prog().thresholds()
    if not values or os.environ.get("SA_SCALED"):
        return 0
    limit = 800 if TIER == "quick" else 3300
    for t in (1, 2):
        left = limit - (time.time() - t0)
        if left < 20:
            break
        m = ",".join(f"{v}:{s}" for v, s in scaling.mapping(values, t).items())
        env = dict(os.environ, SA_SCALED=m, SA_DEADLINE=str(left / (3 - t) - 10))
        r = subprocess.run([sys.executable, os.path.abspath(__file__), pid], env=env, capture_output=True, text=True)
        out = [l for l in r.stdout.splitlines() if not l.startswith("KNOWN-FINDING")]
        if r.returncode == 1 and any(l.startswith("VIOLATION") for l in out):
            print("\n".join(out))
            return 1
        print("\n".join(l for l in out if " scaled " in l))
    return 0


def main():
    rc = 0
    ids = sys.argv[1:] or sorted(CHECKS)
    for pid in ids:
        tasks = CHECKS[pid]()
        if os.environ.get("SA_FILTER"):  # development: part of the groups
            tasks = [t for t in tasks if re.search(os.environ["SA_FILTER"], getattr(t, "name", None) or t.op.name)]
            if not tasks:
                continue
        t0 = time.time()
        one = run_check(pid, PROPS[pid], tasks)
        if one == 0 and pid not in EXACT:
            one = scaled(pid, t0)
        rc = max(rc, one)
    return rc


if __name__ == "__main__":
    sys.exit(main())
