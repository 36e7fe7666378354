"""Runs the native cross-check of one property; used in a child process by the check."""
import json
import os
import sys
import time


def load():
    from .native import base
    base.load_spafe()
    from .native import nat1, nat2, nat3   # noqa
    return base


def run(prop, tier, seed, budget, hints=(), out=None):
    """-> {"cases": n, "by": {...}, "failure": None | {...}}"""
    base = load()
    import numpy as np
    checks = base.CHECKS.get(prop, [])
    res = {"cases": 0, "by": {}, "failure": None}
    tot = sum(c.weight for c in checks) or 1
    t_all = time.time()
    for ci, c in enumerate(checks):
        n = 0
        t0 = time.time()
        lim = budget * c.weight / tot
        rounds = 12 if tier == "quick" else 400
        done = False
        for k in range(rounds):
            g = base.Gen(seed + k, tier, hints, ci)
            for case in c.gen(g):
                if case is None:
                    continue
                if out:
                    with open(out, "w") as f:
                        json.dump({"property": prop, "check": c.name, "case": case}, f)
                try:
                    msg = c.fn(case)
                except Exception as e:
                    import traceback
                    msg = "raises %s: %s (%s)" % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3].strip())
                n += 1
                if msg:
                    res["failure"] = {"property": prop, "check": c.name, "case": case, "message": msg}
                    res["by"][c.name] = n
                    res["cases"] += n
                    return res
                if time.time() - t0 > lim:
                    done = True
                    break
            if done:
                break
        res["by"][c.name] = n
        res["cases"] += n
    res["wall"] = round(time.time() - t_all, 2)
    return res


def replay(path):
    """run one recorded case against the real code -> message or None"""
    base = load()
    d = json.load(open(path))
    for c in base.CHECKS[d["property"]]:
        if c.name == d["check"]:
            try:
                return c.fn(d["case"])
            except Exception as e:
                return "raises %s: %s" % (type(e).__name__, e)
    return None


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        m = replay(sys.argv[2])
        print(m or "no failure")
        sys.exit(1 if m else 0)
    prop, tier, seed, budget = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
    print(json.dumps(run(prop, tier, seed, budget), indent=1))
