"""python3-vt -m vf.cli C07 [--tier quick|thorough]: decide one property on /repo's current source."""
import argparse
import json
import multiprocessing as mp
import os
import resource
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
sys.setrecursionlimit(20000)

TRUSTED = [
    "the engine in /verif/vf (AST interpreter, loop summaries, term normaliser), cross-checked on every run against CPython by the native comparison",
    "z3 as the back end, and the term normaliser of /verif/vf/terms.py for identities",
    "models of numpy/scipy operations in /verif/vf/snp.py and sarray.py (shapes, element formulas; FFT, DCT, windows and matrix inverse as their defining sums or as uninterpreted deterministic functions)",
    "floating-point arithmetic treated as real arithmetic, numpy integers as mathematical integers",
]

# contracts used at call sites, and the properties whose checks prove them of the callee's body
PROVED = {"bark_filter_banks": "C06, C08, C10", "mel_filter_banks": "C06, C07, C10", "inverse_mel_filter_banks": "C06, C11", "linear_filter_banks": "C06, C07, C10",
          "gammatone_filter_banks": "C06, C09, C10", "hz2bark": "C01, C02", "bark2hz": "C01, C02", "pre_emphasis": "C04", "__lpc_helper": "C20", "lpc2lpcc": "C21",
          "asymmetric_lowpass_filtering": "C22", "temporal_masking": "C22", "medium_time_power_calculation": "C22", "weight_smoothing": "C22", "mean_power_normalization": "C22",
          "asymmetric_noise_suppression_with_temporal_masking": "C22", "rasta_filter": "C23", "compute_difference": "C24", "compute_cmnd": "C24", "get_pitch": "C24",
          "compute_constant_qtransform": "C27"}


def contract_note(q):
    n = q.split(":")[-1]
    if n in PROVED:
        return "contract of %s used at its call sites; proved of its body under %s" % (q, PROVED[n])
    if n == "compute_gain":
        return "contract of %s used at its call sites: arbitrary zeros and non-negative gains (weaker than its body, which gammatone_rows executes)" % q
    return "assumed contract: " + q


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _theorem(i, prop, deadline, q):
    _limits()
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 << 20)

    def work():
        try:
            from . import run, harness
            run.load()
            th = harness.REGISTRY[prop][i]
            q.put((i, harness.run_theorem(th, deadline)))
        except MemoryError:
            q.put((i, {"status": "timeout", "reason": "memory limit"}))
        except BaseException as e:
            import traceback
            q.put((i, {"status": "error", "reason": "".join(traceback.format_exception(e))[-1500:]}))
    t = threading.Thread(target=work)
    t.start()
    t.join()


def _native(prop, tier, seed, budget, hints, out, q):
    try:
        from . import nat
        q.put(("native", nat.run(prop, tier, seed, budget, hints, out)))
    except BaseException as e:
        import traceback
        q.put(("native", {"cases": 0, "by": {}, "failure": {"property": prop, "check": "import", "case": None, "message": "the library cannot be loaded: " + "".join(traceback.format_exception(e))[-600:]}}))


def _run_native(prop, tier, seed, budget, hints, tmp):
    q = mp.Queue()
    out = os.path.join(tmp, "current-%s.json" % prop)
    p = mp.Process(target=_native, args=(prop, tier, seed, budget, hints, out, q))
    p.start()
    return p, q, out


def _finish_native(p, q, out, limit):
    import queue as qm
    t0 = time.time()
    while True:
        try:
            r = q.get(timeout=1.0)[1]
            p.join()
            return r
        except qm.Empty:
            pass
        if not p.is_alive():
            try:
                return q.get(timeout=2.0)[1]
            except qm.Empty:
                pass
        if not p.is_alive() or time.time() - t0 > limit:
            dead = not p.is_alive()
            if not dead:
                p.kill()
            p.join()
            try:
                d = json.load(open(out))
            except Exception:
                d = {}
            d["message"] = "the process running this case died" if dead else "the call did not return within the time limit"
            return {"cases": 0, "by": {}, "failure": d}


def run_theorems(prop, tier, jobs, deadline, total):
    """-> list of result dicts in registry order"""
    from . import run, harness
    run.load()
    ths = harness.REGISTRY.get(prop, [])
    idx = [i for i, th in enumerate(ths) if tier == "thorough" or th.tier == "quick"]
    res = {}
    q = mp.Queue()
    pending = list(idx)
    live = {}
    t0 = time.time()
    import queue as qm
    while pending or live:
        while pending and len(live) < jobs:
            i = pending.pop(0)
            left = max(5.0, total - (time.time() - t0))
            p = mp.Process(target=_theorem, args=(i, prop, min(deadline, left), q))
            p.start()
            live[i] = (p, time.time(), min(deadline, left))
        try:
            i, r = q.get(timeout=0.2)
            res[i] = r
            p = live.pop(i)[0]
            p.join(5)
            continue
        except qm.Empty:
            pass
        for i, (p, ts, dl) in list(live.items()):
            if not p.is_alive():
                try:
                    while True:
                        k, r = q.get(timeout=0.5)
                        res[k] = r
                        live.pop(k, None)
                except qm.Empty:
                    pass
                if i in live:
                    res[i] = {"status": "timeout", "reason": "worker ended (memory limit)"}
                    live.pop(i)
            elif time.time() - ts > dl + 20:
                p.kill()
                p.join()
                res[i] = {"status": "timeout", "reason": "time limit"}
                live.pop(i)
    out = []
    for i in idx:
        r = res[i]
        r.setdefault("theorem", ths[i].name)
        r.setdefault("obligations", [])
        r.setdefault("funcs", [])
        r.setdefault("contracts", [])
        r.setdefault("notes", [])
        r.setdefault("solver", {"queries": 0, "z3_s": 0, "by": {}})
        r.setdefault("wall", 0)
        r["doc"] = ths[i].doc
        out.append(r)
    return out


def hints_of(results):
    out = set()
    for r in results:
        for o in r["obligations"]:
            m = o.get("model")
            if o["status"] != "proved" and isinstance(m, dict):
                for k, v in m.items():
                    if isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) < 1e6:
                        out.add(float(v))
    return sorted(out)[:200]


def findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    try:
        return [f for f in json.load(open(p)) if isinstance(f, dict) and f["property"] == prop]
    except FileNotFoundError:
        return []


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VF_JOBS", "7")))
    a = ap.parse_args(argv)
    prop, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    tmp = os.path.join(HERE, "out")
    os.makedirs(tmp, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    nb = (45.0 if prop == "C26" else 30.0) if tier == "quick" else 420.0
    p, q, cur = _run_native(prop, tier, seed, nb, (), tmp)
    results = run_theorems(prop, tier, a.jobs, 150.0 if tier == "quick" else 600.0, 420.0 if tier == "quick" else 2400.0)
    nat = _finish_native(p, q, cur, nb + 120)
    bad = []        # failed obligations
    bounded = []    # theorems not decided
    for r in results:
        fs = [o for o in r["obligations"] if o["status"] != "proved"]
        if r["status"] in ("failed", "ok", "vacuous") or any(o["kind"] == "goal" and o["status"] == "refuted" for o in fs):
            for o in fs:
                bad.append((r, o))
        if r["status"] == "vacuous":
            bounded.append(r)
        if r["status"] in ("unsupported", "timeout", "error"):
            bounded.append(r)
    if (bad or bounded) and not nat.get("failure"):
        # search for a failing input with the verifier's counterexamples as parameter values
        b2 = 60.0 if tier == "quick" else 300.0
        p, q, cur = _run_native(prop, tier, seed + 7919, b2, tuple(hints_of(results)), tmp)
        n2 = _finish_native(p, q, cur, b2 + 120)
        nat["cases"] += n2["cases"]
        nat["failure"] = n2.get("failure")
    # known findings: identified by their own probe, never by suppressing a failure
    known = []
    for f in findings(prop):
        from . import probes
        if getattr(probes, f["probe"])():
            known.append(f["what"])
    obl = sum(o["n"] for r in results for o in r["obligations"])
    dis = sum(o["n"] for r in results for o in r["obligations"] if o["status"] == "proved")
    by = {}
    for r in results:
        for k, v in r["solver"].get("by", {}).items():
            by[k] = by.get(k, 0) + v
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": obl, "discharged": dis,
            "checker_cmd": "python3-vt -m vf.cli %s --tier %s" % (prop, tier),
            "trusted_base": TRUSTED + sorted({contract_note(c) for r in results for c in r["contracts"]}),
            "theorems": [{"name": r["theorem"], "states": r["doc"], "status": r["status"], "obligations": sum(o["n"] for o in r["obligations"]), "wall_s": r["wall"]} for r in results],
            "functions_under_contract": sorted({f for r in results for f in r["funcs"]}),
            "by_back_end": by, "solver_queries": sum(r["solver"].get("queries", 0) for r in results), "solver_s": round(sum(r["solver"].get("z3_s", 0) for r in results), 2),
            "bounded_only": [{"theorem": r["theorem"], "status": r["status"], "reason": r.get("reason")} for r in bounded],
            "native_cross_check": {"evaluations": nat["cases"], "by": nat.get("by", {})},
        },
        "assumptions": sorted({n for r in results for n in r["notes"]})[:60],
        "wall_s": 0.0, "violations": 0,
    }
    code = 0
    lines = ["KNOWN-FINDING: property=%s %s" % (prop, w) for w in known]
    if nat.get("failure"):
        path = os.path.join(tmp, "replay-%s.json" % prop)
        d = nat["failure"]
        d["replay"] = "cd /verif && python3-vt -m vf.nat replay %s" % path
        d["failed_obligations"] = [{"theorem": r["theorem"], "obligation": o["label"], "status": o["status"], "info": o.get("info"), "path": o.get("path"), "cond": o.get("cond")} for r, o in bad][:20]
        json.dump(d, open(path, "w"), indent=1, default=str)
        lines.append("FAILING-INPUT %s: %s" % (d.get("check"), str(d.get("message"))[:400]))
        for r, o in bad[:6]:
            lines.append("FAILED-OBLIGATION %s / %s (%s)" % (r["theorem"], o["label"], o["status"]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif bad:
        path = os.path.join(tmp, "replay-%s.json" % prop)
        json.dump({"property": prop, "failed_obligations": [{"theorem": r["theorem"], "states": r["doc"], "obligation": o["label"], "status": o["status"], "verifier_output": o.get("info"), "path": o.get("path"), "cond": o.get("cond")} for r, o in bad][:40]}, open(path, "w"), indent=1, default=str)
        for r, o in bad[:8]:
            lines.append("FAILED-OBLIGATION %s / %s (%s)" % (r["theorem"], o["label"], o["status"]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        code = 1
    else:
        lines.append("%s: %d of %d obligations discharged in %d theorems, %d native cases%s" % (prop, dis, obl, len(results), nat["cases"], "; BOUNDED ONLY: " + ", ".join("%s (%s: %s)" % (r["theorem"], r["status"], str(r.get("reason"))[:160]) for r in bounded) if bounded else ""))
    if not results and code == 0:
        print("no theorems for " + prop)
        code = 3
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["violations"] = 1 if code == 1 else 0
    if known:
        ev["coverage"]["known_findings"] = known
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("\n".join(lines))
    return code


if __name__ == "__main__":
    sys.exit(main())
