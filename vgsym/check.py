"""Runs the check of one property: vgsym.check CXX  |  vgsym.check --replay FILE"""
import faulthandler
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import time
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVID = os.path.join(VERIF, "evidence")


def _work(job):
    from . import core
    faulthandler.register(signal.SIGUSR1, all_threads=True)
    pid, idx, budget = job
    m = importlib.import_module(f"vgsym.props.{pid.lower()}")
    hs = m.harnesses(core.THOROUGH)
    name, fn, cfg = hs[idx][:3]
    opts = dict(hs[idx][3]) if len(hs[idx]) > 3 else {}
    opts.setdefault("budget", budget)
    try:
        r = core.Run(fn, cfg, name, **opts).explore()
    except Exception as e:          # noqa: BLE001
        import traceback
        r = core.Result(name)
        r.inconclusive.append(f"{name}: internal error: {type(e).__name__}: {e}: "
                              + traceback.format_exc()[-600:])
    return idx, r.pack()


def _all(jobs, nproc, names, core):
    """All jobs; once one has found a violation the others get little more time."""
    end = time.time() + 840
    got = {}
    with mp.get_context("fork").Pool(nproc) as pool:
        it = pool.imap_unordered(_work, jobs, chunksize=1)
        while len(got) < len(jobs):
            try:
                i, r = it.next(timeout=max(0.1, end - time.time()))
            except mp.TimeoutError:
                break
            got[i] = r
            if r["violations"]:
                end = min(end, time.time() + 40)
        pool.terminate()
    for i, n in enumerate(names):
        if i not in got:
            r = core.Result(n)
            r.inconclusive.append(f"{n}: not finished")
            got[i] = r.pack()
    return [got[i] for i in sorted(got)]


def findings():
    """known-findings.txt: `finding: property=<id> key=<harness>/<label> <text>` lines."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.startswith("finding:"):
                    d = {}
                    for tok in line.split()[1:3]:
                        k, _, v = tok.partition("=")
                        d[k] = v
                    d["text"] = " ".join(line.split()[3:])
                    out.append(d)
    return out


def run(pid):
    t0 = time.time()
    from . import core
    m = importlib.import_module(f"vgsym.props.{pid.lower()}")
    hs = m.harnesses(core.THOROUGH)
    budget = 700 if core.THOROUGH else 400
    jobs = [(pid, i, budget) for i in range(len(hs))]
    nproc = min(len(jobs), int(os.environ.get("VG_JOBS", "8")), os.cpu_count() or 1)
    if nproc > 1:
        rs = _all(jobs, nproc, [h[0] for h in hs], core)
    else:
        rs = [_work(j)[1] for j in jobs]
    known = [k for k in findings() if k.get("property") == pid]
    viol, printed = [], []
    for r in rs:
        for v in r["violations"]:
            key = f"{v['harness']}/{v['label']}".replace(" ", "_")
            hit = [k for k in known if k.get("key") == key]
            if hit:
                printed.append(f"KNOWN-FINDING: property={pid} {hit[0]['text']}")
            else:
                viol.append(v)
    inc = [x for r in rs for x in r["inconclusive"]]
    tot = lambda k: sum(r[k] for r in rs)        # noqa: E731
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    for k, v in enumerate(viol):
        path = os.path.join(rdir, f"{pid}-{k}.json")
        with open(path, "w") as f:
            json.dump(dict(v, property=pid), f, indent=1)
        v["path"] = path
    bounds = m.BOUNDS
    ev = {
        "property": pid, "tier": core.TIER, "seed": core.SEED, "level": "other",
        "coverage": {
            "explanation": "Symbolic execution of the sources under /repo (re-read on this run) "
                           "over real-valued inputs; every assertion is decided by z3 for all "
                           "inputs of the path within the stated bounds.",
            "functions_encoded": sorted({f for r in rs for f in r["functions"]}),
            "bounds": bounds,
            "harnesses": len(rs),
            "paths": tot("paths"),
            "obligations_queried": tot("queries"),
            "obligations_discharged": tot("discharged"),
            "feasibility_queries": tot("feasibility"),
            "solver_s": round(tot("solver_s"), 3),
            "reachability_witnesses_replayed_on_real_code": tot("witnesses"),
            "encodings_matching_real_code": tot("validated"),
            "paths_without_witness": tot("unvalidated"),
            "loop_cuts": sorted({c for r in rs for c in r["cuts"]}),
            "inconclusive": inc,
            "per_harness": [{"name": r["name"], "paths": r["paths"], "queries": r["queries"],
                             "wall_s": round(r["wall"], 2)} for r in rs],
            "rounding_mismatches": [x for r in rs for x in r["mismatch"]][:6],
            "samples": [s for r in rs for s in r["samples"]][:6],
        },
        "assumptions": ["exact real arithmetic stands for floating point (rounding is outside the "
                        "claim)", "float literals are read as decimals",
                        "numpy/scipy linear algebra is replaced by its documented contract"]
        + list(getattr(m, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for line in sorted(set(printed)):
        print(line)
    print(f"{pid}: {len(rs)} harnesses, {tot('paths')} paths, {tot("discharged")} "
          f"obligations discharged, {tot('validated')} witnesses replayed, "
          f"{time.time() - t0:.1f}s")
    if viol:
        for v in viol:
            print(f"  {v['harness']}: {v['label']}: {v['message']}")
            print(f"VIOLATION property={pid} replay={v['path']}")
        return 1
    if inc:
        for x in inc[:10]:
            print("  INCONCLUSIVE", x)
        return 2
    if any(r["witnesses"] == 0 for r in rs):
        for r in rs:
            if r["witnesses"] == 0:
                print("  INCONCLUSIVE", r["name"], ": no reachability witness")
        return 2
    return 0


def replay(path):
    from . import core, loader, nps
    with open(path) as f:
        v = json.load(f)
    pid = v["property"]
    m = importlib.import_module(f"vgsym.props.{pid.lower()}")
    hs = m.harnesses(True) + m.harnesses(False)
    for h in hs:
        if h[0] == v["harness"]:
            opts = h[3] if len(h) > 3 else {}
            w = loader.RealWorld(nps.RngEnv(None, None, None), opts.get("stubs"))
            vals = {k: float(Fraction(x)) for k, x in v["inputs"].items()}
            fails, _, err = core.concrete_run(h[1], h[2], vals, w)
            print("inputs:", vals)
            print("failures:", fails, "error:", err)
            return 1 if fails or err not in (None, "assume") else 0
    print("no such harness")
    return 2


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    return run(sys.argv[1])


if __name__ == "__main__":
    sys.exit(main())
