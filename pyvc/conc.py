"""Concrete side: evaluates the contracts on the real code (own process)."""

import argparse
import json
import math
import multiprocessing as mp
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

_UNITS = []


def sample(u, case, seed, i, values=None, jitter=None):
    """One evaluation.  Returns (status, clause, detail, log)."""
    import numpy as np

    from pyvc.env import ConcEnv, Mismatch, Reject, Violation

    rng = np.random.default_rng(seed + [i])
    env = ConcEnv(rng, case, values=values)
    try:
        with np.errstate(all="ignore"):
            u.fn(env)
    except Reject:
        return "reject", None, None, env.log
    except Violation as e:
        return "violation", e.clause, e.detail, env.log
    except Mismatch:
        raise
    except Exception as e:
        # raised by the code under contract where the contract calls it without env.call
        if isinstance(e, (AttributeError, TypeError, ImportError)) or not in_repo(e):
            raise
        return "violation", "no exception", f"{type(e).__name__}: {str(e)[:200]}", env.log
    return ("ok" if env.clauses else "empty"), None, None, env.log


def in_repo(e):
    """Raised below a function of the model that the contract called."""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get("PYVC_REPO", "/repo")
    inside = False
    for f, _ in traceback.walk_tb(e.__traceback__):
        fn = f.f_code.co_filename
        if fn.startswith(os.path.join(repo, "openamundsen")):
            inside = True
        elif fn.startswith(here):
            inside = False
    return inside


def _search(a):
    ui, ci, case, seed, start, budget, maxn = a
    u = _UNITS[ui]
    t0 = time.time()
    n = rej = 0
    hits = []
    i = start
    err = None
    sampled = None
    while time.time() - t0 < budget and n < maxn:
        try:
            st, cl, det, log = sample(u, case, [seed, ui, ci], i)
        except Exception as e:
            err = f"{type(e).__name__}: {e} " + traceback.format_exc()[-800:]
            break
        if st == "reject":
            rej += 1
        else:
            n += 1
            if sampled is None and st == "ok":
                sampled = log
        if st == "violation":
            hits.append(dict(ui=ui, ci=ci, unit=u.name, case=case, seed=[seed, ui, ci], i=i,
                             clause=cl, detail=det, inputs=log))
            if len(hits) >= 3:
                break
        i += 1
    return dict(ui=ui, ci=ci, unit=u.name, case=case, evaluated=n, rejected=rej, hits=hits, error=err,
                sample=sampled)


def clean(v):
    if v is None:
        return None
    return v


def main():
    global _UNITS
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--unit")
    ap.add_argument("--budget", type=float, default=15.0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--out")
    ap.add_argument("--models")
    ap.add_argument("--confirm")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from pyvc.symrun import load_contracts

    _UNITS = load_contracts(a.prop, False)
    byname = {u.name: k for k, u in enumerate(_UNITS)}

    if a.confirm:
        hits = json.load(open(a.confirm))
        out = []
        for h in hits:
            u = _UNITS[byname[h["unit"]]]
            try:
                st, cl, det, log = sample(u, h["case"], h["seed"], h["i"], values=h.get("values"))
            except Exception as e:
                st, cl, det = "error", None, f"{type(e).__name__}: {e}"
            out.append(dict(status=st, clause=cl, detail=det))
        json.dump(out, open(a.out, "w"))
        return

    hits = []
    errors = []
    results = []
    if a.models:
        for m in json.load(open(a.models)):
            ui = byname[m["unit"]]
            u = _UNITS[ui]
            vals = {
                k: (math.nan if isinstance(v, str) and v == "nan" else v)
                for k, v in m["model"].items()
            }
            try:
                st, cl, det, log = sample(u, m["case"], [0, 0, 0], 0, values=vals)
            except Exception as e:
                errors.append(f"{u.name}: {type(e).__name__}: {e}")
                continue
            if st == "violation":
                hits.append(dict(unit=u.name, case=m["case"], seed=[0, 0, 0], i=0, values=vals,
                                 clause=cl, detail=det, inputs=log, source="solver model"))
    tasks = []
    for ui, u in enumerate(_UNITS):
        if a.unit and u.name not in a.unit.split(","):
            continue
        if u.opts.get("conc", True) is False:
            continue
        cs = u.opts.get("conc_cases")
        cs = [c for c in u.case_list(a.tier)] if cs is None else cs
        for ci, c in enumerate(cs):
            tasks.append((ui, ci, c, u.opts.get("w", 1.0)))
    if tasks and a.budget > 0:
        tot = sum(t[3] for t in tasks)
        jobs = []
        reps = max(1, -(-a.jobs // len(tasks)))
        for ui, ci, c, w in tasks:
            share = a.budget * a.jobs * w / tot / reps
            share = max(share, min(1.0, a.budget))
            for r in range(reps):
                jobs.append((ui, ci, c, a.seed, a.start + r * 1000000, share, 10**7))
        with mp.get_context("fork").Pool(a.jobs) as pool:
            for r in pool.imap_unordered(_search, jobs, chunksize=1):
                results.append(r)
                hits.extend(r["hits"])
                if r["error"]:
                    errors.append(f"{r['unit']}: {r['error']}")
                if a.v:
                    print(r["unit"], r["case"], "evaluated", r["evaluated"], "rejected", r["rejected"],
                          "hits", [(h["clause"], h["detail"]) for h in r["hits"]], r["error"] or "")
    out = dict(
        hits=hits,
        errors=errors,
        evaluated=sum(r["evaluated"] for r in results),
        rejected=sum(r["rejected"] for r in results),
        units=[
            dict(unit=r["unit"], case=r["case"], evaluated=r["evaluated"], rejected=r["rejected"])
            for r in results
        ],
        samples=[dict(unit=r["unit"], inputs=r["sample"]) for r in results if r["sample"]][:2],
    )
    if a.out:
        json.dump(out, open(a.out, "w"), default=str)


if __name__ == "__main__":
    main()
