"""Symbolic side: discharges the obligations of a property (own process)."""

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import sys
import time
import traceback

os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def load_contracts(prop, symbolic):
    import contracts
    from pyvc import load

    if symbolic:
        from contracts import loopspecs

        load.load_symbolic(loopspecs.CUT)
    else:
        load.load_concrete()
    from pyvc.unit import UNITS

    for m in pkgutil.iter_modules(contracts.__path__):
        if m.name.startswith("c_"):
            try:
                importlib.import_module(f"contracts.{m.name}")
            except Exception as e:
                print(f"contracts/{m.name}.py does not fit the code: {type(e).__name__}: {e}")
    return UNITS.get(prop, [])


def run_case(u, case, tier):
    from pyvc import core
    from pyvc.env import SymEnv

    o = u.opts
    scale = 1 if tier == "quick" else 4
    ex = core.Explorer(
        feas_ms=o.get("feas_ms", 300),
        goal_ms=o.get("goal_ms", 5000) * scale,
        max_paths=o.get("max_paths", 3000) * scale,
        max_s=o.get("max_s", 150) * scale,
        stop_on_refuted=8,
    )
    core.STATS = core.Stats()

    def one(c):
        env = SymEnv(c, case)
        u.fn(env)

    t = time.time()
    err = None
    try:
        ex.run(one)
    except Exception as e:  # contract or engine bug
        err = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]
    by = {}
    for ob in ex.obs:
        if ob.status == "discharged":
            by[ob.backend] = by.get(ob.backend, 0) + 1
    bad = [ob.as_dict() for ob in ex.obs if ob.status != "discharged"]
    names = sorted({ob.name for ob in ex.obs})
    return dict(
        unit=u.name,
        case=case,
        paths=ex.paths,
        reached=ex.reached,
        obligations=len(ex.obs),
        discharged=sum(by.values()),
        clauses=names,
        by_backend=by,
        bad=bad[:20],
        nbad=len(bad),
        errors=ex.errors[:5],
        exc_models=[m for m in ex.exc_models if m][:10],
        crash=err,
        incomplete=ex.incomplete,
        notes=sorted(ex.notes),
        solver_s=round(core.STATS.solver_s, 3),
        queries=core.STATS.queries,
        wall_s=round(time.time() - t, 3),
    )


def _task(a):
    ui, ci, case, tier = a
    u = _UNITS[ui]
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        r = run_case(u, case, tier)
    except BaseException as e:
        r = dict(
            unit=u.name, case=case, paths=0, reached=0, obligations=0, discharged=0, clauses=[],
            by_backend={}, bad=[], nbad=0, errors=[], exc_models=[], notes=[], solver_s=0, queries=0,
            wall_s=0, incomplete="crash", crash=f"{type(e).__name__}: {e}",
        )
    r["ui"], r["ci"] = ui, ci
    return r


_UNITS = []


def main():
    global _UNITS
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--unit")
    ap.add_argument("--out")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--fallback", action="store_true")
    ap.add_argument("--deadline", type=float, default=3600)
    a = ap.parse_args()
    t0 = time.time()
    _UNITS = load_contracts(a.prop, True)
    tasks = []
    for ui, u in enumerate(_UNITS):
        if a.unit and u.name not in a.unit.split(","):
            continue
        if u.opts.get("sym", True) is False:
            continue
        cases = u.opts.get("fallback", []) if a.fallback else u.case_list(a.tier)
        for ci, c in enumerate(cases):
            tasks.append((ui, ci, c, a.tier))
    tasks.sort(key=lambda t: -_UNITS[t[0]].opts.get("cost", 1))
    res = []
    with mp.get_context("fork").Pool(a.jobs, maxtasksperchild=4) as pool:
        it = pool.imap_unordered(_task, tasks, chunksize=1)
        while True:
            try:
                r = it.next(timeout=max(1.0, t0 + a.deadline - time.time()))
            except StopIteration:
                break
            except mp.TimeoutError:
                break
            res.append(r)
            if a.v:
                print(
                    f"{r['unit']:34s} {str(r['case'])[:60]:60s} paths={r['paths']} reached={r['reached']}"
                    f" obl={r['discharged']}/{r['obligations']} {r['wall_s']}s"
                    f" {r['incomplete'] or ''} {r['by_backend']}"
                )
                for b in r["bad"][:1]:
                    print("    BAD", b["status"], b["name"], b["detail"][:300], b["model"])
                for e in r["errors"][:1]:
                    print("    ERR", e)
                if r["crash"]:
                    print("    CRASH", r["crash"][:1200])
                sys.stdout.flush()
        pool.terminate()
    done = {(r["ui"], r["ci"]) for r in res}
    for ui, ci, c, _ in tasks:
        if (ui, ci) not in done:
            res.append(dict(
                unit=_UNITS[ui].name, case=c, paths=0, reached=0, obligations=0, discharged=0, clauses=[],
                by_backend={}, bad=[], nbad=0, errors=[], exc_models=[], notes=[], solver_s=0, queries=0,
                wall_s=0, incomplete="not finished within the time limit", crash=None))
    out = dict(results=res, wall_s=time.time() - t0, functions={u.name: u.functions for u in _UNITS})
    if a.out:
        with open(a.out, "w") as fh:
            json.dump(out, fh, default=str)


if __name__ == "__main__":
    main()
