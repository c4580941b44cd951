"""
Check of one property:  python -m pyvc.check <property> <quick|thorough>

Exit 0: every obligation generated from /repo's current source is discharged
(or, where stated in the evidence, a labelled bounded stand-in holds).
Exit 1 with a VIOLATION line otherwise.
"""

import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

TRUSTED = [
    "CPython 3.12 and numpy execute the code under verification; numpy's element-wise operations "
    "act on each pixel separately",
    "pyvc (the VC generator in /verif/pyvc) and the solvers z3 / cvc5",
    "numba compiles the decorated functions faithfully (obligations are generated from the Python "
    "source with NUMBA_DISABLE_JIT=1)",
]
ASSUME = [
    "machine arithmetic treated as real arithmetic plus NaN/infinities (no rounding, no overflow); "
    "runtime validation of the same contracts on float64 runs alongside",
    "transcendental functions known only through stated axioms (sign, monotonicity, range, special "
    "points, inverse pairs)",
    "requires clauses of the contracts (value ranges of inputs, see contracts/)",
]


def env_for(jit, tmp):
    e = dict(os.environ)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONPATH"] = ROOT
    e["NUMBA_CACHE_DIR"] = os.path.join(tmp, "numba")
    e["OMP_NUM_THREADS"] = "1"
    e["PYTHONWARNINGS"] = "ignore"
    e["PYTHONHASHSEED"] = "0"
    if jit:
        e.pop("NUMBA_DISABLE_JIT", None)
    else:
        e["NUMBA_DISABLE_JIT"] = "1"
    return e


def run_quiet(*a, **k):
    try:
        subprocess.run(*a, **k)
    except subprocess.TimeoutExpired:
        pass


def conc(prop, tmp, tag, timeout, jit=False, **kw):
    out = os.path.join(tmp, f"conc-{tag}.json")
    cmd = [PY, "-m", "pyvc.conc", prop, "--out", out]
    for k, v in kw.items():
        cmd += [f"--{k}", str(v)]
    try:
        r = subprocess.run(cmd, env=env_for(jit, tmp), cwd=ROOT, timeout=timeout,
                           capture_output=True, text=True)
        if not os.path.exists(out):
            return None, (r.stderr or r.stdout)[-3000:]
        return json.load(open(out)), None
    except subprocess.TimeoutExpired:
        return None, "timeout"


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    with tempfile.TemporaryDirectory(prefix=f"pyvc-{prop}-") as tmp:
        rc = run(prop, tier, seed, tmp, t0)
    sys.exit(rc)


def run(prop, tier, seed, tmp, t0):
    known = load_known(prop)
    budget = 12.0 if tier == "quick" else 120.0
    cap = 400 if tier == "quick" else 3000
    deadline = t0 + (780 if tier == "quick" else 7000)
    symout = os.path.join(tmp, "sym.json")
    p = subprocess.Popen(
        [PY, "-m", "pyvc.symrun", prop, "--tier", tier, "--out", symout, "--deadline", str(cap)],
        env=env_for(False, tmp), cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
    )
    try:
        so, se = p.communicate(timeout=cap + 60)
    except subprocess.TimeoutExpired:
        p.kill()
        so, se = p.communicate()
        se += "\nsymbolic run timed out"
    sym = json.load(open(symout)) if os.path.exists(symout) else None
    # runtime validation of the contracts on the real code
    cres, cerr = conc(prop, tmp, "val", cap, tier=tier, budget=budget, seed=seed)
    hits = list(cres["hits"]) if cres else []

    problems = []  # (unit, case, what)
    unsupported = []
    results = []
    if sym is None:
        # the code cannot even be loaded by the verifier
        if cres is None:
            print(f"could not load the code under verification:\n{(se or '')[-3000:]}\n{cerr}")
            return finish(prop, tier, seed, t0, None, cres, [], [], [("load", {}, (se or "")[-1500:])],
                          tmp, known)
        unsupported.append(("all", {}, "symbolic run failed: " + (se or "")[-800:]))
    else:
        results = sym["results"]
        for r in results:
            classify(r, problems, unsupported)

    # bounded stand-ins for what the unbounded contracts did not cover
    fb = []
    if sym is not None and (problems or unsupported):
        names = sorted({u for u, _, _ in problems + unsupported})
        fout = os.path.join(tmp, "fb.json")
        run_quiet(
            [PY, "-m", "pyvc.symrun", prop, "--tier", tier, "--out", fout, "--fallback", "--unit",
             ",".join(names), "--deadline", str(max(20, min(cap, deadline - time.time() - 220)))],
            env=env_for(False, tmp), cwd=ROOT, capture_output=True, text=True,
            timeout=max(30, min(cap, deadline - time.time() - 200)),
        )
        if os.path.exists(fout):
            fb = json.load(open(fout))["results"]
        ok_units = set()
        for n in names:
            rs = [r for r in fb if r["unit"] == n]
            if rs:
                pr, un = [], []
                for r in rs:
                    classify(r, pr, un)
                if not pr and not un:
                    ok_units.add(n)
                else:
                    # the bounded instance is authoritative for what it covers
                    problems = [x for x in problems if x[0] != n] + pr
                    unsupported = [x for x in unsupported if x[0] != n] + un
        stand_in = [x for x in problems + unsupported if x[0] in ok_units]
        problems = [x for x in problems if x[0] not in ok_units]
        unsupported = [x for x in unsupported if x[0] not in ok_units]
    else:
        stand_in = []

    if (problems or unsupported or stand_in) and not hits:
        models = []
        for r in results + fb:
            for b in r["bad"]:
                if b.get("model"):
                    models.append(dict(unit=r["unit"], case=r["case"], model=b["model"]))
            for m in r.get("exc_models", []):
                models.append(dict(unit=r["unit"], case=r["case"], model=m))
        mf = os.path.join(tmp, "models.json")
        json.dump(models, open(mf, "w"))
        names = ",".join(sorted({u for u, _, _ in problems + unsupported + stand_in} - {"load", "all"}))
        kw = dict(tier=tier, budget=45 if tier == "quick" else 300, seed=seed + 1000, models=mf)
        if names:
            kw["unit"] = names
        c2, e2 = conc(prop, tmp, "search", max(60, deadline - time.time() - 60), **kw)
        if c2:
            hits += c2["hits"]
            if cres:
                cres["evaluated"] += c2["evaluated"]
        elif e2:
            print("search failed:", e2[-500:])
    return finish(prop, tier, seed, t0, sym, cres, fb, stand_in, problems, tmp, known, hits, unsupported,
                  cerr)


def classify(r, problems, unsupported):
    u, c = r["unit"], r["case"]
    if r["nbad"]:
        for b in r["bad"]:
            problems.append((u, c, dict(obligation=b["name"], status=b["status"], detail=b["detail"],
                                        model=b["model"])))
    elif r["crash"] or r["errors"] or r["incomplete"]:
        unsupported.append((u, c, dict(obligation="*", status="unsupported",
                                       detail=str(r["crash"] or r["incomplete"] or r["errors"]),
                                       model=None)))
    elif r["reached"] == 0 or r["obligations"] == 0:
        unsupported.append((u, c, dict(obligation="*", status="vacuous",
                                       detail="no path reaches the ensures clauses", model=None)))


def load_known(prop):
    f = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)) if k.get("property") == prop and k.get("status") == "known"]


def is_known(h, known):
    for k in known:
        if k["unit"] == h["unit"] and k["clause"] == h["clause"]:
            m = k.get("match", {})
            if all(h["case"].get(a) == b for a, b in m.items()):
                return True
    return False


def finish(prop, tier, seed, t0, sym, cres, fb, stand_in, problems, tmp, known, hits=(), unsupported=(),
           cerr=None):
    hits = list(hits)
    confirmed = []
    notes = []
    if hits:
        # confirm on the code as compiled by numba
        pick = []
        seen = set()
        for h in hits:
            key = (h["unit"], h["clause"])
            if key not in seen:
                seen.add(key)
                pick.append(h)
            elif sum(1 for q in pick if (q["unit"], q["clause"]) == key) < 2:
                pick.append(h)
        pick = pick[:8]
        hf = os.path.join(tmp, "hits.json")
        json.dump(pick, open(hf, "w"), default=str)
        r, e = conc(prop, tmp, "confirm", max(90, min(300, t0 + 860 - time.time())), jit=True, confirm=hf)
        for k, h in enumerate(pick):
            if r is None:
                h["jit"] = f"not run: {str(e)[-200:]}"
                confirmed.append(h)
            else:
                h["jit"] = r[k]
                if r[k]["status"] in ("violation", "error"):
                    confirmed.append(h)
                else:
                    notes.append(f"not reproduced under numba: {h['unit']} {h['clause']}")
    new = [h for h in confirmed if not is_known(h, known)]
    old = [h for h in confirmed if is_known(h, known)]
    newp = [x for x in problems if not is_known(dict(unit=x[0], case=x[1],
            clause=str(x[2].get("obligation") if isinstance(x[2], dict) else x[2]).split("[")[0]), known)]
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")

    viol = None
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    if new:
        h = new[0]
        viol = dict(property=prop, kind="failing input", hits=new[:5], failed_obligations=newp[:10],
                    how="PYTHONPATH=/verif /opt/venv/bin/python -m pyvc.replay <this file>")
        tail = ""
    elif newp:
        viol = dict(property=prop, kind="failed obligation, no failing input found",
                    failed_obligations=newp[:10],
                    verifier_output=[r for r in ((sym or {}).get("results", []) + fb) if r["nbad"]][:5])
        tail = " no-failing-input-found"
    if viol:
        hsh = hashlib.sha1(json.dumps(viol, default=str, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(ROOT, "replays", f"{prop}-{hsh}.json")
        json.dump(viol, open(path, "w"), indent=1, default=str)

    write_evidence(prop, tier, seed, t0, sym, cres, fb, stand_in, problems, unsupported, notes, viol, cerr)
    for u, c, w in unsupported:
        print(f"note: {u} {c}: outside the verifier's reach ({str(w)[:300]}); runtime contract check only")
    for u, c, w in stand_in:
        print(f"note: {u} {c}: unbounded proof not re-established ({str(w)[:200]}); bounded stand-in holds")
    for n in notes:
        print("note:", n)
    if viol:
        if new:
            print(f"failed: {new[0]['unit']} case={new[0]['case']} clause '{new[0]['clause']}'"
                  f" {new[0]['detail']}")
        for x in newp[:5]:
            print(f"failed obligation: {x[0]} {x[1]} {str(x[2])[:300]}")
        print(f"VIOLATION property={prop} replay={path}{tail}")
        return 1
    res = (sym or {}).get("results", [])
    print(f"{prop}: {sum(r['discharged'] for r in res + fb)}/{sum(r['obligations'] for r in res + fb)}"
          f" obligations discharged, {sum(r['paths'] for r in res + fb)} paths,"
          f" {cres['evaluated'] if cres else 0} runtime evaluations, {time.time() - t0:.0f} s")
    if cres is None and sym is None:
        print("check could not run")
        return 2
    return 0


def level_of(prop):
    """As declared in MANIFEST.json."""
    try:
        m = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
        return next(c["level"] for c in m["checks"] if c["property"] == prop)
    except (OSError, ValueError, StopIteration):
        return "proof"


EXPLANATION = (
    "Contract-based verification of the real functions in which most obligations are instances of bounded size "
    "(bounded_standins), never counted as proved, or contracts evaluated at run time on the real code "
    "(runtime_evaluations); obligations/discharged count the unbounded ones only.")


def write_evidence(prop, tier, seed, t0, sym, cres, fb, stand_in, problems, unsupported, notes, viol, cerr):
    res = (sym or {}).get("results", [])
    allr = res + fb
    by = {}
    for r in allr:
        for k, v in r["by_backend"].items():
            by[k] = by.get(k, 0) + v
    fns = sorted({f for fl in (sym or {}).get("functions", {}).values() for f in fl})
    bounded = sorted({f"{r['unit']}: {r['case']['bounded']}" for r in allr if r["case"].get("bounded")})
    bounded += [f"{u} {c}: {str(w)[:200]}" for u, c, w in stand_in]
    bounded += [f"{u} {c}: runtime contract check only ({str(w)[:200]})" for u, c, w in unsupported]
    proved = [r for r in res if not r["case"].get("bounded")]
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=level_of(prop),
        coverage=dict(
            **({"explanation": EXPLANATION} if level_of(prop) == "other" else {}),
            obligations=sum(r["obligations"] for r in proved),
            discharged=sum(r["discharged"] for r in proved),
            bounded_obligations=sum(r["obligations"] for r in allr if r["case"].get("bounded")),
            bounded_discharged=sum(r["discharged"] for r in allr if r["case"].get("bounded")),
            discharged_by_backend=by,
            checker_cmd=f"/verif/check.sh {prop} {tier}",
            trusted_base=TRUSTED,
            functions_under_contract=fns,
            contracts=[
                dict(unit=r["unit"], case=r["case"], paths=r["paths"], obligations=r["obligations"],
                     discharged=r["discharged"], solver_s=r["solver_s"], notes=r["notes"])
                for r in sorted(allr, key=lambda r: (r["unit"], str(r["case"])))
            ],
            clauses=sorted({n for r in allr for n in r["clauses"]})[:400],
            paths=sum(r["paths"] for r in allr),
            solver_s=round(sum(r["solver_s"] for r in allr), 2),
            queries=sum(r["queries"] for r in allr),
            bounded_standins=bounded,
            undischarged=[dict(unit=u, case=c, what=w) for u, c, w in problems][:20],
            runtime_evaluations=cres["evaluated"] if cres else 0,
            runtime_rejected=cres["rejected"] if cres else 0,
            runtime_errors=(cres["errors"][:5] if cres else [str(cerr)[:500]]),
            runtime_samples=(cres["samples"][:1] if cres else []),
            notes=notes,
        ),
        assumptions=ASSUME + sorted({n for r in allr for n in r["notes"]}),
        wall_s=round(time.time() - t0, 2),
        violations=1 if viol else 0,
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)


if __name__ == "__main__":
    main()
