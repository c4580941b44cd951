"""Tridiagonal solvers (C07) and implicit heat conduction (C08)."""

import inspect

import numpy as np

from openamundsen import constants as c
from openamundsen import heatconduction, tridiag
from openamundsen.modules.snow import multilayermodel as ml
from pyvc import core, loops
from pyvc.unit import unit

from .c_multilayer import active, ml_model
from .common import snapshot


def system(env, n, cols=False):
    """Strictly diagonally dominant system with a[0] = c[-1] = 0."""
    if cols:
        P = 1 if env.symbolic else 3
        mk = lambda nm: env.grid(nm, -1e3, 1e3, layers=n)  # noqa: E731
        g = [mk(q) for q in "abcd"]
        if env.symbolic:
            g = [x.reshape(n, 1) for x in g]
            for x in g:
                x.ax = ("L", "P")
        else:
            g = [x.reshape(n, -1) for x in g]
        a, b, cc, d = g
    else:
        a, b, cc, d = [env.vec(q, n, -1e3, 1e3) for q in "abcd"]
    a[0] = 0.0
    cc[n - 1] = 0.0
    if not env.symbolic:
        b[...] = np.where(b < 0, -1, 1) * (np.abs(a) + np.abs(cc) + np.maximum(1e-2, np.abs(b)))
    env.assume(env.gt(abs(b), abs(a) + abs(cc)))
    return a, b, cc, d


def residual_ok(env, a, b, cc, d, x, n):
    r = b * x
    out = []
    for k in range(n):
        lhs = b[k] * x[k]
        if k > 0:
            lhs = lhs + a[k] * x[k - 1]
        if k < n - 1:
            lhs = lhs + cc[k] * x[k + 1]
        out.append(env.eqv(lhs, d[k], scale=1e3))
    return out


def solve_any(env, array=False):
    """A system of any size: elimination and back substitution keep the solution of the system."""
    E = env
    n = env.count("n", 1)

    def facts(l, v):
        return E.and_(E.gt(abs(v), abs(a.at(l)) + abs(cc.at(l))), E.implies(E.eqv(l, 0), E.eqv(a.at(l), 0)),
                      E.implies(E.eqv(l, n - 1), E.eqv(cc.at(l), 0)))

    kind = "cols" if array else False
    a, cc, d = [env.symvec(q, n, -1e3, 1e3, pixel=kind) for q in "acd"]
    b = env.symvec("b", n, -1e3, 1e3, facts=facts, pixel=kind)
    o = [q.copy() for q in (a, b, cc, d)]

    def eliminated(s, old, l):
        m = s.multiplier[l]
        return [("multiplier", E.eqv(s.a[l], m * s.b[l - 1])),
                ("elimination, diagonal", E.eqv(s.b[l], old.b[l] - m * s.c[l - 1])),
                ("elimination, right hand side", E.eqv(s.d[l], old.d[l] - m * s.d[l - 1])),
                ("dominance", E.gt(abs(s.b[l]), abs(s.c[l])))]

    def substituted(s, old, l):
        return [("back substitution", E.eqv(s.x[l] * old.x[l] + s.c[l] * s.x[l + 1], s.d[l]))]

    fn = tridiag.solve_tridiag_array if array else tridiag.solve_tridiag
    f = "openamundsen.tridiag:" + ("solve_tridiag_array" if array else "solve_tridiag")
    env.loop_contract(f, 0, loops.LoopSpec(["b", "d"], eliminated, record=dict(multiplier=lambda s, o, l: s.m)))
    env.loop_contract(f, 1, loops.LoopSpec(["x"], substituted))
    x = env.call(fn, a, b, cc, d)
    if not isinstance(x, loops.SymVec):
        raise core.EngineError("result of a different kind")
    l = env.index("l", n)
    lhs = o[1].at(l) * x.at(l)
    if bool(env.gt(l, 0)):
        lhs = lhs + o[0].at(l) * x.at(l - 1)
    if bool(env.lt(l, n - 1)):
        lhs = lhs + o[2].at(l) * x.at(l + 1)
    env.ensure("the solution satisfies every equation", E.eqv(lhs, o[3].at(l)))
    for nm, p, q in zip("abcd", (a, b, cc, d), o):
        env.ensure(f"input {nm} not modified", E.eqv(p.at(l), q.at(l)))


NS = [dict(n=n, bounded=f"{n} equations") for n in (1, 2, 3, 4)]


@unit("C07", ["tridiag.solve_tridiag"], [dict(n="any")], fallback=NS, goal_ms=20000, conc_cases=[dict(n=n) for n in (1, 2, 3, 4, 7, 12)])
def solve(env):
    n = env.case["n"]
    if n == "any":
        return solve_any(env)
    a, b, cc, d = system(env, n)
    o = [env.old(q) for q in (a, b, cc, d)]
    x = env.call(tridiag.solve_tridiag, a, b, cc, d)
    for k, ok in enumerate(residual_ok(env, *o, x, n)):
        env.ensure(f"the solution satisfies equation {k}", ok)
    for nm, p, q in zip("abcd", (a, b, cc, d), o):
        env.ensure(f"input {nm} not modified", env.same(p, q))


@unit("C07", ["tridiag.solve_tridiag_array"], [dict(n="any")], fallback=NS, goal_ms=20000,
      conc_cases=[dict(n=n) for n in (1, 2, 3, 4, 7, 12)])
def solve_array(env):
    n = env.case["n"]
    if n == "any":
        return solve_any(env, True)
    a, b, cc, d = system(env, n, cols=True)
    o = [env.old(q) for q in (a, b, cc, d)]
    x = env.call(tridiag.solve_tridiag_array, a, b, cc, d)
    for k, ok in enumerate(residual_ok(env, *o, x, n)):
        env.ensure(f"the solution satisfies equation {k}", ok)
    for nm, p, q in zip("abcd", (a, b, cc, d), o):
        env.ensure(f"input {nm} not modified", env.same(p, q))


# --------------------------------------------------------------------------- heat conduction


def tridiag_contract(env, n_rows=None):
    """Contract of solve_tridiag: requires dominance, ensures the equations."""

    def fn(a, b, cc, d, overwrite_bd=False):
        n = len(d)
        env.ensure("tridiagonal system is diagonally dominant",
                   env.gt(abs(b[0]), abs(cc[0]) if n > 1 else 0.0))
        for k in range(1, n):
            env.ensure("tridiagonal system is diagonally dominant",
                       env.gt(abs(b[k]), abs(a[k]) + (abs(cc[k]) if k < n - 1 else 0.0)))
        x = env.fresh("x", d.shape, d.ax)
        for q in residual_ok(env, a, b, cc, d, x, n):
            env.assume(q)
        return x

    return fn


def column(env, N):
    dx = env.vec("dx", N, 0.01, 5)
    T = env.vec("T", N, 200, 320)
    k = env.vec("k", N, 0.01, 5)
    hc = env.vec("hc", N, 10, 1e7)
    return dx, T, k, hc


def interface_g(dx, k, dxb, kb, N):
    """Conductances between neighbouring layers (series resistance of two half layers)."""
    g = []
    for i in range(N):
        r = dx[i] / k[i] + (dx[i + 1] / k[i + 1] if i + 1 < N else dxb / kb)
        g.append(2 / r)
    return g


def conduction_clauses(env, dT, T, g, hc, dt, Tb, q, N, s=lambda x: x):
    tn = [T[i] + dT[i] for i in range(N)]
    flux = [q] + [g[i] * (tn[i] - (tn[i + 1] if i + 1 < N else Tb)) for i in range(N)]
    for i in range(N):
        env.ensure(f"layer {i}: heat stored == inflow - outflow (implicit scheme)",
                   env.eqv(s(hc[i] * dT[i]), s((flux[i] - flux[i + 1]) * dt), scale=1e6, rtol=1e-6))


def conduction_any(env, array=False):
    """
    Columns of any number of layers, over the contract of the tridiagonal solver: the balance of an arbitrary layer.
    """
    E = env
    N = env.count("N", 1)
    kind = "cols" if array else False
    sv = lambda nm, a, b, **k: env.symvec(nm, N, a, b, pixel=kind, **k)  # noqa: E731
    dx, kk, hc = sv("dx", 0.01, 5), sv("k", 0.01, 5), sv("hc", 10, 1e7)
    T = sv("T", 200, 320)
    dt = env.scalar("dt", 60, 86400)
    Tb, dxb, kb = env.scalar("Tb", 200, 320), env.scalar("dxb", 0.01, 5), env.scalar("kb", 0.01, 5)
    q = env.scalar("q", -1000, 1000)
    keep = [v.copy() for v in (dx, T, kk, hc)]

    def conductance(s, old, l):
        g = s.therm_cond_between[l]
        return [("conductance of two half layers in series", E.eqv(g * (s.dx[l] / s.therm_cond[l] + s.dx[l + 1] / s.therm_cond[l + 1]), 2)),
                ("conductance > 0", E.gt(g, 0))]

    def rows(s, old, l):
        g0, g1 = s.therm_cond_between[l - 1], s.therm_cond_between[l]
        return [("lower diagonal", E.eqv(s.a[l], -g0 * s.dt)), ("upper diagonal", E.eqv(s.c[l], -g1 * s.dt)),
                ("diagonal", E.eqv(s.b[l], s.heat_cap[l] + (g0 + g1) * s.dt)),
                ("right hand side", E.eqv(s.d[l], g0 * (s.T[l - 1] - s.T[l]) * s.dt + g1 * (s.T[l + 1] - s.T[l]) * s.dt))]

    fn = heatconduction.temp_change_array if array else heatconduction.temp_change
    f = "openamundsen.heatconduction:" + fn.__name__
    s0 = env.loop_contract(f, 0, loops.LoopSpec(["therm_cond_between"], conductance))
    env.loop_contract(f, 1, loops.LoopSpec(["a", "b", "c", "d"], rows))

    system = []

    def solver(a, b, cc, d, overwrite_bd=False):
        l = env.index("row", N)
        first, last = bool(E.eq(l, 0)), bool(E.eq(l, N - 1))
        env.ensure("tridiagonal system is diagonally dominant", E.gt(
            b.at(l), (0.0 if first else -a.at(l)) + (0.0 if last else -cc.at(l))))
        env.ensure("signs of the off-diagonals", E.and_(True if first else E.le(a.at(l), 0), True if last else E.le(cc.at(l), 0)))
        A, B, C, D = (v.copy() for v in (a, b, cc, d))

        def equation(l, v):
            lhs = B.at(l) * v
            if bool(E.gt(l, 0)):
                lhs = lhs + A.at(l) * x.at(l - 1)
            if bool(E.lt(l, N - 1)):
                lhs = lhs + C.at(l) * x.at(l + 1)
            return E.eqv(lhs, D.at(l))

        system.extend((A, B, C, D))
        return (x := env.symvec("x", N, facts=equation, pixel=kind))

    with env.by_contract(tridiag, "solve_tridiag_array" if array else "solve_tridiag", solver):
        dT = env.call(fn, dx=dx, dt=dt, T=T, therm_cond=kk, T_bottom=Tb, dx_bottom=dxb, therm_cond_bottom=kb, top_heat_flux=q,
                      heat_cap=hc)
    i = env.index("i", N)
    dTi = (lambda l: dT.at(l)) if isinstance(dT, loops.SymVec) else (lambda l: env.A.raw(dT).reshape(-1)[0])
    first, last = bool(E.eq(i, 0)), bool(E.eq(i, N - 1))
    tn = lambda l: T.at(l) + dTi(l)  # noqa: E731
    g = lambda l, end: 2 / (dx.at(l) / kk.at(l) + (dxb / kb if end else dx.at(l + 1) / kk.at(l + 1)))  # noqa: E731
    g0, g1 = 0.0 if first else g(i - 1, False), g(i, last)
    if system:
        A, B, C, D = system
        if not first:
            env.lemma("lower diagonal", E.eqv(A.at(i), -g0 * dt))
        if not last:
            env.lemma("upper diagonal", E.eqv(C.at(i), -g1 * dt))
        env.lemma("diagonal", E.eqv(B.at(i), hc.at(i) + (g0 + g1) * dt))
        env.lemma("right hand side", E.eqv(D.at(i), dt * ((q if first else g0 * (T.at(i - 1) - T.at(i))) + g1 * ((Tb if last else T.at(i + 1)) - T.at(i)))))
    up = q if first else g0 * (tn(i - 1) - tn(i))
    down = g1 * (tn(i) - (Tb if last else tn(i + 1)))
    env.ensure("heat stored == inflow - outflow (implicit scheme)", E.eqv(hc.at(i) * dTi(i), (up - down) * dt))
    env.ensure("inputs not modified in place", E.and_(*[E.eqv(v.at(i), w.at(i)) for v, w in zip((dx, T, kk, hc), keep)]))


def maximum_any(env):
    """The maximum principle for columns of any number of layers follows from the contract of temp_change."""
    E = env
    N = env.count("N", 1)
    lo, hi = env.scalar("lo", 200, 320), env.scalar("hi", 200, 320)
    dx, kk, hc = env.symvec("dx", N, 0.01, 5), env.symvec("k", N, 0.01, 5), env.symvec("hc", N, 10, 1e7)
    T = env.symvec("T", N, 200, 320, facts=lambda l, v: E.and_(E.ge(v, lo), E.le(v, hi)))
    dt = env.scalar("dt", 60, 86400)
    Tb, dxb, kb = env.scalar("Tb", 200, 320), env.scalar("dxb", 0.01, 5), env.scalar("kb", 0.01, 5)
    env.assume(E.and_(E.ge(Tb, lo), E.le(Tb, hi)))
    dT = env.symvec("dT", N, -1e9, 1e9)
    with env.by_contract(heatconduction, "temp_change", lambda **k: dT):
        r = env.call(lambda **k: heatconduction.temp_change(**k), dx=dx, dt=dt, T=T, therm_cond=kk, T_bottom=Tb,
                     dx_bottom=dxb, therm_cond_bottom=kb, top_heat_flux=0.0, heat_cap=hc)
    i = env.index("i", N)
    first, last = bool(E.eq(i, 0)), bool(E.eq(i, N - 1))
    tn = lambda l: T.at(l) + r.at(l)  # noqa: E731
    t = tn(i)
    flow = 0.0
    warm, cold = [], []
    for other, cond in ([] if first else [(tn(i - 1), "gu")]) + [(Tb if last else tn(i + 1), "gd")]:
        g = env.scalar(cond, 1e-9, 1e9)  # the conductance between the two layers, > 0
        flow = flow + g * (other - t)
        if other is not Tb:
            warm.append(E.ge(t, other))
            cold.append(E.le(t, other))
    env.assume(E.eqv(hc.at(i) * r.at(i), flow * dt))  # contract of temp_change without surface flux
    env.ensure("a layer at least as warm as its neighbours is not warmer than the column was",
               E.implies(E.and_(*warm, True), E.le(t, hi)))
    env.ensure("a layer at least as cold as its neighbours is not colder than the column was",
               E.implies(E.and_(*cold, True), E.ge(t, lo)))


ANY = [dict(N="any")]
N3 = [dict(N=n, bounded=f"{n} layers") for n in (1, 2, 3, 4)]


@unit("C08", ["heatconduction.temp_change"], ANY, fallback=N3, goal_ms=10000,
      conc_cases=[dict(N=n) for n in (1, 2, 3, 6)])
def temp_change(env):
    N = env.case["N"]
    if N == "any":
        return conduction_any(env)
    dx, T, k, hc = column(env, N)
    dt = env.scalar("dt", 60, 86400)
    Tb, dxb, kb = env.scalar("Tb", 200, 320), env.scalar("dxb", 0.01, 5), env.scalar("kb", 0.01, 5)
    q = env.scalar("q", -1000, 1000)
    T0 = env.old(T)
    with env.by_contract(tridiag, "solve_tridiag", tridiag_contract(env)):
        dT = env.call(heatconduction.temp_change, dx=dx, dt=dt, T=T, therm_cond=k, T_bottom=Tb, dx_bottom=dxb,
                      therm_cond_bottom=kb, top_heat_flux=q, heat_cap=hc)
    g = interface_g(dx, k, dxb, kb, N)
    conduction_clauses(env, dT, T0, g, hc, dt, Tb, q, N)
    env.ensure("temperatures not modified in place", env.same(T, T0))


@unit("C08", ["heatconduction.temp_change_array"], ANY, fallback=N3[:3], goal_ms=10000,
      conc_cases=[dict(N=n) for n in (1, 2, 3, 5)])
def temp_change_array(env):
    N = env.case["N"]
    if N == "any":
        return conduction_any(env, array=True)
    if env.symbolic:
        env.c.grid_mode = False
    P = lambda x: x.reshape(N, -1) if x.ndim == 3 else x.reshape(-1)  # noqa: E731

    def mk(nm, lo, hi, layers=True):
        x = env.grid(nm, lo, hi, layers=N if layers else None)
        y = P(x)
        if env.symbolic:
            y.ax = ("L", "P") if layers else ("P",)
        return y

    dx, T, k, hc = mk("dx", 0.01, 5), mk("T", 200, 320), mk("k", 0.01, 5), mk("hc", 10, 1e7)
    dt = env.scalar("dt", 60, 86400)
    Tb, dxb, kb, q = (mk("Tb", 200, 320, False), mk("dxb", 0.01, 5, False), mk("kb", 0.01, 5, False),
                      mk("q", -1000, 1000, False))
    T0 = env.old(T)
    with env.by_contract(tridiag, "solve_tridiag_array", tridiag_contract(env)):
        dT = env.call(heatconduction.temp_change_array, dx=dx, dt=dt, T=T, therm_cond=k, T_bottom=Tb,
                      dx_bottom=dxb, therm_cond_bottom=kb, top_heat_flux=q, heat_cap=hc)
    g = interface_g(dx, k, dxb, kb, N)
    conduction_clauses(env, dT, T0, g, hc, dt, Tb, q, N)
    env.ensure("temperatures not modified in place", env.same(T, T0))


@unit("C08", ["heatconduction.temp_change"], ANY, fallback=N3[:3], goal_ms=10000,
      conc_cases=[dict(N=n) for n in (1, 2, 3, 6)])
def maximum_principle(env):
    """Without surface flux no layer leaves the range spanned by the column and the ground below."""
    N = env.case["N"]
    if N == "any":
        return maximum_any(env)
    dx, T, k, hc = column(env, N)
    dt = env.scalar("dt", 60, 86400)
    Tb, dxb, kb = env.scalar("Tb", 200, 320), env.scalar("dxb", 0.01, 5), env.scalar("kb", 0.01, 5)
    lo, hi = env.scalar("lo", 200, 320), env.scalar("hi", 200, 320)
    if not env.symbolic:
        lo, hi = min(T.min(), Tb), max(T.max(), Tb)
    env.assume(env.and_(env.le(lo, Tb), env.le(Tb, hi)))
    env.assume(env.and_(env.le(lo, T), env.le(T, hi)))
    with env.by_contract(tridiag, "solve_tridiag", tridiag_contract(env)):
        dT = env.call(heatconduction.temp_change, dx=dx, dt=dt, T=T, therm_cond=k, T_bottom=Tb, dx_bottom=dxb,
                      therm_cond_bottom=kb, top_heat_flux=0.0, heat_cap=hc)
    tn = T + dT
    if env.symbolic:
        # it suffices that the warmest and the coldest layer are within the range
        for j in range(N):
            others = [i for i in range(N) if i != j]
            env.ensure(f"if layer {j} is the warmest, it is not warmer than before",
                       env.or_(*[env.lt(tn[j], tn[i]) for i in others], env.leq(tn[j], hi)))
            env.ensure(f"if layer {j} is the coldest, it is not colder than before",
                       env.or_(*[env.gt(tn[j], tn[i]) for i in others], env.geq(tn[j], lo)))
    else:
        env.ensure("conduction alone stays within the initial temperature range",
                   env.and_(env.geq(tn, lo, rtol=1e-6), env.leq(tn, hi, rtol=1e-6)))


@unit("C08", ["MultilayerSnowModel.heat_conduction", "multilayermodel._heat_conduction",
              "heatconduction.temp_change"], [dict(L=L, bounded=f"{L} snow layers") for L in (1, 2, 3)],
      conc_cases=[dict(L=L) for L in (1, 2, 3, 5)])
def snow_heat_conduction(env):
    L = env.case["L"]
    m = ml_model(env, **{
        "snow.therm_cond": dict(lo=0.01, hi=3), "snow.heat_cap": dict(lo=10, hi=1e7),
        "soil.therm_cond": dict(lo=0.01, hi=5), "soil.temp": dict(lo=220, hi=310),
        "soil.thickness": dict(lo=0.05, hi=2), "surface.heat_flux": dict(lo=-1000, hi=1000),
    })
    S = m.state.snow
    # all active layers have a thickness when heat is conducted
    if not env.symbolic:
        act = active(S.num_layers, L)
        S.thickness[act & (S.thickness <= 0.01)] = 0.01
    env.assume(env.or_(env.not_(active(S.num_layers, L)), env.ge(S.thickness, 0.01)))
    b = snapshot(env, m)
    with env.by_contract(tridiag, "solve_tridiag", tridiag_contract(env)):
        env.call(m.snow.heat_conduction)
    s = env.sel
    num, T0, T = b["snow.num_layers"], b["snow.temp"], S.temp
    env.ensure("inactive layers keep their temperature", env.or_(s(active(num, L)), env.same(s(T), s(T0))))
    so = {k: b[f"soil.{k}"][0] for k in ("temp", "thickness", "therm_cond")}
    for n in range(1, L + 1):
        here = num == n
        h, k = b["snow.thickness"], b["snow.therm_cond"]
        if env.symbolic and not bool(env.A.raw(here)[0, 0]):
            continue
        if not env.symbolic:
            h = np.where(h > 0, h, 1.0)
        g = interface_g(h, k, so["thickness"], so["therm_cond"], n)
        flux = [b["surface.heat_flux"]] + [
            g[i] * (T[i] - (T[i + 1] if i + 1 < n else so["temp"])) for i in range(n)]
        for i in range(n):
            env.ensure(f"{n} layers, layer {i}: heat stored == inflow - outflow, the lowest layer exchanging "
                       "heat with the topmost soil layer",
                       env.or_(env.not_(s(here)),
                               env.eqv(s(b["snow.heat_cap"][i] * (T[i] - T0[i])),
                                       s((flux[i] - flux[i + 1]) * m.timestep), scale=1e6, rtol=1e-6)))


@unit("C08", ["multilayermodel._heat_conduction"], [dict(L="any")], conc=False, fallback=[dict(L=1, bounded="1 snow layers")])
def conduction_kernel(env):
    """Any number of layers: the active layers, and only they, change by temp_change() of the snowpack on the soil."""
    if env.case["L"] != "any":
        return snow_heat_conduction(env)
    E = env
    Lm = env.count("layers", 1)
    num = env.grid("num", 0, None, integer=True)
    env.assume(env.le(num, Lm))
    ns = num[0, 0]
    v = {k: env.symvec(k, Lm, *r, pixel=True) for k, r in dict(
        thick=(0.01, 20), temp=(150, c.T0), cond=(0.01, 3), hc=(10, 1e7)).items()}
    soil = {k: env.grid(f"soil_{k}", *r, layers=2) for k, r in dict(
        thick=(0.05, 2), temp=(220, 310), cond=(0.01, 5)).items()}
    flux = env.grid("flux", -1000, 1000)
    dt = env.scalar("dt", 600, 86400)
    soil0, f0 = {k: q[0, 0, 0] for k, q in soil.items()}, flux[0, 0]
    t0 = v["temp"].copy()
    change = env.symvec("dT", Lm)
    sig, n_calls = inspect.signature(heatconduction.temp_change), []

    def contract(*a, **k):
        q = sig.bind(*a, **k)
        q.apply_defaults()
        q = q.arguments
        l = env.index("i", ns)
        for nm, w in (("dx", v["thick"]), ("T", t0), ("therm_cond", v["cond"]), ("heat_cap", v["hc"])):
            env.ensure("temp_change: vectors of the active layers",
                       E.and_(E.eqv(core.S(loops.idx(q[nm].n)), ns), E.eqv(q[nm].at(l), w.at(l))))
        for nm, w in (("T_bottom", soil0["temp"]), ("dx_bottom", soil0["thick"]), ("therm_cond_bottom", soil0["cond"])):
            env.ensure("temp_change: the topmost soil layer is the layer below", E.eqv(q[nm], w))
        env.ensure("temp_change: surface heat flux and time step",
                   E.and_(E.eqv(q["top_heat_flux"], f0), E.eqv(q["dt"], dt)))
        n_calls.append(1)
        return change[:ns]

    with env.by_contract(heatconduction, "temp_change", contract):
        env.call(ml._heat_conduction, env.roi_idxs, num, v["thick"], soil["thick"], dt, v["temp"], v["cond"],
                 soil["temp"], soil["cond"], flux, v["hc"])
    l = env.index("l", Lm)
    if bool(E.lt(l, ns)):
        env.ensure("heat conduction solved once", len(n_calls) == 1)
        env.ensure("active layers change as computed", E.eqv(v["temp"].at(l), t0.at(l) + change.at(l)))
    else:
        env.ensure("inactive layers keep their temperature", E.eqv(v["temp"].at(l), t0.at(l)))
