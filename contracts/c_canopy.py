"""Canopy: interception storage balance and inside-canopy meteorology (C14)."""

import numpy as np

from openamundsen import constants as c
from openamundsen.modules.canopy import canopy
from pyvc.unit import unit

from .common import ensure_frame, fill_state, make_model, snapshot

DAY = 86400.0


def canopy_model(env, forest=True, dt=10800.0, nans=()):
    """nans: forcing that may be missing in this unit (concrete runs: all of them)."""
    m = make_model(env, timestep=dt, canopy=dict(enabled=True))
    sp = {
        "land_cover.lai_eff": dict(lo=0.2, hi=12),
        "snow.canopy_intercepted_load": dict(lo=0, hi=80, gen=[0.0]),
        "surface.albedo": dict(lo=0, hi=1),
        "meteo.top_canopy_sw_in": dict(lo=0, hi=1400),
        "meteo.sw_in": dict(lo=0, hi=1400, nan=True),
        "meteo.lw_in": dict(lo=0, hi=600),
        "meteo.temp": dict(lo=220, hi=320, nan=True),
        "meteo.sat_vap_press": dict(lo=1, hi=12000),
        "meteo.rel_hum": dict(lo=1, hi=100),
        "meteo.wind_speed": dict(lo=0.1, hi=50),
        "meteo.snowfall": dict(lo=0, hi=200, nan=True, gen=[0.0]),
        "meteo.rainfall": dict(lo=0, hi=200, nan=True, gen=[0.0]),
        "meteo.last_24h_temps": dict(lo=220, hi=320, nan=True),
    }
    if env.symbolic:
        for k, v in sp.items():
            v["nan"] = v.get("nan", False) and k in nans
    fill_state(env, m, sp)
    if env.symbolic:
        pos = env.A.wrap(np.full(env.shape, forest), ("R", "C"))
    else:
        pos = (env.grid("forest", boolean=True) | (env.rng.random() < 0.3)) & env.roi if env.rng is not None \
            else np.full(env.shape, forest)
    m.canopy.forest_pos = pos
    return m, pos


@unit("C14", ["CanopyModel.snow"], conc_cases=[dict(full_roi=True), {}], goal_ms=20000)
def canopy_snow(env):
    dt = env.choice("dt", [10800.0, 86400.0])
    m, pos = canopy_model(env, dt=dt,
                          nans=("meteo.temp", "meteo.snowfall", "meteo.rainfall"))
    dt = m.timestep
    b = snapshot(env, m)
    env.call(m.canopy.snow)
    S, M = m.state.snow, m.state.meteo
    l0, l1 = b["snow.canopy_intercepted_load"][pos], S.canopy_intercepted_load[pos]
    i, s, w = (S[k][pos] for k in ("canopy_intercepted_snowfall", "canopy_sublimation", "canopy_melt"))
    sf = b["meteo.snowfall"][pos]
    P = env.ite(env.isnan(sf), 0.0, sf)
    cap = m.config.canopy.max_interception_storage_coefficient * b["land_cover.lai_eff"][pos]
    env.ensure("interception, sublimation and melt are non-negative numbers",
               env.and_(env.geq(i, 0), env.geq(s, 0), env.geq(w, 0)))
    env.ensure("storage stays non-negative", env.geq(l1, 0, scale=10.0))
    env.ensure("storage balance: change == intercepted - sublimation - melt unload",
               env.eqv(l1 - l0, i - s - w, scale=100.0))
    env.ensure("no more intercepted than snowfall", env.leq(i, P))
    env.ensure("interception does not exceed the capacity",
               env.or_(env.leq(i, 0), env.leq(l0 + i, cap, scale=10.0)))
    env.ensure("interception follows 0.7 (capacity - load) (1 - exp(-snowfall / capacity))",
               env.or_(env.gt(l0, cap),
                       env.eqv(i, 0.7 * (cap - l0) * (1 - env.f("exp", -P / cap)), scale=10.0)))
    g1 = M.snowfall[pos]
    env.ensure("snowfall reaching the ground == snowfall - intercepted + melt unload",
               env.or_(env.isnan(sf), env.eqv(g1, sf - i + w, scale=100.0)))
    env.ensure("ground snowfall is not negative", env.or_(env.isnan(sf), env.geq(g1, 0, scale=100.0)))
    env.ensure("precipitation is the sum of snowfall and rainfall",
               env.eqv(M.precip[pos], g1 + b["meteo.rainfall"][pos]))
    T = b["meteo.temp"][pos]
    env.ensure("no melt unload at or below 0 degC", env.or_(env.gt(T, c.T0), env.eqv(w, 0)))
    dm = m.config.canopy.degree_day_factor * (T - c.T0) * dt / DAY
    rest = l0 + i - s
    env.ensure("melt unload follows the degree day factor",
               env.or_(env.isnan(T), env.le(T, c.T0),
                       env.eqv(w, env.ite(env.lt(dm, rest), dm, rest), scale=100.0)))
    may = {"snow.canopy_intercepted_load", "snow.canopy_intercepted_snowfall", "snow.canopy_sublimation",
           "snow.canopy_melt", "meteo.snowfall", "meteo.precip"}
    ensure_frame(env, m, b, may)
    if not env.symbolic:
        other(env, m, b, pos)


def other(env, m, b, pos):
    for full, v in b.items():
        cat, name = full.split(".")
        if name == "last_24h_temps":
            continue
        env.ensure("frame: pixels without forest unchanged", env.same(m.state[cat][name][..., ~pos], v[..., ~pos]))


@unit("C14", ["CanopyModel.snow", "CanopyModel.meteorology"], [dict(which=k) for k in ("snow", "meteorology")])
def no_forest(env):
    if not env.symbolic:
        return
    m, pos = canopy_model(env, forest=False, dt=43200.0)
    b = snapshot(env, m)
    env.call(getattr(m.canopy, env.case["which"]))
    for full, v in b.items():
        cat, name = full.split(".")
        if name == "last_24h_temps":
            continue
        env.ensure("frame: pixels without forest unchanged", env.same(m.state[cat][name], v))


@unit("C14", ["CanopyModel.meteorology"],
      [dict(n=n, idx=i, bounded=f"{n} time steps per day") for n in (1, 2) for i in range(n)],
      conc_cases=[dict(n=n, idx=i) for n, i in ((1, 0), (8, 0), (8, 7), (24, 5))], goal_ms=20000)
def canopy_meteo(env):
    n, idx = env.case["n"], env.case["idx"]
    m, pos = canopy_model(env, dt=DAY / n, nans=("meteo.temp", "meteo.sw_in", "meteo.last_24h_temps"))
    m.canopy._temp_idx = idx
    b = snapshot(env, m)
    env.call(m.canopy.meteorology)
    M = m.state.meteo
    old = {k: b[f"meteo.{k}"][pos] for k in ("temp", "sw_in", "lw_in", "rel_hum", "wind_speed")}
    new = {k: M[k][pos] for k in old}
    lai = b["land_cover.lai_eff"][pos]
    cfg = m.config.canopy
    # the record of the last 24 hours
    env.ensure("temperature record: current temperature stored",
               env.same(env.sel(M.last_24h_temps[idx]), env.sel(b["meteo.temp"])))
    for k in range(n):
        if k != idx:
            env.ensure("temperature record: other entries kept",
                       env.same(env.sel(M.last_24h_temps[k]), env.sel(b["meteo.last_24h_temps"][k])))
    env.ensure("temperature record: next entry is the oldest one", m.canopy._temp_idx == (idx + 1) % n)
    # canopy transmissivity
    fc = 0.55 + 0.29 * env.f("log", lai)
    fc = env.ite(env.lt(fc, 0), 0.0, env.ite(env.gt(fc, 1), 1.0, fc))
    isn = env.isnan(old["sw_in"])
    env.ensure("shortwave radiation is attenuated, not negative",
               env.or_(isn, env.and_(env.geq(new["sw_in"], 0), env.leq(new["sw_in"], old["sw_in"]))))
    env.ensure("Beer's law", env.or_(isn, env.eqv(
        new["sw_in"], old["sw_in"] * env.f("exp", -cfg.extinction_coefficient * lai), scale=1.0)))
    env.ensure("missing shortwave radiation stays missing", env.implies(isn, env.isnan(new["sw_in"])))
    env.ensure("wind speed is reduced, not negative",
               env.and_(env.gt(new["wind_speed"], 0), env.leq(new["wind_speed"], old["wind_speed"])))
    env.ensure("wind profile", env.eqv(
        new["wind_speed"], old["wind_speed"] * env.f("exp", -0.4 * (cfg.canopy_flow_index_coefficient * lai)), scale=1.0))
    rh = old["rel_hum"] * (1 + 0.1 * fc)
    env.ensure("relative humidity", env.eqv(new["rel_hum"], env.ite(env.gt(rh, 100), 100.0, rh), scale=1.0))
    t, t1 = old["temp"], new["temp"]
    miss = env.isnan(t)
    hist = [M.last_24h_temps[k][pos] for k in range(n)]
    if env.symbolic:
        if bool(env._elems(miss)[0]):
            env.ensure("missing temperature stays missing", env.isnan(t1))
            env.ensure("missing temperature: longwave missing", env.isnan(new["lw_in"]))
        else:
            mean = mean_(env, hist)
            temp_clauses(env, cfg, fc, t, t1, mean, old, new)
    else:
        env.ensure("missing temperature stays missing", env.same(np.isnan(t1), miss))
        mean = np.nanmean(np.array(hist), axis=0)
        ok = ~miss
        temp_clauses(env, cfg, fc[ok], t[ok], t1[ok], mean[ok], {k: v[ok] for k, v in old.items()},
                     {k: v[ok] for k, v in new.items()})
        other(env, m, b, pos)
    ensure_frame(env, m, b, {f"meteo.{k}" for k in old} | {"meteo.last_24h_temps"})


def mean_(env, hist):
    v = [h for h in hist if not bool(env._elems(env.isnan(h))[0])]
    s = v[0]
    for q in v[1:]:
        s = s + q
    return s / float(len(v))


def temp_clauses(env, cfg, fc, t, t1, mean, old, new):
    d = (mean - c.T0) / 3
    d = env.ite(env.lt(d, -2), -2.0, env.ite(env.gt(d, 2), 2.0, d))
    inside = cfg.temperature_scaling_coefficient * (t - mean) + mean - d
    env.ensure("temperature is damped towards the 24 h mean",
               env.eqv(t1, t - fc * (t - inside), scale=100.0))
    lc = c.STEFAN_BOLTZMANN * t1 ** 4
    env.ensure("longwave radiation mixes sky and canopy emission",
               env.eqv(new["lw_in"], (1 - fc) * old["lw_in"] + fc * lc, scale=100.0))
    lo = env.ite(env.lt(old["lw_in"], lc), old["lw_in"], lc)
    hi = env.ite(env.gt(old["lw_in"], lc), old["lw_in"], lc)
    env.ensure("longwave radiation between sky and canopy emission",
               env.and_(env.geq(new["lw_in"], lo, scale=100.0), env.leq(new["lw_in"], hi, scale=100.0)))


@unit("C14", ["canopy.above_canopy_meteorology"], [dict(in_roi=q) for q in (True, False)])
def above_canopy(env):
    m, pos = canopy_model(env, dt=DAY)
    b = snapshot(env, m)
    env.call(canopy.above_canopy_meteorology, m)
    M = m.state.meteo
    ks = ("temp", "rel_hum", "wind_speed", "sw_in", "lw_in")
    s = env.sel
    for k in ks:
        exp = b[f"meteo.{k}" if env.in_roi else f"meteo.top_canopy_{k}"]
        env.ensure("above-canopy value is the value before modification", env.same(s(M[f"top_canopy_{k}"]), s(exp)))
    ensure_frame(env, m, b, {f"meteo.top_canopy_{k}" for k in ks})


@unit("C14", ["CanopyModel.initialize"], [dict(cls=q) for q in (0, 1, 2)])
def canopy_init(env):
    """Forest pixels are the pixels of all forest classes; they start without interception."""
    m, _ = canopy_model(env, dt=DAY)
    masks = [env.grid(f"cls{k}", boolean=True) for k in range(env.case["cls"])]
    m.land_cover.forest_classes = list(range(len(masks)))
    m.land_cover.class_pixels = dict(enumerate(masks))
    b = snapshot(env, m)
    env.call(m.canopy.initialize)
    exp = env.or_(*masks) if masks else env.grid("none", boolean=True) & False
    f = m.canopy.forest_pos
    env.ensure("forest pixels", env.same(f, exp))
    L = m.state.snow.canopy_intercepted_load
    env.ensure("forest pixels start without interception",
               env.same(L, env.ite(exp, 0.0, b["snow.canopy_intercepted_load"])))
