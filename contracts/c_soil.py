"""Soil: moisture phase partition, thermal properties, heat fluxes (C17)."""

import numpy as np

from openamundsen import constants as c
from openamundsen import heatconduction, modules, tridiag
from openamundsen.modules.soil import soil
from pyvc.unit import unit

from .c_heat import interface_g, tridiag_contract
from .common import ensure_frame, fill_state, make_model, snapshot

KAPPA = c.ICE_DENSITY / c.WATER_DENSITY * c.LATENT_HEAT_OF_FUSION / (c.T0 * c.GRAVITATIONAL_ACCELERATION)


def soil_model(env, n, specs=None, **cfg):
    m = make_model(env, timestep=env.scalar("dt", 600, 86400), soil=dict(thickness=[0.1 * 2**k for k in range(n)]), **cfg)
    sp = {
        "soil.thickness": dict(lo=0.05, hi=2),
        "soil.temp": dict(lo=230, hi=310, gen=[c.T0, c.T0 - 0.1, c.T0 - 1]),
        "soil.vol_heat_cap_dry": dict(lo=1e6, hi=3e6),
        "soil.therm_cond_dry": dict(lo=0.1, hi=2),
        "soil.vol_moisture_content_sat": dict(lo=0.3, hi=0.6),
        "soil.clapp_hornberger": dict(lo=2.5, hi=19),
        "soil.sat_water_pressure": dict(lo=0.005, hi=1.5),
        "soil.vol_moisture_content": dict(lo=0, hi=0.3, gen=[0.0, 0.01]),
        "soil.therm_cond": dict(lo=0.05, hi=5), "soil.heat_cap": dict(lo=1e4, hi=1e8),
        "soil.heat_flux": dict(lo=-500, hi=500), "surface.heat_flux": dict(lo=-1000, hi=1000),
        "snow.thickness": dict(lo=0.01, hi=5), "snow.temp": dict(lo=220, hi=c.T0),
        "snow.therm_cond": dict(lo=0.01, hi=3),
    }
    sp.update(specs or {})
    return fill_state(env, m, sp)


LAY = [dict(n=n, bounded=f"{n} soil layers") for n in (1, 2)]
CON = [dict(n=n) for n in (1, 2, 4)]


@unit("C17", ["soil.soil_properties", "soil._soil_properties"], lambda tier: LAY[:1] if tier == "quick" else LAY,
      conc_cases=CON, goal_ms=20000)
def properties(env):
    n = env.case["n"]
    m = soil_model(env, n)
    b = snapshot(env, m)
    env.call(soil.soil_properties, m)
    s, S = env.sel, m.state.soil
    B = {k[5:]: s(v) for k, v in b.items() if k.startswith("soil.")}
    sat, psi, bb = B["vol_moisture_content_sat"], B["sat_water_pressure"], B["clapp_hornberger"]
    for k in range(n):
        th, T = B["vol_moisture_content"][k], B["temp"][k]
        fu, ff = s(S.frac_unfrozen_moisture_content)[k], s(S.frac_frozen_moisture_content)[k]
        hc, kc = s(S.heat_cap)[k], s(S.therm_cond)[k]
        dz = B["thickness"][k]
        env.ensure("frozen and unfrozen moisture are fractions of saturation, not negative",
                   env.and_(env.geq(fu, 0), env.geq(ff, 0, scale=1.0)))
        env.ensure("frozen + unfrozen moisture == total moisture", env.eqv(fu + ff, th / sat, scale=1.0))
        env.ensure("no ice at or above 0 degC", env.or_(env.lt(T, c.T0), env.eqv(fu, th / sat)))
        dry = env.le(th, 0)
        dc, dk = B["vol_heat_cap_dry"], B["therm_cond_dry"]
        env.ensure("heat capacity at least that of dry soil", env.geq(hc, dc * dz, scale=1e4))
        env.ensure("dry soil: dry properties", env.or_(env.not_(dry), env.and_(env.eqv(hc, dc * dz), env.eqv(kc, dk))))
        heat = (dc + c.WATER_DENSITY * c.SPEC_HEAT_CAP_WATER * fu * sat + c.WATER_DENSITY * c.SPEC_HEAT_CAP_ICE * ff * sat)
        env.ensure("unfrozen soil: heat capacity of soil and water",
                   env.or_(env.lt(T, c.T0), env.eqv(hc, heat * dz, scale=1e4)))
        if env.symbolic and bool(env._elems(dry)[0]):
            continue
        if env.symbolic:
            wet, sat_, psi_, b_ = None, sat, psi, bb
            one = lambda q: bool(env._elems(q)[0])  # noqa: E731
        else:
            wet = th > 0
            T, th, hc, kc, fu, ff, dk, heat, dz = (q[wet] for q in (T, th, hc, kc, fu, ff, dk, heat, dz))
            sat_, psi_, b_ = sat[wet], psi[wet], bb[wet]
        frz = env.lt(T, c.T0 - psi_ / KAPPA * (sat_ / th) ** b_)
        if env.symbolic:
            frz = one(frz)
            x = -KAPPA * (T - c.T0) / psi_ if frz else 1.0
        else:
            x = KAPPA * np.where(frz, c.T0 - T, 1.0) / psi_
        mx = sat_ * x ** (-1 / b_)
        env.ensure("freezing point depression", env.eqv(
            fu * sat_, env.ite(frz, env.ite(env.lt(mx, th), mx, th), th), scale=1.0))
        slope = env.ite(frz, KAPPA * sat_ / (b_ * psi_) * x ** (-1 / b_ - 1), 0.0)
        lat = c.LATENT_HEAT_OF_FUSION + (c.SPEC_HEAT_CAP_WATER - c.SPEC_HEAT_CAP_ICE) * (T - c.T0)
        env.ensure("apparent heat capacity includes the latent heat of the water freezing or thawing",
                   env.eqv(hc, (heat + c.WATER_DENSITY * lat * slope) * dz, scale=1e4))
        w = sat_ * (fu / (fu + ff))
        ks = dk * c.THERM_COND_WATER**w * c.THERM_COND_ICE ** (sat_ - w) / c.THERM_COND_AIR**sat_
        env.ensure("thermal conductivity between dry and saturated soil",
                   env.eqv(kc * sat_, dk * sat_ + (ks - dk) * th, scale=1.0))
    ensure_frame(env, m, b, {"soil.heat_cap", "soil.therm_cond", "soil.frac_frozen_moisture_content",
                             "soil.frac_unfrozen_moisture_content"})


@unit("C17", ["soil.soil_heat_flux", "soil._soil_heat_flux"])
def heat_flux(env):
    m = soil_model(env, 2)
    b = snapshot(env, m)
    env.call(soil.soil_heat_flux, m)
    s = env.sel
    B = {k: s(v) for k, v in b.items()}
    got, num = s(m.state.soil.heat_flux), B["snow.num_layers"]
    env.ensure("without snow the surface heat flux enters the soil",
               env.or_(env.gt(num, 0), env.eqv(got, B["surface.heat_flux"])))
    for n in range(1, 4):
        h, k = B["snow.thickness"][n - 1], B["snow.therm_cond"][n - 1]
        r = h / k / 2 + B["soil.thickness"][0] / B["soil.therm_cond"][0] / 2
        env.ensure("below snow the flux between the lowest snow layer and the top soil layer",
                   env.or_(env.not_(env.eq(num, n)),
                           env.eqv(got * r, B["snow.temp"][n - 1] - B["soil.temp"][0], scale=1.0)))
    ensure_frame(env, m, b, {"soil.heat_flux"})


@unit("C17", ["soil.soil_temperature", "heatconduction.temp_change_array"], LAY + [dict(n=3, bounded="3 soil layers")],
      conc_cases=CON, goal_ms=20000)
def temperature(env):
    n = env.case["n"]
    m = soil_model(env, n)
    b = snapshot(env, m)
    if env.symbolic:
        env.c.grid_mode = False
    with env.by_contract(tridiag, "solve_tridiag_array", tridiag_contract(env)):
        env.call(soil.soil_temperature, m)
    s = env.sel
    B = {k[5:]: s(v) for k, v in b.items() if k.startswith("soil.")}
    T0, T = B["temp"], s(m.state.soil.temp)
    h, k = B["thickness"], B["therm_cond"]
    g = interface_g(h, k, h[n - 1], k[n - 1], n)
    flux = [B["heat_flux"]] + [g[i] * (T[i] - (T[i + 1] if i + 1 < n else T0[n - 1])) for i in range(n)]
    for i in range(n):
        env.ensure(f"soil layer {i}: heat stored == inflow - outflow",
                   env.eqv(B["heat_cap"][i] * (T[i] - T0[i]), (flux[i] - flux[i + 1]) * m.timestep, scale=1e6, rtol=1e-6))
    ensure_frame(env, m, b, {"soil.temp"})


@unit("C17", ["soil.initialize"], goal_ms=20000)
def initialize(env):
    m = soil_model(env, 2)
    cfg = m.config.soil
    sand, clay = env.scalar("sand", 0, 1), env.scalar("clay", 0, 1)
    cfg.init_moisture_content = env.scalar("w", 0, 1)
    cfg.init_temp = env.scalar("t0", 230, 310)
    if not env.symbolic:
        f = sand + clay
        sand, clay = (sand / f, clay / f) if f > 1 else (sand, clay)
        sand = max(sand, 0.01)
        clay = min(clay, 1 - sand)
    else:
        env.assume(env.and_(env.le(sand + clay, 1), env.ge(sand, 0.01)))
    cfg.sand_fraction, cfg.clay_fraction = sand, clay
    b = snapshot(env, m)
    env.call(modules.soil.initialize, m)
    s, S = env.sel, m.state.soil
    env.ensure("initial temperature", env.eqv(s(S.temp), cfg.init_temp))
    for k, d in enumerate(cfg.thickness):
        env.ensure("layer thickness", env.eqv(s(S.thickness)[k], d))
    sat = s(S.vol_moisture_content_sat)
    env.ensure("porosity in (0, 1)", env.and_(env.gt(sat, 0), env.lt(sat, 1)))
    for k in range(2):
        w = s(S.vol_moisture_content)[k]
        env.ensure("initial moisture is the configured fraction of saturation", env.eqv(w, cfg.init_moisture_content * sat))
    hc = s(S.vol_heat_cap_dry)
    lo, hi = sorted((c.VOL_HEAT_CAP_SAND, c.VOL_HEAT_CAP_CLAY))
    env.ensure("dry heat capacity between sand and clay", env.and_(env.geq(hc, lo), env.leq(hc, hi)))
    env.ensure("Clapp-Hornberger exponent", env.eqv(s(S.clapp_hornberger), 3.1 + 15.7 * clay - 0.3 * sand))
    env.ensure("positive properties", env.and_(env.gt(s(S.sat_water_pressure), 0), env.gt(s(S.therm_cond_dry), 0),
                                              env.gt(s(S.vol_moisture_content_crit), 0)))
    ensure_frame(env, m, b, {f"soil.{k}" for k in (
        "temp", "thickness", "vol_heat_cap_dry", "clapp_hornberger", "sat_water_pressure", "vol_moisture_content_sat",
        "vol_moisture_content_crit", "therm_cond_minerals", "therm_cond_dry", "vol_moisture_content")})
