"""Surface energy balance (C09)."""

import numpy as np

from openamundsen import constants as c
from openamundsen import meteo, surface
from pyvc.unit import unit

from .c_cryolayer import cryo_model
from .common import ensure_frame, fill_state, make_model, snapshot

EPS, SIG, LF = 0.99, c.STEFAN_BOLTZMANN, c.LATENT_HEAT_OF_FUSION

MET = {
    "meteo.temp": dict(lo=220, hi=320),
    "meteo.sw_in": dict(lo=0, hi=1400, gen=[0.0]),
    "meteo.lw_in": dict(lo=50, hi=600),
    "meteo.spec_hum": dict(lo=1e-5, hi=0.04),
    "meteo.atmos_press": dict(lo=40000, hi=110000),
    "meteo.dry_air_density": dict(lo=0.4, hi=1.6),
    "meteo.wind_speed": dict(lo=0, hi=60, gen=[0.0]),
    "meteo.wet_bulb_temp": dict(lo=215, hi=320),
    "meteo.rainfall": dict(lo=0, hi=100, gen=[0.0]),
    "meteo.snowfall": dict(lo=0, hi=100, gen=[0.0]),
    "surface.albedo": dict(lo=0, hi=1),
    "surface.temp": dict(lo=220, hi=320, gen=[c.T0, c.T0 - 0.5]),
    "surface.turbulent_exchange_coeff": dict(lo=1e-5, hi=0.05),
    "surface.conductance": dict(lo=1e-4, hi=0.1),
    "surface.therm_cond": dict(lo=0.01, hi=5),
    "surface.thickness": dict(lo=0.05, hi=5),
    "surface.layer_temp": dict(lo=230, hi=310, gen=[c.T0, c.T0 - 0.5]),
    "snow.swe": dict(lo=0, hi=3000, gen=[0.0]),
}


def qsat(env, p, t):
    """Saturation specific humidity over water at or above 0 degC, over ice below."""
    return meteo.specific_humidity(p, meteo.saturation_vapor_pressure(t))


def es_lemma(env, t):
    """Range of the saturation vapor pressure (unit es_range)."""
    if env.symbolic:
        e = meteo.saturation_vapor_pressure(t)
        env.assume(env.and_(env.gt(e, 0), env.lt(e, 15000)))


@unit("C09", ["atmosphere.saturation_vapor_pressure"])
def es_range(env):
    t = env.scalar("t", 220, 320)
    if env.symbolic:
        env.anchor("exp", 3.2)
    e = env.call(meteo.saturation_vapor_pressure, t)
    env.ensure("saturation vapor pressure is positive", env.gt(e, 0))
    env.ensure("saturation vapor pressure is far below the atmospheric pressure", env.lt(e, 15000))


def flux_clauses(env, m, b, s, ground=True):
    """Definitions every flux has to obey with the final surface temperature."""
    M, S = m.state.meteo, m.state.surface
    T = s(S.temp)
    env.ensure("outgoing shortwave == albedo * incoming", env.eqv(s(M.sw_out), s(b["surface.albedo"] * b["meteo.sw_in"])))
    env.ensure("outgoing longwave == emission of the surface", env.eqv(s(M.lw_out), EPS * SIG * T**4, scale=1.0))
    env.ensure("net radiation == incoming - outgoing",
               env.eqv(s(M.net_radiation), s(b["meteo.sw_in"] - M.sw_out + b["meteo.lw_in"] - M.lw_out), scale=100.0))
    cu = s(b["meteo.dry_air_density"] * b["surface.turbulent_exchange_coeff"] * b["meteo.wind_speed"])
    env.ensure("sensible heat flux points from the warmer to the colder medium, at the new surface temperature",
               env.eqv(s(S.sens_heat_flux), c.SPEC_HEAT_CAP_DRY_AIR * cu * (s(b["meteo.temp"]) - T), scale=100.0))
    env.ensure("latent heat flux == latent heat * moisture flux",
               env.eqv(s(S.lat_heat_flux), s(S.lat_heat * S.moisture_flux), scale=1.0))
    return cu, T


@unit("C09", ["surface.energy_balance", "surface.multilayer_energy_balance"],
      [dict(L=L, ice=i, cold=f, bounded=f"{L} snow layers") for L in (1, 2) for i in (True, False)
       for f in (True, False)], goal_ms=20000, feas_ms=150, max_s=300,
      conc_cases=[dict(L=1), dict(L=3)])
def multilayer(env):
    L = env.case["L"]
    m = make_model(env, timestep=env.scalar("dt", 600, 86400),
                   snow=dict(model="multilayer", min_thickness=[0.1] * L))
    fill_state(env, m, {**MET, "snow.ice_content": dict(lo=0, hi=1000, gen=lambda r, n: r.choice([0, 0.01, 1, 500.0], n))})
    ice = m.state.snow.ice_content
    if not env.symbolic:
        ice[np.cumsum(ice == 0, axis=0) > 0] = 0.0
    for k in range(1, L):  # no ice below an empty layer
        env.assume(env.or_(env.gt(ice[k - 1], 0), env.eq(ice[k], 0)))
    b = snapshot(env, m)
    if env.symbolic:  # the cases partition the pixels
        t, i0 = b["surface.temp"], b["snow.ice_content"][0]
        env.assume(env.lt(t, c.T0) if env.case["cold"] else env.ge(t, c.T0))
        env.assume(env.gt(i0, 0) if env.case["ice"] else env.eq(i0, 0))
    es_lemma(env, b["surface.temp"])
    es_lemma(env, np.asarray(c.T0))
    env.call(surface.energy_balance, m)
    s, S, dt = env.sel, m.state.surface, m.timestep
    cu, T = flux_clauses(env, m, b, s)
    B = {k: s(b[k]) for k in b if b[k].ndim == 2 or k == "snow.ice_content"}
    ice = b["snow.ice_content"]
    melt = s(m.state.snow.melt)
    Told, Ta = B["surface.temp"], B["meteo.temp"]
    env.ensure("ground heat flux == 2 k (surface - layer temperature) / thickness",
               env.eqv(s(S.heat_flux), 2 * B["surface.therm_cond"] * (T - B["surface.layer_temp"])
                       / B["surface.thickness"], scale=100.0))
    env.ensure("melt is not negative", env.geq(melt, 0))
    top, tot = s(ice[0]), s(ice.sum(axis=0))
    env.ensure("melt only where there is ice", env.or_(env.gt(top, 0), env.eqv(melt, 0)))
    env.ensure("latent heat of sublimation over ice or below 0 degC, of vaporization otherwise",
               env.eqv(s(S.lat_heat), meteo.latent_heat_of_vaporization(Ta)
                       + env.ite(env.or_(env.gt(top, 0), env.lt(T, c.T0)), LF, 0.0), scale=1.0))
    q0 = qsat(env, B["meteo.atmos_press"], Told)
    ma = s(S.moisture_availability)
    wet = env.or_(env.lt(q0, B["meteo.spec_hum"]), env.gt(B["snow.swe"], 0))
    g = B["surface.conductance"]
    env.ensure("moisture availability: 1 over snow or with condensation, else limited by the soil conductance",
               env.eqv(ma, env.ite(wet, 1.0, g / (g + B["surface.turbulent_exchange_coeff"] * B["meteo.wind_speed"]))))
    frozen = env.or_(env.gt(top, 0), env.lt(Told, c.T0))
    lat0 = meteo.latent_heat_of_vaporization(Ta) + env.ite(frozen, LF, 0.0)
    dq = lat0 * q0 / (c.SPEC_GAS_CONSTANT_WATER_VAPOR * Told**2)
    E = s(S.moisture_flux)
    adv = lambda t: (c.SPEC_HEAT_CAP_WATER * (Ta - t) * B["meteo.rainfall"]  # noqa: E731
                     + c.SPEC_HEAT_CAP_ICE * (B["meteo.wet_bulb_temp"] - t) * B["meteo.snowfall"]) / dt
    rad = lambda t: (B["meteo.sw_in"] * (1 - B["surface.albedo"]) + B["meteo.lw_in"]  # noqa: E731
                     - EPS * SIG * t**4)
    # partial melt: the surface is at the melting point and less than all ice melts
    H, G = s(S.sens_heat_flux), s(S.heat_flux)
    dT = T - Told
    lin_E = ma * cu * (B["meteo.spec_hum"] - q0 - dq * dT)
    lin = (rad(Told) - 4 * SIG * Told**3 * dT + H + lat0 * lin_E + adv(Told) - G - LF * melt / dt)
    qm = qsat(env, B["meteo.atmos_press"], env.ite(env.lt(T, 0.0), T, c.T0))
    exact = rad(T) + H + (meteo.latent_heat_of_vaporization(Ta) + LF) * ma * cu * (B["meteo.spec_hum"] - qm) + adv(T) - G
    if env.symbolic:
        lin_ok = env.and_(env.eqv(lin, 0.0), env.eqv(E, lin_E), env.or_(env.eqv(melt, 0), env.eqv(melt, tot)))
        ex_ok = env.and_(env.eqv(T, c.T0), env.gt(top, 0),
                         env.eqv(melt * LF, env.ite(env.gt(exact, 0), exact * dt, 0.0)),
                         env.eqv(E, ma * cu * (B["meteo.spec_hum"] - qm)))
    else:
        sc = 1.0 + abs(rad(Told)) + abs(H) + abs(G) + abs(LF * melt / dt) + abs(lat0 * lin_E) + abs(adv(Told)) + 4 * SIG * Told**3 * abs(dT)
        lin_ok = (np.abs(lin) <= 1e-6 * sc) & (env.eqv(E, lin_E, scale=1e-3, rtol=1e-6)) & (
            env.eqv(melt, 0) | env.eqv(melt, tot))
        ex_ok = (T == c.T0) & (top > 0) & env.eqv(melt * LF, np.maximum(exact * dt, 0), scale=1e6, rtol=1e-6) & (
            env.eqv(E, ma * cu * (B["meteo.spec_hum"] - qm), scale=1e-3, rtol=1e-6))
    env.ensure("the (linearised) energy balance closes with the reported fluxes and melt", env.or_(lin_ok, ex_ok))
    env.ensure("no ice-covered surface above the melting point unless all ice melts",
               env.or_(env.leq(T, c.T0, scale=1.0), env.leq(top, 0), env.eqv(melt, tot)))
    env.ensure("advective heat flux", env.or_(env.eqv(s(S.advective_heat_flux), adv(Told), scale=100.0),
                                             env.eqv(s(S.advective_heat_flux), adv(T), scale=100.0)))
    ensure_frame(env, m, b, {"snow.melt", "surface.temp", "surface.sat_spec_hum", "surface.moisture_availability",
                             "surface.lat_heat", "surface.heat_flux", "surface.sens_heat_flux",
                             "surface.lat_heat_flux", "surface.moisture_flux", "surface.advective_heat_flux",
                             "meteo.sw_out", "meteo.lw_out", "meteo.net_radiation"})


# --------------------------------------------------------------------------- cryolayer model


def cryo_fluxes(env, B, T, dt, G):
    """Energy available at a surface of temperature T."""
    cu = B["meteo.dry_air_density"] * B["surface.turbulent_exchange_coeff"] * B["meteo.wind_speed"]
    lat = meteo.latent_heat_of_vaporization(B["meteo.temp"]) + LF
    E = cu * (B["meteo.spec_hum"] - qsat(env, B["meteo.atmos_press"], T))
    adv = (c.SPEC_HEAT_CAP_WATER * (B["meteo.temp"] - T) * B["meteo.rainfall"]
           + c.SPEC_HEAT_CAP_ICE * (B["meteo.wet_bulb_temp"] - T) * B["meteo.snowfall"]) / dt
    return (B["meteo.sw_in"] * (1 - B["surface.albedo"]) + B["meteo.lw_in"] - EPS * SIG * T**4
            + c.SPEC_HEAT_CAP_DRY_AIR * cu * (B["meteo.temp"] - T) + lat * E + adv - G)


def iterate_contract(env, m):
    """Surface temperature iteration: cold snow surfaces end up at or below the melting point."""
    S = m.state.surface

    def fn(model, frosties):
        if not bool(env.A.raw(frosties)[0, 0]):
            return
        t = env.fresh("ts", S.temp.shape, S.temp.ax)
        env.assume(env.and_(env.ge(t, 150), env.le(t, c.T0)))
        S.temp[frosties] = t[frosties]
        for k in ("sat_spec_hum", "moisture_flux", "lat_heat_flux", "sens_heat_flux", "advective_heat_flux"):
            q = env.fresh(k, S.temp.shape, S.temp.ax)
            S[k][frosties] = q[frosties]

    return fn


@unit("C09", ["surface.energy_balance", "surface.cryo_layer_energy_balance"],
      [dict(kind=k, first=f) for k in ("melt", "frost") for f in range(4)] + [dict(kind="none", first=None)],
      conc_cases=[{}, {}], goal_ms=20000, max_s=300, feas_ms=150)
def cryolayers(env):
    """first: topmost layer present (the cases partition the pixels)."""
    sp = {k: v for k, v in MET.items() if k != "snow.swe"}
    m = cryo_model(env, sp)
    S, Sn, M = m.state.surface, m.state.snow, m.state.meteo
    there = Sn.ice_content > 0
    Sn.swe[...] = (Sn.ice_content + Sn.liquid_water_content).sum(axis=0)
    if env.symbolic:
        k, f = env.case["kind"], env.case["first"]
        for i in range(4 if f is None else f):
            env.assume(env.eq(Sn.ice_content[i], 0))
        if f is not None:
            env.assume(env.gt(Sn.ice_content[f], 0))
        if k != "none":
            env.assume(env.ge(M.temp, c.T0) if k == "melt" else env.lt(M.temp, c.T0))
    b = snapshot(env, m)
    es_lemma(env, b["meteo.temp"])
    es_lemma(env, np.asarray(c.T0))
    if env.symbolic:
        with env.by_contract(surface, "iterate_surface_temperature", iterate_contract(env, m)):
            env.call(surface.energy_balance, m)
    else:
        env.call(surface.energy_balance, m)
    s, dt = env.sel, m.timestep
    B = {k: s(b[k]) for k in b if b[k].ndim == 2}
    Ta, melt, refr = B["meteo.temp"], s(Sn.melt), s(Sn.refreezing)
    any_ = s(env.or_(*[there[i] for i in range(4)]))
    warm, cold = env.and_(any_, env.ge(Ta, c.T0)), env.and_(any_, env.lt(Ta, c.T0))
    no = env.not_
    T = s(S.temp)
    flux_cl(env, m, b, s)
    env.ensure("without snow the surface has air temperature, nothing melts or refreezes",
               env.or_(any_, env.and_(env.eqv(T, Ta), env.eqv(melt, 0), env.eqv(refr, 0))))
    env.ensure("snow surface at 0 degC in warm air", env.or_(no(warm), env.eqv(T, c.T0)))
    env.ensure("snow surface not above 0 degC in cold air", env.or_(no(cold), env.leq(T, c.T0)))
    env.ensure("latent heat of sublimation over snow or below 0 degC",
               env.eqv(s(S.lat_heat), meteo.latent_heat_of_vaporization(Ta)
                       + env.ite(env.or_(any_, env.lt(Ta, c.T0)), LF, 0.0), scale=1.0))
    G = m.config.snow.cryolayers.surface_heat_flux
    en = cryo_fluxes(env, B, c.T0 + 0 * Ta, dt, G)
    # melt: top-down, cold content first
    i0, i1 = s(b["snow.ice_content"]), s(Sn.ice_content)
    l0, l1 = s(b["snow.liquid_water_content"]), s(Sn.liquid_water_content)
    c0, c1 = s(b["snow.cold_content"]), s(Sn.cold_content)
    rem = env.ite(env.gt(en, 0), en * dt / LF, 0.0)
    tot = 0 * Ta
    for k in range(4):
        a = i0[k] + c0[k]
        full = env.gt(rem, a)
        used = env.ite(full, a, rem)
        dc = env.ite(env.lt(used, c0[k]), used, c0[k])
        tot = tot + used - dc
        env.ensure(f"layer {k}: energy reduces the cold content first",
                   env.or_(no(warm), env.eqv(c1[k], c0[k] - dc, scale=10.0)))
        rem = rem - used
    env.ensure("melt is the ice equivalent of the available energy, top-down, after the cold content",
               env.or_(no(warm), env.eqv(melt, tot, scale=10.0)))
    env.ensure("no melt below 0 degC", env.or_(no(cold), env.eqv(melt, 0)))
    env.ensure("no refreezing in warm air", env.or_(no(warm), env.eqv(refr, 0)))
    # refreezing and cold content build-up in the snow layers
    cfg = m.config.snow.cryolayers
    avail = env.ite(env.lt(en, 0), -en * dt / LF * cfg.refreezing_factor, 0.0)
    R = 0 * Ta
    for k in range(4):
        r = 0 * Ta
        if k < 2:
            act = env.and_(env.gt(i0[k], 0), env.gt(avail, 0))
            r = env.ite(act, env.ite(env.lt(l0[k], avail), l0[k], avail), 0.0)
            avail = avail - r
            cap = cfg.cold_holding_capacity * (i0[k] + l0[k])
            up = env.ite(act, env.ite(env.lt(avail, cap - c0[k]), avail, cap - c0[k]), 0.0)
            avail = avail - up
            env.ensure(f"layer {k}: the rest builds up cold content, up to the holding capacity",
                       env.or_(no(cold), env.eqv(c1[k], c0[k] + up, scale=10.0)))
        else:
            env.ensure(f"layer {k}: no cold content changes", env.or_(no(cold), env.eqv(c1[k], c0[k])))
        R = R + r
        env.ensure(f"layer {k}: energy deficit refreezes liquid water first",
                   env.or_(no(cold), env.eqv(l1[k], l0[k] - r, scale=10.0)))
    env.ensure("refreezing reported", env.or_(no(cold), env.eqv(refr, R, scale=10.0)))
    ensure_frame(env, m, b, CRYO_MAY | {"snow.cold_content"})


CRYO_MAY = {"snow.melt", "snow.refreezing", "snow.ice_content", "snow.liquid_water_content",
            "surface.temp", "surface.sat_spec_hum", "surface.moisture_availability", "surface.lat_heat",
            "surface.heat_flux", "surface.sens_heat_flux", "surface.lat_heat_flux", "surface.moisture_flux",
            "surface.advective_heat_flux", "meteo.sw_out", "meteo.lw_out", "meteo.net_radiation"}


def flux_cl(env, m, b, s):
    flux_clauses(env, m, b, s)


@unit("C03", ["surface.cryo_layer_energy_balance"], [dict(kind=k) for k in ("melt", "frost")],
      goal_ms=20000, max_s=300, feas_ms=150)
def cryo_refreezing_balance(env):
    """Refreezing within the energy balance moves liquid water to ice of the same layer."""
    sp = {k: v for k, v in MET.items() if k != "snow.swe"}
    m = cryo_model(env, sp)
    S, Sn, M = m.state.surface, m.state.snow, m.state.meteo
    Sn.swe[...] = (Sn.ice_content + Sn.liquid_water_content).sum(axis=0)
    if env.symbolic:
        env.assume(env.ge(M.temp, c.T0) if env.case["kind"] == "melt" else env.lt(M.temp, c.T0))
    b = snapshot(env, m)
    es_lemma(env, b["meteo.temp"])
    es_lemma(env, np.asarray(c.T0))
    with env.by_contract(surface, "iterate_surface_temperature", iterate_contract(env, m)):
        env.call(surface.energy_balance, m)
    s = env.sel
    i0, i1 = s(b["snow.ice_content"]), s(Sn.ice_content)
    l0, l1 = s(b["snow.liquid_water_content"]), s(Sn.liquid_water_content)
    env.ensure("water of each layer unchanged by the energy balance", env.eqv(i1 + l1, i0 + l0, scale=10.0))
    env.ensure("liquid water only decreases, and not below 0", env.and_(env.leq(l1, l0), env.geq(l1, 0)))
    env.ensure("refreezing == ice gained", env.eqv(s(Sn.refreezing), (i1 - i0).sum(axis=0), scale=10.0))


# --------------------------------------------------------------------------- surface properties


@unit("C09", ["surface.surface_properties", "surface.calc_turbulent_exchange_coefficient", "surface.stability_factor",
              "surface.surface_layer_properties"],
      [dict(model=k, stab=q, adj=a) for k in ("multilayer", "cryolayers") for q in (True, False) for a in (True, False)],
      goal_ms=20000)
def properties(env):
    k, stab, adj = (env.case[q] for q in ("model", "stab", "adj"))
    m = make_model(env, snow=dict(model=k, measurement_height_adjustment=adj), meteo=dict(stability_correction=stab))
    fill_state(env, m, {
        "snow.area_fraction": dict(lo=0, hi=1, gen=[0.0, 1.0]),
        "snow.albedo": dict(lo=0, hi=1), "snow.depth": dict(lo=0, hi=10, gen=[0.0]),
        "snow.thickness": dict(lo=0, hi=5, gen=[0.0]), "snow.temp": dict(lo=220, hi=c.T0),
        "snow.therm_cond": dict(lo=0.01, hi=3), "soil.therm_cond": dict(lo=0.1, hi=4),
        "soil.thickness": dict(lo=0.05, hi=2), "soil.temp": dict(lo=230, hi=310),
        "soil.frac_unfrozen_moisture_content": dict(lo=0, hi=1),
        "soil.vol_moisture_content_sat": dict(lo=0.3, hi=0.6), "soil.vol_moisture_content_crit": dict(lo=0.1, hi=0.5),
        "meteo.temp": dict(lo=220, hi=320), "surface.temp": dict(lo=220, hi=320),
        "meteo.wind_speed": dict(lo=0, hi=60, gen=[0.0]),
    })
    b = snapshot(env, m)
    env.call(surface.surface_properties, m)
    s, S, cfg = env.sel, m.state.surface, m.config
    B = {q: s(v) for q, v in b.items()}
    f, ns = B["snow.area_fraction"], cfg.soil.albedo
    env.ensure("albedo is the area-weighted mean of snow and soil", env.eqv(
        s(S.albedo), env.ite(env.gt(f, 0), f * B["snow.albedo"] + (1 - f) * ns, ns)))
    z = s(S.roughness_length)
    z1, z2 = cfg.snow.roughness_length, cfg.soil.roughness_length
    lo, hi = min(z1, z2), max(z1, z2)
    env.ensure("roughness length is the weighted geometric mean", env.eqv(z, z1**f * z2 ** (1 - f)))
    if not env.symbolic:
        env.ensure("roughness length lies between those of snow and soil, snow if covered, soil if bare",
                   env.and_(env.geq(z, lo), env.leq(z, hi), env.or_(env.gt(f, 0), env.eqv(z, z2)),
                            env.or_(env.lt(f, 1), env.eqv(z, z1))))
    zt, zw = cfg.meteo.measurement_height.temperature, cfg.meteo.measurement_height.wind
    zt = 0 * f + zt
    if adj:
        zt = zt - B["snow.depth"]
        zt = env.ite(env.lt(zt, 1.0), 1.0, zt)
    neutral = c.VON_KARMAN**2 / (env.f("log", zw / z) * env.f("log", zt / (0.1 * z)))
    ch, Ta, Ts = s(S.turbulent_exchange_coeff), B["meteo.temp"], B["surface.temp"]
    if not stab:
        env.ensure("exchange coefficient: neutral value", env.eqv(ch, neutral))
    else:
        env.ensure("exchange coefficient is positive", env.gt(ch, 0))
        env.ensure("stable stratification does not enhance turbulent exchange", env.or_(env.lt(Ta, Ts), env.leq(ch, neutral)))
        env.ensure("unstable stratification does not reduce turbulent exchange", env.or_(env.gt(Ta, Ts), env.geq(ch, neutral)))
        u = B["meteo.wind_speed"]
        u = env.ite(env.eq(u, 0), 0.5, u)
        ri = c.GRAVITATIONAL_ACCELERATION * zw**2 * (Ta - Ts) / (zt * Ta * u**2)
        a = cfg.meteo.stability_adjustment_parameter
        if not env.symbolic:
            rs, ru = np.maximum(ri, 0), np.maximum(-ri, 0)
            fst = 1 / (1 + 3 * a * rs * np.sqrt(1 + a * rs))
            cc = 3 * a**2 * c.VON_KARMAN**2 * np.sqrt(zw / z) / np.log(zw / z) ** 2
            fun = 1 + 3 * a * ru / (1 + cc * np.sqrt(ru))
            env.ensure("stability correction of FSM", env.eqv(ch, neutral * np.where(ri >= 0, fst, fun)))
    may = {"surface.albedo", "surface.roughness_length", "surface.turbulent_exchange_coeff"}
    if k == "multilayer":
        w = B["soil.frac_unfrozen_moisture_content"][0] * B["soil.vol_moisture_content_sat"] / B["soil.vol_moisture_content_crit"]
        g = w**2
        env.ensure("surface conductance", env.eqv(s(S.conductance), cfg.soil.saturated_soil_surface_conductance
                                                  * env.ite(env.gt(g, 1), g, 1.0)))
        h, d = B["snow.thickness"][0], B["soil.thickness"][0]
        ks, kg = B["snow.therm_cond"][0], B["soil.therm_cond"][0]
        env.ensure("surface layer thickness", env.eqv(s(S.thickness), env.ite(env.gt(h, d), h, d)))
        kk = s(S.therm_cond)
        env.ensure("thermal conductivity of the surface layer: snow if it reaches the middle of the layer",
                   env.or_(env.le(h, d / 2), env.eqv(kk, ks)))
        env.ensure("thermal conductivity of the surface layer: snow and soil in series otherwise",
                   env.or_(env.gt(h, d / 2), env.eqv(kk * (2 * h / ks + (d - 2 * h) / kg), d)))
        Tg, Tn = B["soil.temp"][0], B["snow.temp"][0]
        t = s(S.layer_temp)
        env.ensure("temperature of the surface layer", env.eqv(t, env.ite(env.gt(h, d), Tn, Tg + (Tn - Tg) * h / d)))
        may |= {"surface.conductance", "surface.thickness", "surface.therm_cond", "surface.layer_temp"}
    ensure_frame(env, m, b, may)


@unit("C09", ["surface.iterate_surface_temperature"], conc_cases=[dict(method=k, strong=q) for k in ("secant", "legacy") for q in (False, True)], sym=False, w=4)
def surface_temperature(env):
    """Cold snow surfaces: the surface temperature balances the energy fluxes or is the melting point."""
    sp = {k: dict(v) for k, v in MET.items() if k != "snow.swe"}
    sp["meteo.temp"] = dict(lo=240, hi=c.T0 - 0.01)
    sp["meteo.wet_bulb_temp"] = dict(lo=240, hi=c.T0)
    sp["meteo.spec_hum"] = dict(lo=1e-4, hi=0.004)
    sp["meteo.lw_in"] = dict(lo=150, hi=400)
    sp["surface.turbulent_exchange_coeff"] = dict(lo=1e-4, hi=0.01)
    sp["meteo.wind_speed"] = dict(lo=0.1, hi=20)
    if env.case["strong"]:  # positive energy balance at the melting point, weak turbulence
        sp["meteo.sw_in"] = dict(lo=600, hi=1400)
        sp["meteo.lw_in"] = dict(lo=250, hi=400)
        sp["meteo.wind_speed"] = dict(lo=0.1, hi=3)
    m = cryo_model(env, sp)
    m.config.snow.cryolayers.surface_temperature_iteration_method = env.case["method"]
    Sn, S = m.state.snow, m.state.surface
    Sn.swe[...] = (Sn.ice_content + Sn.liquid_water_content).sum(axis=0)
    b = snapshot(env, m)
    env.call(surface.energy_balance, m)
    pos = env.roi & (b["snow.ice_content"] > 0).any(axis=0)
    B = {k: b[k][pos] for k in b if b[k].ndim == 2}
    G, T = m.config.snow.cryolayers.surface_heat_flux, S.temp[pos]
    f = lambda t: cryo_fluxes(env, B, t, m.timestep, G)  # noqa: E731
    env.ensure("not above the melting point", T <= c.T0)
    d = 0.05 if env.case["method"] == "secant" else 0.2501
    # the remainder falls with the surface temperature: the root lies within d of the result
    ok = (f(T - d) >= 0) & ((f(T + d) <= 0) | (T >= c.T0 - 1e-9))
    if env.case["method"] == "legacy" and T.size:
        ok |= T <= B["meteo.temp"].min() - 3 + 0.25
    env.ensure("the energy balance is closed at the surface temperature", ok)
