"""Evapotranspiration: soil water balance and fluxes (C15), crop coefficient and LAI curves (C16)."""

import math

import numpy as np
import pandas as pd
from munch import Munch

from openamundsen import constants as c
from openamundsen.modules.evapotranspiration import evapotranspiration as et
from pyvc.unit import unit

from .common import fill_state, make_model, snapshot

CLASSES = {
    1: dict(crop_coefficient_type="dual", crop_coefficients=[0.3, 0.9, 0.8], plant_date=60,
            growth_stage_lengths=[10, 20, 100, 30], max_height=0.2, rooting_depth=0.5, depletion_fraction=0.6,
            scale_height=False),
    2: dict(crop_coefficient_type="dual", crop_coefficients=[0.2, 0.4, 0.25], plant_date=80,
            growth_stage_lengths=[[5, 10, 20, 10], [3, 8, 12, 7]], max_height=1.2, rooting_depth=1.0,
            depletion_fraction=0.5),
    3: dict(crop_coefficient_type="single", crop_coefficients=[0.4, 1.0, 0.3], plant_date=60,
            growth_stage_lengths=[10, 20, 100, 30], max_height=0.5, rooting_depth=0.8, depletion_fraction=0.4),
    4: dict(is_sealed=True, max_height=0.05, max_sealed_interception=0.6, rooting_depth=0.1, depletion_fraction=0.5),
    5: dict(is_water_body=True, crop_coefficient_type="single", crop_coefficients=[0.6, 0.65, 0.6], plant_date=60,
            growth_stage_lengths=[10, 20, 100, 30], max_height=0.1, rooting_depth=0.1, depletion_fraction=0.5),
    6: dict(crop_coefficient_type="dual", crop_coefficients=[0.2, 0.7, 0.3], plant_date=60, is_sparse=True,
            sparse_vegetation_fraction=0.4, growth_stage_lengths=[10, 20, 100, 30], max_height=0.4, rooting_depth=0.3,
            depletion_fraction=0.5, scale_height=False),
    7: dict(crop_coefficient_type="single", crop_coefficients=[0.3, 0.95, 0.5], plant_date=60, is_sparse=True,
            sparse_vegetation_fraction=0.3, growth_stage_lengths=[[10, 20, 40, 10], [5, 15, 30, 20]], max_height=0.6,
            rooting_depth=0.7, depletion_fraction=0.45),
    8: dict(crop_coefficient_type="dual", crop_coefficients=[0.3, 0.5, 0.4], plant_date=60, is_water_body=True,
            growth_stage_lengths=[10, 20, 100, 30], max_height=0.15, rooting_depth=0.2, depletion_fraction=0.5),
}
KMIN = 0.175
DECL = 12.0
# days of year: before, initial, development, mid, late, after the growing period
DAYS = (30, 65, 75, 88, 120, 210, 350)
TAW = (60.0, 200.0)


def curve(day, lengths, ini, mid, end, kmin):
    """The crop coefficient curve: (stage, Kc); lengths: list of growth cycles."""
    left = day
    if day < 1:
        return None, kmin
    for cyc in lengths:
        for stage, n in enumerate(cyc):
            if left <= n and n > 0:
                if stage == 0:
                    return 0, ini
                if stage == 1:
                    return 1, ini + left / n * (mid - ini)
                if stage == 2:
                    return 2, mid
                return 3, mid + left / n * (end - mid)
            left -= n
    return None, kmin


def et_model(env, lcc=None, missing=False, initialised=True, day=None, dt=10800.0, sun=None):
    m = make_model(env, timestep=dt, evapotranspiration=dict(enabled=True))
    m.config.land_cover.classes = Munch.fromDict(CLASSES)
    lo, hi = TAW
    nan = dict(nan=True) if not env.symbolic else {}
    sp = {
        "evapotranspiration.total_evaporable_water": dict(lo=12, hi=40),
        "evapotranspiration.readily_evaporable_water": dict(lo=4, hi=11),
        "evapotranspiration.total_available_water": dict(lo=lo, hi=hi),
        "evapotranspiration.clim_corr": dict(lo=-0.25, hi=0.25),
        "evapotranspiration.ref_albedo": dict(lo=0, hi=1),
        "evapotranspiration.ref_emissivity": dict(lo=0, hi=1),
        "snow.swe": dict(lo=0, hi=100, gen=[0.0]),
        "meteo.rainfall": dict(lo=0, hi=100, gen=[0.0], nan=True),
        "meteo.top_canopy_temp": dict(lo=230, hi=315, **nan),
        "meteo.top_canopy_sw_in": dict(lo=0, hi=1200),
        "meteo.top_canopy_lw_in": dict(lo=100, hi=500),
        "meteo.top_canopy_wind_speed": dict(lo=0.1, hi=30),
        "meteo.psych_const": dict(lo=20, hi=100),
        "meteo.sat_vap_press": dict(lo=10, hi=8000),
        "meteo.vap_press": dict(lo=1, hi=8000),
        "meteo.atmos_press": dict(lo=5e4, hi=1.1e5),
    }
    if missing:
        sp["meteo.top_canopy_temp"] = np.full(env.shape, np.nan) if not env.symbolic else env.const_grid(np.nan)
    fill_state(env, m, sp)
    e = m.state.evapotranspiration
    # invariant of the water stores
    fr, fd, fs, fi = (env.grid(f"frac{k}", 0, 1) for k in range(4))
    e.readily_available_water = e.total_available_water * (0.2 + 0.6 * fr)
    e.cum_root_zone_depletion = e.total_available_water * fd
    e.cum_soil_surface_depletion = e.total_evaporable_water * fs
    e.sealed_interception = CLASSES[4]["max_sealed_interception"] * fi
    if env.symbolic:
        lc = np.full(env.shape, lcc)
    else:
        lc = env.grid("lc", 0, 10, integer=True)
    m.state.land_cover.land_cover = lc
    m.land_cover.class_pixels = {}
    m.evapotranspiration.land_cover_class_pixels = {
        k: env.and_(lc == k, m.grid.roi) if not env.symbolic else (np.asarray(lc == k) & m.grid.roi) for k in CLASSES}
    day = env.case["day"] if day is None else day
    m.date = pd.Timestamp("2019-01-01") + pd.Timedelta(days=day - 1)
    m.dates, m.date_idx = pd.DatetimeIndex([pd.Timestamp("2018-10-01"), m.date]), 1  # the run began in the year before
    m.sun_params = {"sun_over_horizon": sun if sun is not None else env.case.get("sun", True), "declination_angle": DECL}
    return m


def crop(env, m, lcc, cc):
    """Kc of the class on the current day, with the climate correction; and the plant height."""
    q = CLASSES[lcc]
    ini, mid, end = q["crop_coefficients"]
    g = q["growth_stage_lengths"]
    g = g if isinstance(g[0], list) else [g]
    if q.get("is_sparse"):
        lat, dec = math.radians(m.grid.center_lat), math.radians(DECL)
        s = math.sin(lat) * math.sin(dec) + math.cos(lat) * math.cos(dec)
        f = q["sparse_vegetation_fraction"]
        mid = KMIN + (mid - KMIN) * min(1, 2 * f, (f / s) ** (1 / (1 + q["max_height"])))
    mid_ = mid + cc if mid >= 0.45 else mid
    end_ = end + cc if end >= 0.45 else end
    day = m.date.dayofyear - q["plant_date"] + 1
    stage, kc = curve(day, g, ini, mid_, end_, KMIN)
    h = q["max_height"]
    if q.get("scale_height", True):
        low = {None: KMIN, 0: KMIN, 1: ini, 2: mid_, 3: mid_}[stage]
        kc_ = kc if stage is not None else KMIN
        big = env.ite(env.gt(kc_ / mid_, low / mid_), kc_ / mid_, low / mid_) if stage is not None else kc_ / mid_
        h = h * big
    return kc, h


def mx(env, a, b):
    return env.ite(env.gt(a, b), a, b)


def mn(env, a, b):
    return env.ite(env.lt(a, b), a, b)


def check_pixels(env, m, b, lcc, pos):
    """The contract of one time step for the pixels `pos` of land cover class `lcc`."""
    q = CLASSES[lcc]
    e = m.state.evapotranspiration
    new = {k: e[k][pos] for k in e._meta if k not in ("soil_texture",)}
    old = {k.split(".")[1]: v[pos] for k, v in b.items() if k.startswith("evapotranspiration.")}
    met = {k.split(".")[1]: v[pos] for k, v in b.items() if k.startswith("meteo.")}
    P = env.ite(env.isnan(met["rainfall"]), 0.0, met["rainfall"])
    snow = env.gt(b["snow.swe"][pos], 0)
    eto = env.ite(env.isnan(new["et_ref"]), 0.0, new["et_ref"])
    E, T, ET = new["evaporation"], new["transpiration"], new["evapotranspiration"]
    kind = q.get("crop_coefficient_type", "sealed")
    T_ = f"class {kind}"
    env.ensure(f"{T_}: evapotranspiration is a non-negative number", env.geq(ET, 0))
    if not q.get("is_water_body"):
        env.ensure(f"{T_}: none from snow-covered pixels", env.implies(snow, env.eqv(ET, 0)))
    if kind != "single":
        env.ensure(f"{T_}: evaporation and transpiration are non-negative", env.and_(env.geq(E, 0), env.geq(T, 0)))
        env.ensure(f"{T_}: total is evaporation plus transpiration", env.eqv(ET, E + T))
    kept = ("total_evaporable_water", "total_available_water", "readily_evaporable_water",
            "readily_available_water", "clim_corr", "ref_albedo", "ref_emissivity")
    for k in kept:
        env.ensure("frame: soil characteristics unchanged", env.same(new[k], old[k]))
    if kind == "sealed":
        sealed(env, m, q, old, new, met, snow, E, T)
        return
    env.ensure("frame: sealed interception unchanged", env.same(new["sealed_interception"], old["sealed_interception"]))
    kc, h = crop(env, m, lcc, old["clim_corr"])
    free = env.not_(snow)
    if q.get("is_water_body"):
        free = env.or_(free, True)
    d0, taw, raw_ = old["cum_root_zone_depletion"], old["total_available_water"], old["readily_available_water"]
    stress = (taw - d0) / (taw - raw_)
    stress = env.ite(env.lt(stress, 1), stress, 1.0)
    if q.get("is_water_body"):
        stress = 1.0
    else:
        env.ensure("water stress coefficient within [0, 1]",
                   env.implies(free, env.and_(env.geq(new["water_stress_coeff"], 0),
                                              env.leq(new["water_stress_coeff"], 1))))
        env.ensure("no stress while depletion is within the readily available water",
                   env.implies(env.and_(free, env.le(d0, raw_)), env.eqv(new["water_stress_coeff"], 1)))
    env.ensure("plant height follows the growth stage", env.eqv(m.state.land_cover.plant_height[pos], h))
    if kind == "single":
        env.ensure("single coefficient: ET == Ks * Kc * ETref",
                   env.implies(free, env.eqv(ET, stress * (kc * eto), scale=1.0)))
        for k in ("cum_soil_surface_depletion", "deep_percolation_evaporation_layer"):
            env.ensure("frame: surface layer unchanged", env.same(new[k], old[k]))
    else:
        dual(env, m, q, old, new, P, free, eto, kc, h, stress, E, T)
    if q.get("is_water_body"):
        env.ensure("frame: no root zone balance for water", env.same(new["cum_root_zone_depletion"], d0))
        return
    # root zone: storage change == ET + percolation - rain, as far as the soil can be depleted
    d1, dp = new["cum_root_zone_depletion"], new["deep_percolation"]
    env.ensure("root zone depletion stays within [0, total available water]",
               env.and_(env.geq(d1, 0), env.leq(d1, taw)))
    env.ensure("percolation is non-negative", env.geq(dp, 0))
    bal = d0 - P + ET + dp
    env.ensure("root zone water balance", env.eqv(d1, env.ite(env.gt(bal, taw), taw, bal), scale=100.0))
    env.ensure("percolation only from a filled root zone", env.or_(env.leq(dp, 0), env.eqv(d1, 0, scale=100.0)))


def dual(env, m, q, old, new, P, free, eto, kcb, h, stress, E, T):
    tew, rew, d0 = old["total_evaporable_water"], old["readily_evaporable_water"], old["cum_soil_surface_depletion"]
    kmax = mx(env, 1.2 + old["clim_corr"], kcb + 0.05)
    if q.get("is_sparse"):
        veg = q["sparse_vegetation_fraction"]
    else:
        x = mx(env, kcb - KMIN, 0.01) / (kmax - KMIN)
        veg = x ** (1 + 0.5 * h) if not env.symbolic else pow_(env, x, 1 + 0.5 * h)
    few = 1 - veg
    kr = env.ite(env.gt(d0, rew), (tew - d0) / (tew - rew), 1.0)
    ke = mn(env, kr * (kmax - kcb), few * kmax)
    env.ensure("evaporation == Ke * ETref", env.implies(free, env.eqv(E, ke * eto, scale=1.0)))
    env.ensure("transpiration == Ks * Kcb * ETref", env.implies(free, env.eqv(T, stress * (kcb * eto), scale=1.0)))
    d1, dp = new["cum_soil_surface_depletion"], new["deep_percolation_evaporation_layer"]
    env.ensure("surface layer depletion stays within [0, total evaporable water]",
               env.and_(env.geq(d1, 0), env.leq(d1, tew)))
    env.ensure("surface layer percolation is non-negative",
               env.implies(free, env.geq(dp, 0)))
    env.ensure("surface layer percolates only what exceeds its depletion",
               env.implies(free, env.eqv(dp, mx(env, P - d0, 0.0), scale=100.0)))
    bal = d0 - P + E / few + dp
    env.ensure("surface layer water balance",
               env.implies(free, env.eqv(d1, env.ite(env.gt(bal, tew), tew, bal), scale=100.0)))
    env.ensure("surface layer unchanged under snow", env.implies(env.not_(free), env.eqv(d1, d0)))


def pow_(env, x, y):
    return np.float_power(x, y) if isinstance(x, np.ndarray) else x ** y


def sealed(env, m, q, old, new, met, snow, E, T):
    free = env.not_(snow)
    P = env.ite(env.isnan(met["rainfall"]), 0.0, met["rainfall"])
    s0, s1, cap = old["sealed_interception"], new["sealed_interception"], q["max_sealed_interception"]
    env.ensure("sealed: interception stays within [0, capacity]", env.and_(env.geq(s1, 0), env.leq(s1, cap)))
    env.ensure("sealed: storage change == rain - runoff - evaporation",
               env.implies(free, env.eqv(s1 - s0, P - new["deep_percolation"] - E, scale=100.0)))
    env.ensure("sealed: nothing changes under snow", env.implies(snow, env.and_(env.eqv(s1, s0), env.eqv(E, 0))))
    env.ensure("sealed: no transpiration", env.eqv(T, 0))
    env.ensure("sealed: evaporation not more than stored", env.leq(E, s0))
    env.ensure("sealed: no evaporation while it rains", env.implies(env.gt(P, 0), env.eqv(E, 0)))
    env.ensure("sealed: runoff only when full",
               env.implies(free, env.or_(env.leq(new["deep_percolation"], 0), env.eqv(s1, cap, scale=100.0))))
    tk = met["top_canopy_temp"]
    if env.symbolic and env.case.get("missing"):
        return
    # Penman-Monteith without surface resistance (FAO-56 eq. (3), (4)); air density p / (R Tv)
    z0m = 0.123 * q["max_height"]
    d = 2.0 / 3 * q["max_height"]
    mh = m.config.meteo.measurement_height
    lnn = math.log((mh.wind - d) / z0m) * math.log((mh.temperature - d) / (0.1 * z0m))
    ra = lnn / (c.VON_KARMAN ** 2 * met["top_canopy_wind_speed"])
    t = tk - c.T0
    D = 1e3 * 4098 * (0.6108 * env.f("exp", 17.27 * t / (t + 237.3))) / (t + 237.3) ** 2
    g = met["psych_const"]
    rho = met["atmos_press"] / (c.GAS_CONSTANT_DRY_AIR * (1.01 * tk))
    cp = g * 0.622 * c.LATENT_HEAT_OF_VAPORIZATION / met["atmos_press"]
    pe = (D * (new["ref_net_radiation"] - new["soil_heat_flux"])
          + rho * cp * (met["sat_vap_press"] - met["vap_press"]) / ra) / (D + g)
    pe = env.ite(env.gt(pe, 0), pe, 0.0) / c.LATENT_HEAT_OF_VAPORIZATION * m.timestep
    dry = env.and_(free, env.le(P, 0), env.not_(env.isnan(tk)))
    env.ensure("sealed: potential evaporation limited by the storage",
               env.implies(dry, env.eqv(E, env.ite(env.lt(pe, s0), pe, s0), scale=1.0)))


def check_ref(env, m, b, pos):
    e = m.state.evapotranspiration
    met = {k.split(".")[1]: v[pos] for k, v in b.items() if k.startswith("meteo.")}
    old = {k.split(".")[1]: v[pos] for k, v in b.items() if k.startswith("evapotranspiration.")}
    tk = met["top_canopy_temp"]
    if env.symbolic and env.case.get("missing"):
        env.ensure("reference ET missing without temperature", env.isnan(e.et_ref[pos]))
        return
    rn = ((1 - old["ref_albedo"]) * met["top_canopy_sw_in"] + met["top_canopy_lw_in"]
          - old["ref_emissivity"] * c.STEFAN_BOLTZMANN * tk ** 4)
    env.ensure("reference net radiation", env.eqv(e.ref_net_radiation[pos], rn, scale=100.0))
    gf = 0.1 if m.sun_params["sun_over_horizon"] else 0.5
    env.ensure("soil heat flux is 10 % of the net radiation by day, 50 % by night",
               env.eqv(e.soil_heat_flux[pos], gf * rn, scale=100.0))
    k = 3600e-6
    t = tk - c.T0
    D = 4098 * (0.6108 * env.f("exp", 17.27 * t / (t + 237.3))) / (t + 237.3) ** 2
    g = met["psych_const"] * 1e-3
    vpd = (met["sat_vap_press"] - met["vap_press"]) * 1e-3
    z = m.config.meteo.measurement_height.wind
    u2 = met["top_canopy_wind_speed"] * (math.log(2 / 0.03) / math.log(z / 0.03))
    n = 0.408 * D * (rn * (1 - gf) * k) + g * 37 / (t + 273) * u2 * vpd
    r = n / (D + g * (1 + 0.34 * u2)) * m.timestep / 3600
    env.ensure("reference ET (FAO-56 hourly Penman-Monteith, not negative)",
               env.eqv(e.et_ref[pos], env.ite(env.lt(r, 0), 0.0, r), scale=1.0))
    env.ensure("reference ET not negative", env.or_(env.isnan(e.et_ref[pos]), env.geq(e.et_ref[pos], 0)))


STEP_FUNCS = ["EvapotranspirationModel.evapotranspiration", "EvapotranspirationModel._single_coeff_crop_et",
              "EvapotranspirationModel._dual_coeff_crop_et", "EvapotranspirationModel._water_stress_coefficient",
              "EvapotranspirationModel._root_zone_water_balance", "EvapotranspirationModel._sealed_evaporation",
              "OpenAmundsen.global_mask"]


def ref_contract(env, m):
    """The callee's contract: et_ref is missing or >= 0 (checked in `reference`)."""

    def fn():
        e = m.state.evapotranspiration
        for k in ("et_ref", "ref_net_radiation", "soil_heat_flux"):
            e[k] = env.fresh(k, env.shape, ("R", "C"))
        if env.case.get("missing"):
            for k in ("et_ref", "ref_net_radiation", "soil_heat_flux"):
                e[k] = env.const_grid(np.nan)
        else:
            env.assume(env.and_(env.ge(e.et_ref, 0), env.le(e.et_ref, 10)))

    return fn


def cases(tier):
    out = []
    for lcc in CLASSES:
        for day in DAYS if lcc in (1, 2, 3, 6, 7) else DAYS[:1]:
            out.append(dict(lcc=lcc, day=day, in_roi=True))
    out += [dict(lcc=k, day=75, in_roi=True, missing=True) for k in CLASSES]
    return out


@unit("C15", STEP_FUNCS, cases, conc_cases=[dict(day=d, sun=s) for d in DAYS for s in (True, False)], goal_ms=20000)
def step(env):
    """One time step at a pixel of each land cover class."""
    m = et_model(env, env.case.get("lcc"), env.case.get("missing", False))
    b = snapshot(env, m)
    with env.by_contract(m.evapotranspiration, "_reference_evapotranspiration", ref_contract(env, m)):
        env.call(m.evapotranspiration.evapotranspiration)
    if env.symbolic:
        lcc = env.case["lcc"]
        check_pixels(env, m, b, lcc, m.evapotranspiration.land_cover_class_pixels[lcc])
    else:
        for lcc, pos in m.evapotranspiration.land_cover_class_pixels.items():
            if pos.any():
                check_pixels(env, m, b, lcc, pos)
        frame(env, m, b)


RETAIN = ("cum_soil_surface_depletion", "cum_root_zone_depletion", "sealed_interception",
          "deep_percolation_evaporation_layer", "total_available_water", "total_evaporable_water")


def frame(env, m, b):
    e = m.state.evapotranspiration
    lc = m.state.land_cover.land_cover
    out = ~(np.isin(lc, list(CLASSES)) & np.asarray(m.grid.roi, bool))
    for k in RETAIN:
        env.ensure("frame: pixels without a land cover class unchanged",
                   env.same(e[k][out], b[f"evapotranspiration.{k}"][out]))
    for full, v in b.items():
        cat, name = full.split(".")
        if cat not in ("evapotranspiration", "land_cover"):
            env.ensure("frame: other state variables unchanged", env.same(m.state[cat][name], v))


@unit("C15", STEP_FUNCS, [dict(lcc=9, day=75, in_roi=True), dict(lcc=1, day=75, in_roi=False)])
def elsewhere(env):
    """Pixels without parameters for their land cover class, or outside the region of interest."""
    if not env.symbolic:
        return
    m = et_model(env, env.case["lcc"])
    b = snapshot(env, m)
    with env.by_contract(m.evapotranspiration, "_reference_evapotranspiration", lambda: None):
        env.call(m.evapotranspiration.evapotranspiration)
    for full, v in b.items():
        cat, name = full.split(".")
        k = name
        if cat == "evapotranspiration" and k not in RETAIN and env.case["in_roi"]:
            continue
        env.ensure("frame: pixel unchanged", env.same(m.state[cat][name], v))


@unit("C15", ["EvapotranspirationModel._reference_evapotranspiration",
              "EvapotranspirationModel._reference_net_radiation"],
      [dict(lcc=1, day=75, sun=s, missing=q) for s in (True, False) for q in (False, True)], goal_ms=20000)
def reference(env):
    m = et_model(env, 1, env.case["missing"], dt=env.scalar("timestep", 600, 86400))
    b = snapshot(env, m)
    env.call(m.evapotranspiration._reference_evapotranspiration)
    if env.symbolic:
        check_ref(env, m, b, m.evapotranspiration.land_cover_class_pixels[1])
    else:
        check_ref(env, m, b, m.grid.roi)


@unit("C15", ["EvapotranspirationModel.initialize", "EvapotranspirationModel._climate_correction",
              "evapotranspiration.climate_correction"],
      [dict(lcc=k, soil=s, day=75) for k in CLASSES for s in (1, 5, 9)], conc_cases=[dict(day=75, soil=0)])
def initialize(env):
    m = et_model(env, env.case.get("lcc"))
    if env.symbolic:
        soil = np.full(env.shape, env.case["soil"])
        hum = env.scalar("hum", 0, 100)
        ws = env.scalar("ws", 0, 20)
    else:
        soil = env.grid("soil", 1, 9, integer=True)
        hum, ws = env.scalar("hum", 0, 100), env.scalar("ws", 0, 20)
    m.state.evapotranspiration.soil_texture = soil
    cfg = m.config.evapotranspiration
    cfg.mean_min_humidity, cfg.mean_wind_speed = hum, ws
    env.call(m.evapotranspiration.initialize)
    e = m.state.evapotranspiration
    px = m.evapotranspiration.land_cover_class_pixels
    for lcc in CLASSES:
        if lcc not in px or not np.asarray(px[lcc]).any():
            continue
        pos = px[lcc]
        q = CLASSES[lcc]
        v = {k: e[k][pos] for k in e._meta if k != "soil_texture"}
        env.ensure("root zone store: 0 <= readily available <= total available",
                   env.and_(env.geq(v["readily_available_water"], 0),
                            env.leq(v["readily_available_water"], v["total_available_water"]),
                            env.gt(v["total_available_water"], 0)))
        env.ensure("surface store: 0 < readily evaporable < total evaporable",
                   env.and_(env.gt(v["readily_evaporable_water"], 0),
                            env.lt(v["readily_evaporable_water"], v["total_evaporable_water"])))
        env.ensure("stores start at field capacity",
                   env.and_(env.eqv(v["cum_root_zone_depletion"], 0), env.eqv(v["cum_soil_surface_depletion"], 0)))
        sl = bool(q.get("is_sealed"))
        env.ensure("reference albedo and emissivity of the surface kind",
                   env.and_(env.eqv(v["ref_albedo"], cfg.sealed_albedo if sl else cfg.grass_albedo),
                            env.eqv(v["ref_emissivity"], cfg.sealed_emissivity if sl else cfg.grass_emissivity)))
        if sl:
            env.ensure("sealed store starts empty", env.eqv(v["sealed_interception"], 0))
        u = env.ite(env.lt(ws, 1), 1, env.ite(env.gt(ws, 6), 6, ws))
        r = env.ite(env.lt(hum, 20), 20, env.ite(env.gt(hum, 80), 80, hum))
        h = min(max(q["max_height"], 0.1), 10)
        env.ensure("climate correction",
                   env.eqv(v["clim_corr"], (0.04 * (u - 2) - 0.004 * (r - 45)) * (h / 3) ** 0.3, scale=1.0))
        if env.symbolic:
            s = env.case["soil"]
            fc, wp = et.DEFAULT_SOIL_WATER_CONTENTS_AT_FIELD_CAPACITY[s], et.DEFAULT_SOIL_WATER_CONTENTS_AT_WILTING_POINT[s]
            dep = q["depletion_fraction"] * et.DEFAULT_DEPLETION_FRACTION_ADJUSTMENTS[s]
        else:
            so = soil[pos]
            fc = np.array([et.DEFAULT_SOIL_WATER_CONTENTS_AT_FIELD_CAPACITY[s] for s in so])
            wp = np.array([et.DEFAULT_SOIL_WATER_CONTENTS_AT_WILTING_POINT[s] for s in so])
            dep = q["depletion_fraction"] * np.array([et.DEFAULT_DEPLETION_FRACTION_ADJUSTMENTS[s] for s in so])
        close = lambda a, x: env.and_(env.leq(a, x * (1 + 1e-9)), env.geq(a, x * (1 - 1e-9)))  # noqa: E731
        env.ensure("total available water of soil and rooting depth",
                   close(v["total_available_water"], 1000 * (fc - wp) * q["rooting_depth"]))
        env.ensure("readily available water of soil and land cover",
                   close(v["readily_available_water"], dep * 1000 * (fc - wp) * q["rooting_depth"]))
        env.ensure("total evaporable water of the soil",
                   close(v["total_evaporable_water"],
                         1000 * (fc - 0.5 * wp) * cfg.surface_soil_layer_evaporation_depth))


# --------------------------------------------------------------------------- C16


@unit("C16", ["evapotranspiration.crop_coefficient"],
      [dict(n=1), dict(n=2, bounded="2 growth cycles")], conc_cases=[dict(n=1), dict(n=2), dict(n=3)], goal_ms=20000)
def kc_curve(env):
    """The curve over any growth stage lengths, on any day."""
    n = env.case["n"]
    L = [env.vec(f"len{k}", n, 0, 200, integer=True, gen=[0.0, 1.0, 5.0]) for k in range(4)]
    day = env.scalar("day", -400, 900, integer=True)
    ini, mid, end, kmin = (env.scalar(k, 0.05, 1.3) for k in ("ini", "mid", "end", "kmin"))
    hmax = env.scalar("hmax", 0.01, 30)
    a = [x[0] if n == 1 else x for x in L]
    if not env.symbolic:
        a = [int(x) if n == 1 else x for x in a]
    kc = env.call(et.crop_coefficient, day, *a, ini, mid, end, kmin)
    kc2, h = env.call(et.crop_coefficient, day, *a, ini, mid, end, kmin, max_plant_height=hmax)
    env.ensure("same coefficient with and without plant height", env.eqv(kc, kc2))
    t0 = 0
    inside = False
    lo3 = mn(env, mn(env, ini, mid), end)
    hi3 = mx(env, mx(env, ini, mid), end)

    def at(cond, kcv, floor):
        env.ensure("crop coefficient of the growth stage", env.implies(cond, env.eqv(kc, kcv, scale=1.0)))
        env.ensure("plant height of the growth stage",
                   env.implies(cond, env.eqv(h * mid, mx(env, kcv, floor) * hmax, scale=1.0)))

    for j in range(n):
        for s in range(4):
            ln = L[s][j]
            cond = env.and_(env.gt(day, t0), env.le(day, t0 + ln))
            x = (day - t0) / env.ite(env.gt(ln, 0), ln, 1)
            kcv = {0: ini, 1: ini + x * (mid - ini), 2: mid, 3: mid + x * (end - mid)}[s]
            at(cond, kcv, {0: kmin, 1: ini, 2: mid, 3: mid}[s])
            inside = env.or_(inside, cond)
            t0 = t0 + ln
    env.ensure("minimum coefficient outside of the growing period", env.or_(inside, env.eqv(kc, kmin)))
    env.ensure("within the given coefficients",
               env.implies(inside, env.and_(env.geq(kc, lo3), env.leq(kc, hi3))))


@unit("C16", ["LandCover.lai", "LandCover.growth_stage_lengths", "LandCover.growing_period_day",
              "evapotranspiration.crop_coefficient"],
      [dict(day=d, cyc=k, pix=p) for d in DAYS for k in (1, 2) for p in (True, False)])
def lai(env):
    m = make_model(env, canopy=dict(enabled=True))
    fill_state(env, m, {})
    lo, hi, add = env.scalar("lai_min", 0, 3), env.scalar("lai_max", 3, 10), env.scalar("add", 0, 2)
    g = [10, 20, 100, 30] if env.case["cyc"] == 1 else [[5, 10, 40, 10], [3, 8, 60, 7]]
    lcc = dict(plant_date=60, growth_stage_lengths=g, leaf_area_index=dict(min=lo, max=hi, effective_add=add))
    m.config.land_cover.classes = Munch.fromDict({1: lcc})
    m.date = pd.Timestamp("2019-01-01") + pd.Timedelta(days=env.case["day"] - 1)
    m.dates, m.date_idx = pd.DatetimeIndex([pd.Timestamp("2018-10-01"), m.date]), 1  # the run began in the year before
    pos = env.roi if env.case["pix"] else env.roi & (~env.roi)
    m.land_cover.lai_classes = [1]
    m.land_cover.class_pixels = {1: pos}
    b = snapshot(env, m)
    env.call(m.land_cover.lai)
    s = m.state.land_cover
    other = ~pos
    for k in ("lai", "lai_eff", "plant_height"):
        env.ensure("frame: other pixels unchanged", env.same(s[k][other], b[f"land_cover.{k}"][other]))
    gg = g if isinstance(g[0], list) else [g]
    stage, v = curve(env.case["day"] - 60 + 1, [[0, q[0] + q[1], q[2], q[3]] for q in gg], lo, hi, lo, lo)
    env.ensure("LAI follows the growing season", env.eqv(s.lai[pos], v, scale=1.0))
    env.ensure("LAI within its range", env.and_(env.geq(s.lai[pos], lo), env.leq(s.lai[pos], hi)))
    env.ensure("effective LAI adds the structural part", env.eqv(s.lai_eff[pos], v + add, scale=1.0))


@unit("C16", ["LandCover.initialize"], [dict(bad=q) for q in (False, True)], sym=False)
def land_cover_init(env):
    m = make_model(env, canopy=dict(enabled=True))
    fill_state(env, m, {})
    lc = env.grid("lc", 0, 6, integer=True)
    m.state.land_cover.land_cover = lc
    cl = {1: dict(is_forest=True, leaf_area_index=dict(min=1, max=2)), 2: dict(),
          3: dict(leaf_area_index=dict(min=1)), 4: dict(is_forest=True), 5: dict(leaf_area_index=dict(min=1, max=3))}
    m.config.land_cover.classes = Munch.fromDict(cl)
    env.call(m.land_cover.initialize)
    L = m.land_cover
    roi = np.asarray(m.grid.roi)
    have = set(np.unique(lc[roi])) & set(cl)
    env.ensure("classes present in the region of interest", set(L.class_pixels) == have)
    for k in have:
        env.ensure("pixels of the class", np.array_equal(L.class_pixels[k], (lc == k) & roi))
    env.ensure("forest classes", set(L.forest_classes) == {1, 4} & have)
    env.ensure("classes with complete LAI parameters", set(L.lai_classes) == {1, 5} & have)
