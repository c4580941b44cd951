"""Precipitation phase partitioning (C10), derived meteorology (C13), gauge undercatch correction (C27)."""

import contextlib
import types

import numpy as np
from munch import Munch

from openamundsen import constants, meteo
from openamundsen import model as oamodel
from openamundsen.meteo import atmosphere, precipcorr
from pyvc.unit import unit

from .c_meteo import ICE, T0, WATER, magnus
from .common import ensure_frame, fill_state, make_model, snapshot

# --------------------------------------------------------------------------- C10


@unit("C10", ["atmosphere.precipitation_phase"], [dict(rng=r) for r in (True, False)])
def phase(env):
    t1, t2 = env.grid("t1", 200, 330, nan=True, gen=[273.65, 273.15, 274.15]), env.grid("t2", 200, 330)
    thr = env.scalar("thr", 270, 277, gen=[273.65, 273.15])
    r = env.scalar("range", 0, 5, lo_open=True, gen=[1.0]) if env.case["rng"] else 0.0
    s1 = env.call(meteo.precipitation_phase, t1, threshold_temp=thr, temp_range=r)
    s2 = env.call(meteo.precipitation_phase, t2, threshold_temp=thr, temp_range=r)
    env.ensure("snowfall fraction within [0, 1]",
               env.or_(env.isnan(s1), env.and_(env.ge(s1, 0), env.le(s1, 1))))
    env.ensure("colder, not less snow", env.or_(env.isnan(t1), env.gt(t1, t2), env.geq(s1, s2)))
    env.ensure("only snow below the mixed range", env.implies(env.lt(t1, thr - r / 2 - 1e-9), env.eqv(s1, 1)))
    env.ensure("only rain above the mixed range", env.implies(env.gt(t1, thr + r / 2 + 1e-9), env.eqv(s1, 0)))
    if env.case["rng"]:
        inside = env.and_(env.ge(t1, thr - r / 2), env.le(t1, thr + r / 2))
        env.ensure("linear transition, half snow at the threshold",
                   env.implies(inside, env.eqv((s1 - 0.5) * r, thr - t1, scale=300)))


@unit("C10", ["atmosphere.precipitation_phase"])
def phase_errors(env):
    t = env.grid("t", 200, 330)
    r = env.scalar("range", -5, 0, hi_open=True)
    e = env.call(meteo.precipitation_phase, t, temp_range=r, raises=(ValueError,))
    env.ensure("negative temperature range refused", isinstance(e, ValueError))


def wet_bulb_contract(env):
    """Contract of wet_bulb_temperature (see wet_bulb): missing iff an input is missing."""

    def fn(temp, rel_hum, vap_press, psych_const):
        r = env.fresh("wbt", np.shape(temp), getattr(temp, "ax", None))
        bad = env.or_(env.isnan(temp), env.isnan(vap_press))
        env.assume(env.and_(env.ge(r, 150), env.le(r, 400)))
        return env.ite(bad, np.nan, r)

    return fn


def meteo_model(env, **over):
    m = make_model(env, **over)
    fill_state(env, m, {
        "meteo.temp": dict(lo=200, hi=330, nan=True, gen=[273.15, 273.65, 274.15]),
        "meteo.rel_hum": dict(lo=1, hi=100, nan=True),
        "meteo.precip": dict(lo=0, hi=200, gen=[0.0]),
        "base.dem": dict(lo=0, hi=8000),
    })
    m.date_idx = 0
    return m


DERIVED = [f"meteo.{k}" for k in (
    "atmos_press", "sat_vap_press", "vap_press", "spec_hum", "spec_heat_cap_moist_air", "lat_heat_vap",
    "psych_const", "wet_bulb_temp", "dew_point_temp", "precipitable_water", "dry_air_density",
    "snowfall", "rainfall", "precip")]

PHASES = [dict(method=me, rng=r, in_roi=True) for me in ("temp", "wet_bulb_temp") for r in (0, 1)]


OTHER = ("atmospheric_pressure", "saturation_vapor_pressure", "vapor_pressure", "specific_humidity",
         "specific_heat_capacity_moist_air", "latent_heat_of_vaporization", "psychrometric_constant",
         "dew_point_temperature", "precipitable_water")


def process(env, m, phase_only=False):
    """
    wet_bulb_temperature is known by its contract; for clauses about the phase only, nothing at all
    is assumed about the other callees (their results are arbitrary).
    """
    with contextlib.ExitStack() as st:
        st.enter_context(env.by_contract(oamodel.oameteo, "wet_bulb_temperature", wet_bulb_contract(env)))
        if phase_only:
            for k in OTHER:
                st.enter_context(env.by_contract(
                    oamodel.oameteo, k, lambda x, *a, k=k: env.fresh(k, np.shape(x), getattr(x, "ax", None))))
        env.call(m._process_meteo_data)


@unit("C10", ["OpenAmundsen._process_meteo_data", "atmosphere.precipitation_phase"], PHASES)
def partition(env):
    thr, rng = 273.65, float(env.case["rng"])
    m = meteo_model(env, meteo=dict(precipitation_phase=dict(
        method=env.case["method"], threshold_temp=thr, temp_range=rng, enforce_no_snow_below_rain=False)))
    b = snapshot(env, m)
    process(env, m, phase_only=True)
    q, s = m.state.meteo, env.sel
    P, sn, ra = s(b["meteo.precip"]), s(q.snowfall), s(q.rainfall)
    env.ensure("snowfall + rainfall == precipitation", env.eqv(sn + ra, P))
    env.ensure("snowfall and rainfall are not negative", env.and_(env.ge(sn, 0), env.ge(ra, 0)))
    env.ensure("precipitation unchanged", env.same(s(q.precip), P))
    T = s(q.temp if env.case["method"] == "temp" else q.wet_bulb_temp)
    bad = env.isnan(T)
    env.ensure("missing phase temperature: all rain", env.implies(bad, env.eqv(sn, 0)))
    env.ensure("colder than the mixed range: all snow",
               env.or_(bad, env.geq(T, thr - rng / 2), env.eqv(ra, 0)))
    env.ensure("warmer than the mixed range: all rain",
               env.or_(bad, env.leq(T, thr + rng / 2), env.eqv(sn, 0)))
    if rng > 0:
        inside = env.and_(env.ge(T, thr - rng / 2), env.le(T, thr + rng / 2))
        env.ensure("mixed precipitation: linear in temperature",
                   env.or_(env.not_(inside), env.eqv(sn * rng, (thr + rng / 2 - T) * P, scale=300 * 200)))
    ensure_frame(env, m, b, DERIVED)


@unit("C10", ["OpenAmundsen._process_meteo_data"], [dict(in_roi=False)])
def partition_outside(env):
    m = meteo_model(env)
    b = snapshot(env, m)
    process(env, m, phase_only=True)
    ensure_frame(env, m, b, (), "outside the region of interest")


@unit("C10", ["OpenAmundsen._process_meteo_data"], [dict(in_roi=True)])
def redistribution(env):
    """Snow redistribution factors scale the snowfall only and keep the sum consistent."""
    m = meteo_model(env, meteo=dict(precipitation_phase=dict(enforce_no_snow_below_rain=False)))
    m.state.base.add_variable("srf")
    m.state.base["srf"] = env.grid("srf", 0, 5)
    b = snapshot(env, m)
    process(env, m, phase_only=True)
    q, s = m.state.meteo, env.sel
    env.ensure("precipitation == snowfall + rainfall after redistribution",
               env.eqv(s(q.precip), s(q.snowfall + q.rainfall)))
    srf = s(b["base.srf"])
    env.ensure("rainfall not redistributed: unredistributed snowfall + rainfall == input",
               env.eqv(s(q.snowfall) + srf * s(q.rainfall), srf * s(b["meteo.precip"])))


ENF = [dict(pixels=[1, n], bounded=f"{n} pixels") for n in (1, 2, 3)]


@unit("C10", ["OpenAmundsen._process_meteo_data"], ENF, conc_cases=[dict(full_roi=True), dict()])
def no_snow_below_rain(env):
    thr, rng = 273.65, 1.0
    m = meteo_model(env, meteo=dict(precipitation_phase=dict(
        method="temp", threshold_temp=thr, temp_range=rng, enforce_no_snow_below_rain=True)))
    if env.symbolic:  # missing temperatures are treated in `partition`
        env.assume(env.not_(env.isnan(m.state.meteo.temp)))
        env.assume(env.not_(env.isnan(m.state.meteo.rel_hum)))
    b = snapshot(env, m)
    process(env, m, phase_only=True)
    q, s = m.state.meteo, env.sel
    P, sn, ra = s(b["meteo.precip"]), s(q.snowfall), s(q.rainfall)
    env.ensure("snowfall + rainfall == precipitation", env.eqv(sn + ra, P))
    T, z = s(q.temp), s(b["base.dem"])
    frac = env.ite(env.isnan(T), 0.0, (thr + rng / 2 - T) / rng)
    n = T.shape[-1]
    for i in range(n):
        rain_above = [env.and_(env.le(frac[j], 0), env.le(z[i], z[j])) for j in range(n)]
        any_above = env.or_(*rain_above) if n > 1 else rain_above[0]
        env.ensure("no snow at or below an all-rain pixel", env.implies(any_above, env.eqv(sn[i], 0)))
        env.ensure("snowfall fraction unchanged above all all-rain pixels",
                   env.or_(any_above, env.eqv(
                       sn[i], P[i] * env.ite(env.ge(frac[i], 1), 1.0, frac[i]), scale=300 * 200)))


# --------------------------------------------------------------------------- C13 (fields)


POW = constants.SPEC_HEAT_CAP_DRY_AIR * constants.MOLAR_MASS_DRY_AIR / constants.UNIVERSAL_GAS_CONSTANT


@unit("C13", ["OpenAmundsen._process_meteo_data"], [dict(in_roi=True)])
def derived_fields(env):
    env.anchor("exp", 4.0)
    env.anchor(f"pow[{POW!r}]", 0.6)
    m = meteo_model(env)
    b = snapshot(env, m)
    process(env, m)
    q, s = m.state.meteo, env.sel
    T, rh, z = s(q.temp), s(q.rel_hum), s(m.state.base.dem)
    bad = env.or_(env.isnan(T), env.isnan(rh))
    es = env.ite(env.ge(T, T0), magnus(env, T, WATER), magnus(env, T, ICE))
    env.ensure("pressure field", env.eqv(s(q.atmos_press), meteo.atmospheric_pressure(z)))
    env.ensure("saturation vapor pressure field", env.eqv(s(q.sat_vap_press), es))
    env.ensure("vapor pressure field", env.or_(bad, env.eqv(s(q.vap_press) * 100, es * rh)))
    env.ensure("specific humidity field",
               env.or_(bad, env.eqv(s(q.spec_hum) * (s(q.atmos_press) - 0.378 * s(q.vap_press)),
                                    0.622 * s(q.vap_press))))
    env.ensure("moist air heat capacity field",
               env.or_(bad, env.eqv(s(q.spec_heat_cap_moist_air),
                                    meteo.specific_heat_capacity_moist_air(s(q.spec_hum)))))
    env.ensure("latent heat field", env.or_(bad, env.eqv(s(q.lat_heat_vap), 2.501e6 - 2361 * (T - T0))))
    env.ensure("psychrometric constant field",
               env.or_(bad, env.eqv(s(q.psych_const) * 0.622 * s(q.lat_heat_vap),
                                    s(q.spec_heat_cap_moist_air) * s(q.atmos_press))))
    env.ensure("dew point field: saturated at the dew point",
               env.or_(bad, env.eqv(magnus(env, s(q.dew_point_temp), WATER), magnus(env, T, WATER) * rh / 100,
                                    rtol=1e-6)))
    env.ensure("precipitable water field",
               env.or_(bad, env.eqv(s(q.precipitable_water) * T, 4.65 * s(q.vap_press))))
    rho = s(q.dry_air_density)
    env.ensure("air density field obeys the ideal gas law",
               env.or_(bad, env.leq(abs(rho * 287.06 * T - s(q.atmos_press)), 100)))
    ensure_frame(env, m, b, DERIVED)


def ta(rng, n):
    return rng.uniform(220, 320, n)


@unit("C13", ["atmosphere.wet_bulb_temperature", "atmosphere._water_vapor_pressure_difference"],
      [dict(bounded="runtime contract check (iteration count of the secant search unbounded)")],
      sym=False, w=2.0)
def wet_bulb(env):
    T = env.grid("T", 230, 315, nan=True, gen=[273.15, 273.2, 273.1])
    rh = env.grid("rh", 1, 100, nan=True)
    p = env.grid("p", 40000, 105000)
    with np.errstate(all="ignore"):
        e = meteo.vapor_pressure(T, rh)
        g = meteo.psychrometric_constant(
            p, meteo.specific_heat_capacity_moist_air(meteo.specific_humidity(p, e)),
            meteo.latent_heat_of_vaporization(T))
    T0_ = env.old(T)
    tw = env.call(meteo.wet_bulb_temperature, T, rh, e, g)
    bad = env.or_(env.isnan(T0_), env.isnan(rh))
    env.ensure("missing exactly where an input is missing", env.same(env.isnan(tw), bad))
    with np.errstate(all="ignore"):
        f = e - (meteo.saturation_vapor_pressure(tw) - g * (T0_ - tw))
        slope = g + meteo.saturation_vapor_pressure(tw) * 22.44 * 272.44 / (272.44 + tw - 273.15) ** 2
        env.ensure("the psychrometric equation holds to the stated tolerance (0.02 K)",
                   bad | (np.abs(f) <= 0.02 * slope + 0.2))
        env.ensure("wet-bulb temperature does not exceed the air temperature", bad | (tw <= T0_ + 0.02))
    env.ensure("air temperature not modified", env.same(T, T0_))


# --------------------------------------------------------------------------- C27

KOCH = {
    "us_un": (0.045, 1.21, 0.66, 8), "all_sa": (0.03, 1.04, 0.57, 12), "nor_sa": (0.05, 0.66, 0.23, 12),
    "us_sa": (0.03, 1.06, 0.63, 12), "us_da": (0.021, 0.74, 0.66, 8), "us_bda": (0.01, 0.48, 0.51, 8),
    "us_sdfir": (0.004, 0.00, 0.00, 8),
}
GAUGES = ("nipher", "tretyakov", "us_sh", "us_unsh", "hellmann")


class FakeMeteo(dict):
    """Station data: the parts of the dataset interface the correction uses."""

    def __init__(self, times, **k):
        super().__init__(**{a: types.SimpleNamespace(values=b) for a, b in k.items()})
        self.indexes = {"time": times}


def station(env, corr, wind=True):
    cfg = make_model(env, meteo=dict(precipitation_phase=dict(
        method="temp", threshold_temp=273.65, temp_range=1.0))).config
    cfg.meteo.precipitation_correction = corr
    st = dict(temp=env.grid("T", 230, 310, nan=True, gen=[273.65, 273.15, 274.15, 273.3]),
              rel_hum=env.grid("rh", 1, 100),
              wind_speed=env.grid("u", 0, 40, nan=True, gen=[0, 7, 8, 12]),
              precip=env.grid("P", 0, 100, nan=True, gen=[0.0]))
    n = st["temp"].shape[1]
    times = list(range(n))
    x = np.zeros(st["temp"].shape[0])
    env.assembled = True
    model = Munch(config=cfg, meteo=FakeMeteo(times, x=x, y=x, alt=x, **st))
    return model, {k: env.old(v) for k, v in st.items()}


CORR = [dict(method="constant_scf")] + [dict(method="wmo", gauge=g) for g in GAUGES] + [
    dict(method="kochendorfer", gauge=g) for g in KOCH]


@unit("C27", ["precipcorr.correct_station_precipitation"], CORR, w=1.0)
def correction(env):
    method, gauge = env.case["method"], env.case.get("gauge")
    scf = env.scalar("scf", 1, 3) if method == "constant_scf" else None
    cfg = dict(method=method, scf=scf) if scf is not None else dict(method=method, gauge=gauge)
    model, b = station(env, [cfg])

    def no_gaps(*a, **k):  # see fill_gaps for its own contract
        return None

    old = precipcorr._interpolate_temp_hum_wind
    precipcorr._interpolate_temp_hum_wind = no_gaps
    try:
        env.call(precipcorr.correct_station_precipitation, model)
    finally:
        precipcorr._interpolate_temp_hum_wind = old
    P0, P, T, u = b["precip"], model.meteo["precip"].values, b["temp"], b["wind_speed"]
    tc = T - T0
    wet = env.gt(P0, 0)
    frac0 = (274.15 - T) / 1.0
    frac = env.ite(env.isnan(T), 0.0, env.ite(env.le(frac0, 0), 0.0, env.ite(env.ge(frac0, 1), 1.0, frac0)))
    solid, mixed = env.ge(frac, 1), env.and_(env.gt(frac, 0), env.lt(frac, 1))
    env.ensure("dry and missing recordings stay as they are", env.or_(wet, env.same(P, P0)))
    if method == "constant_scf":
        env.ensure("snow share is multiplied by the correction factor",
                   env.or_(env.not_(wet), env.eqv(P, P0 * (1 + frac * (scf - 1)))))
    elif method == "wmo":
        h = model.config.meteo.measurement_height
        z0 = model.config.snow.roughness_length
        w = u * (np.log(h.temperature / z0) / np.log(h.wind / z0))
        w = env.ite(env.gt(w, 7.0), 7.0, w)
        e = lambda x: env.f("exp", x)  # noqa: E731
        pw = lambda x, p: x ** p  # noqa: E731
        wz = env.ite(env.isnan(w), 0.0, w)
        cs, cm = {
            "nipher": lambda: (100 - 0.44 * w * w - 1.98 * w, 97.29 - 3.18 * w - 0.09 * tc),
            "tretyakov": lambda: (103.11 - 8.67 * w + 0.30 * tc, 96.99 - 4.46 * w + 1.10 * tc),
            "us_sh": lambda: (e(4.61 - 0.04 * pw(wz, 1.75)), 101.04 - 5.62 * w),
            "us_unsh": lambda: (e(4.61 - 0.16 * pw(wz, 1.28)), 100.77 - 8.34 * w),
            "hellmann": lambda: (100 + 1.13 * w * w - 19.45 * w,
                                 96.63 + 0.41 * w * w - 9.84 * w + 5.95 * tc),
        }[gauge]()
        nok = env.or_(env.isnan(w), env.isnan(tc))
        tol = 1e-6
        env.ensure("snowfall corrected with the catch ratio of the gauge",
                   env.or_(env.not_(wet), env.not_(solid), nok, env.leq(abs(P * cs - 100 * P0), tol * P0 * 100)
                           if env.symbolic else env.eqv(P * cs, 100 * P0)))
        env.ensure("mixed precipitation corrected with the catch ratio of the gauge",
                   env.or_(env.not_(wet), env.not_(mixed), nok, env.leq(abs(P * cm - 100 * P0), tol * P0 * 100)
                           if env.symbolic else env.eqv(P * cm, 100 * P0)))
        env.ensure("rain and recordings without wind or temperature are not corrected",
                   env.or_(env.not_(wet), env.and_(env.or_(solid, mixed), env.not_(nok)), env.eqv(P, P0)))
    else:
        a, bb, c, umax = KOCH[gauge]
        uc = env.ite(env.gt(u, float(umax)), float(umax), u)
        cr = env.f("exp", -a * uc * (1 - env.f("arctan", bb * tc) + c))
        nok = env.or_(env.isnan(u), env.isnan(tc))
        env.ensure("precipitation corrected with the catch ratio of the gauge",
                   env.or_(env.not_(wet), nok, env.eqv(P * cr, P0)))
        env.ensure("recordings without wind or temperature are not corrected",
                   env.or_(env.not_(wet), env.not_(nok), env.eqv(P, P0)))
        env.ensure("undercatch correction does not reduce precipitation below freezing",
                   env.or_(env.not_(wet), nok, env.gt(tc, 0), env.geq(P, P0)))
    for k in ("temp", "rel_hum", "wind_speed"):
        env.ensure(f"recorded {k} not modified", env.same(model.meteo[k].values, b[k]))


@unit("C27", ["precipcorr.correct_station_precipitation"])
def correction_off(env):
    model, b = station(env, [])
    env.call(precipcorr.correct_station_precipitation, model)
    for k in b:
        env.ensure(f"no correction configured: {k} unchanged", env.same(model.meteo[k].values, b[k]))


@unit("C27", ["precipcorr.correct_station_precipitation"], [dict(method="wmo"), dict(method="kochendorfer")])
def unknown_gauge(env):
    model, b = station(env, [dict(method=env.case["method"], gauge="bucket")])
    old = precipcorr._interpolate_temp_hum_wind
    precipcorr._interpolate_temp_hum_wind = lambda *a, **k: None
    try:
        r = env.call(precipcorr.correct_station_precipitation, model, raises=(NotImplementedError,))
    finally:
        precipcorr._interpolate_temp_hum_wind = old
    env.ensure("unknown gauge refused", isinstance(r, NotImplementedError))
    env.ensure("precipitation untouched when refused", env.same(model.meteo["precip"].values, b["precip"]))
