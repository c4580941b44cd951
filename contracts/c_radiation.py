"""Sun position, clear-sky, cloud-corrected and longwave irradiance, radiation balance (C25)."""

import inspect
import warnings

import numpy as np
import pandas as pd

from openamundsen import constants as c
from openamundsen import meteo, surface
from openamundsen.modules import radiation
from openamundsen.modules.radiation import clearsky as CS
from openamundsen.modules.radiation import irradiance as IR
from openamundsen.modules.radiation import sunparams as SP
from pyvc.unit import unit

from . import e2e
from .common import ensure_frame, fill_state, make_model, snapshot

S0 = c.SOLAR_CONSTANT

# --------------------------------------------------------------------------- sun position


@unit("C25", ["sunparams.sun_vector"], goal_ms=20000)
def sun_vector(env):
    lat, ha = env.scalar("lat", -90, 90, gen=[0.0, 47.0, 90.0]), env.scalar("ha", -180, 180, gen=[0.0, 90.0])
    dec = env.scalar("dec", -23.5, 23.5, gen=[0.0])
    v = env.call(SP.sun_vector, lat, ha, dec)
    x, y, z = v[0], v[1], v[2]
    env.ensure("unit length", env.eqv(x * x + y * y + z * z, 1.0))
    r = np.deg2rad
    sl, cl, sh, ch, sd, cd = (f(r(q)) for q in (lat, ha, dec) for f in (np.sin, np.cos))
    env.ensure("height of the sun", env.eqv(z, sl * sd + cl * cd * ch, scale=1.0))
    env.ensure("east component", env.eqv(x, -cd * sh, scale=1.0))
    env.ensure("south component", env.eqv(y, sl * cd * ch - cl * sd, scale=1.0))
    if env.symbolic or abs(sh) > 1e-9:
        env.ensure("sun in the east before noon", env.or_(env.ge(ha, 0), env.le(ha, -180), env.gt(x, 0)))
        env.ensure("sun in the west after noon", env.or_(env.le(ha, 0), env.ge(ha, 180), env.lt(x, 0)))


HOURS = ["2020-01-01", "2020-06-21 12:00", "2021-12-31 23:30", "2020-02-29 05:15:36"]


@unit("C25", ["sunparams.hour_angle"], [dict(date=d) for d in HOURS])
def hour_angle(env):
    tz = env.scalar("tz", -12, 14, integer=True)
    lon, eot = env.scalar("lon", -180, 180), env.scalar("eot", -17, 17)
    d = pd.Timestamp(env.case["date"])
    if not env.symbolic:
        d = d + pd.Timedelta(minutes=int(env.scalar("shift", 0, 10**6, integer=True)))
    ha = env.call(SP.hour_angle, d, tz, lon, eot)
    utc = (d - d.normalize()).total_seconds() / 3600 - tz
    env.ensure("the sun moves 15 degrees per hour, and is due south at local solar noon",
               env.eqv(ha, 15 * (utc - 12 + lon / 15 + eot / 60), scale=1.0))


@unit("C25", ["sunparams.day_angle", "sunparams.equation_of_time", "sunparams.declination_angle"], sym=False,
      cases=[dict()])
def year(env):
    """All days of the year (complete enumeration)."""
    for arg in (np.arange(1, 367), None):
        days = np.arange(1, 367)
        f = lambda g: np.asarray(env.call(g, arg)) if arg is not None else np.array([env.call(g, int(q)) for q in days])  # noqa: E731, B023
        da = f(SP.day_angle)
        env.ensure("day angle", env.eqv(da, 2 * np.pi / 365.25 * (days - 1), rtol=1e-3, scale=1e-6))
        b = da
        e = 229.18 * (0.0000075 + 0.001868 * np.cos(b) - 0.032077 * np.sin(b) - 0.014615 * np.cos(2 * b)
                      - 0.040849 * np.sin(2 * b))
        env.ensure("equation of time (Spencer 1971)", bool(np.all(np.abs(f(SP.equation_of_time) - e) < 0.01)))
        w = np.deg2rad(360 / 365.2422 * (days - 79.346))
        dref = (0.3723 + 23.2567 * np.sin(w) - 0.758 * np.cos(w) + 0.1149 * np.sin(2 * w) + 0.3656 * np.cos(2 * w)
                - 0.1712 * np.sin(3 * w) + 0.0201 * np.cos(3 * w))
        dec = f(SP.declination_angle)
        env.ensure("declination (Bourges 1985)", bool(np.all(np.abs(dec - dref) < 0.02)))
        env.ensure("declination between the tropics", bool(np.all(np.abs(dec) < 23.5)))


@unit("C25", ["sunparams.sun_parameters"], sym=False, cases=[dict()], w=2)
def sun_parameters(env):
    minute = int(env.scalar("minute", 0, 2 * 366 * 1440, integer=True))
    d = pd.Timestamp("2019-12-31") + pd.Timedelta(minutes=minute)
    lon, lat = env.scalar("lon", -180, 180), env.scalar("lat", -66, 66)
    tz = int(env.scalar("tz", -12, 14, integer=True))
    p = env.call(SP.sun_parameters, d, lon, lat, tz)
    q = env.call(SP.sun_parameters, d + pd.Timedelta(hours=3), lon, lat, tz)
    v, z = np.asarray(p["sun_vector"]), p["zenith_angle"]
    env.ensure("parts agree with the individual functions", env.and_(
        env.eqv(p["day_angle"], SP.day_angle(d.dayofyear)),
        env.eqv(p["equation_of_time"], SP.equation_of_time(d.dayofyear)),
        env.eqv(p["declination_angle"], SP.declination_angle(d.dayofyear)),
        env.eqv(p["hour_angle"], SP.hour_angle(d, tz, lon, p["equation_of_time"])),
        env.eqv(v, SP.sun_vector(lat, p["hour_angle"], p["declination_angle"]))))
    if np.isfinite(z):
        env.ensure("zenith angle belongs to the sun vector", env.eqv(np.cos(np.deg2rad(z)), v[2], scale=1.0))
    env.ensure("over the horizon exactly if the sun vector points up",
               bool(p["sun_over_horizon"]) == bool(v[2] > 1e-12) or abs(v[2]) < 1e-9 or v[2] > 1)
    if d.dayofyear == (d + pd.Timedelta(hours=3)).dayofyear:
        env.ensure("45 degrees in three hours", env.eqv(q["hour_angle"] - p["hour_angle"], 45.0, scale=1.0))
    if -12 <= tz - 1 and d.dayofyear == (d - pd.Timedelta(hours=1)).dayofyear:
        r = env.call(SP.sun_parameters, d - pd.Timedelta(hours=1), lon, lat, tz - 1)
        env.ensure("same instant in another time zone: same sun", env.eqv(np.asarray(r["sun_vector"]), v, scale=1.0))


# --------------------------------------------------------------------------- clear sky


def transmittance_inputs(env):
    m = env.scalar("air_mass", 0.99, 14.1952, gen=[1.0, 2.0, 14.1952])
    p = env.grid("press", lo=4e4, hi=1.05e5)
    w = env.grid("water", lo=0, hi=60, gen=[0.0])
    z = env.grid("elev", lo=-400, hi=8000, gen=[0.0, 3000.0, 4000.0])
    return m, p, w, z


@unit("C25", ["clearsky._transmittances"], [dict(vis=25.0), dict(vis=80.0), dict(vis=8.0)], goal_ms=20000)
def transmittances(env):
    env.pow_hints(0.3, 0.6, 1, 1.5, 2, 3, 4, 6, 8, 11, 15, 49, 70, 120, 250, 700)
    m, p, w, z = transmittance_inputs(env)
    vis = env.case["vis"]
    o3, ssa = 0.0035, env.scalar("ssa", 0.8, 1)
    t = env.call(CS._transmittances, elev=z, atmos_press=p, precipitable_water=w, rel_opt_air_mass=m,
                 ozone_layer_thickness=o3, visibility=vis * 1e3, single_scattering_albedo=ssa)
    s = env.sel
    ma = m * s(p) / c.STANDARD_ATMOSPHERE
    for k in ("trans_rayleigh", "trans_gases", "trans_vapor", "trans_aerosols", "trans_aerosol_abs"):
        env.ensure(f"{k} in (0, 1]", env.and_(env.gt(s(t[k]), 0), env.leq(s(t[k]), 1)))
    env.ensure("trans_ozone in (0, 1]", env.and_(env.gt(t["trans_ozone"], 0), env.leq(t["trans_ozone"], 1)))
    env.ensure("absorbed by aerosols at most what is absorbed and scattered",
               env.leq(s(t["trans_aerosols"]), s(t["trans_aerosol_abs"])))
    env.ensure("Rayleigh (Bird and Hulstrom)", env.eqv(
        s(t["trans_rayleigh"]), np.exp(-0.0903 * ma**0.84 * (1 + ma - ma**1.01)), scale=1.0))
    env.ensure("mixed gases", env.eqv(s(t["trans_gases"]), np.exp(-0.0127 * ma**0.26), scale=1.0))
    wm = m * (s(w) / 10)
    env.ensure("water vapour", env.eqv(
        (1 - s(t["trans_vapor"])) * ((1 + 79.034 * wm) ** 0.6828 + 6.385 * wm), 2.4959 * wm, scale=1.0))
    lm = (o3 * 100.0) * m
    env.ensure("ozone", env.eqv(
        t["trans_ozone"], 1 - 0.1611 * lm * (1 + 139.48 * lm) ** -0.3035 + 0.002715 * lm / (1 + 0.044 * lm + 3e-4 * lm * lm),
        scale=1.0, rtol=1e-6))
    b = 0.97 - 1.265 * vis**-0.66
    env.ensure("aerosols", env.eqv(s(t["trans_aerosols"]), b ** (ma**0.9), scale=1.0))
    env.ensure("aerosol absorption", env.eqv(
        1 - s(t["trans_aerosol_abs"]), (1 - ssa) * (1 - ma + ma**1.06) * (1 - s(t["trans_aerosols"])), scale=1.0))
    e = s(z)
    env.ensure("elevation correction up to 3000 m", env.eqv(
        s(t["elev_corr"]), 2.2e-5 * env.ite(env.lt(e, 3000), e, 3000.0), scale=1e-3))


def transmittance_contract(env):
    def fn(elev, atmos_press, precipitable_water, rel_opt_air_mass, ozone_layer_thickness, visibility,
           single_scattering_albedo):
        out = {}
        for k in ("rayleigh", "gases", "vapor", "aerosols", "aerosol_abs"):
            r = env.fresh("t_" + k, np.shape(atmos_press), getattr(atmos_press, "ax", None))
            env.assume(env.and_(env.gt(r, 0), env.le(r, 1)))
            out["trans_" + k] = r
        r = env.fresh("t_ozone")
        env.assume(env.and_(env.gt(r, 0), env.le(r, 1)))
        out["trans_ozone"] = r
        env.assume(env.le(out["trans_aerosols"], out["trans_aerosol_abs"]))
        out["elev_corr"] = 2.2e-5 * elev.clip(max=3000)
        fn.last = out, rel_opt_air_mass
        return out

    return fn


def unit_vector(env, name, layers=False):
    """Direction with positive vertical component, given by its horizontal components."""
    if env.symbolic:
        if layers:
            n = env.grid(name, lo=-1, hi=1, layers=3)
            for e in zip(*(np.ravel(env._elems(n[k])) for k in range(3))):
                env.assume(e[0] * e[0] + e[1] * e[1] + e[2] * e[2] == 1)
                env.assume(e[2] > 0)
            return n
        v = env.vec(name, 3, -1, 1)
        env.assume(v[0] * v[0] + v[1] * v[1] + v[2] * v[2] == 1)
        env.assume(v[2] > 0.001)
        return v
    if layers:
        n = env.grid(name, lo=-1, hi=1, layers=3)
        n[2] = np.abs(n[2]) + 0.2
        return n / np.sqrt((n**2).sum(axis=0))
    v = np.asarray(env.vec(name, 3, -1, 1), dtype=float)
    v[2] = abs(v[2]) * 0.99 + 0.003
    return v / np.sqrt((v**2).sum())


def eccentricity(da):
    return (1.000110 + 0.034221 * np.cos(da) + 0.001280 * np.sin(da) + 0.000719 * np.cos(2 * da)
            + 0.000077 * np.sin(2 * da))


@unit("C25", ["clearsky._clear_sky_shortwave_irradiance"], [dict(in_roi=True), dict(in_roi=False)], goal_ms=20000,
      max_s=250)
def clear_sky(env):
    da = env.scalar("day_angle", 0, 6.2831)
    sun = unit_vector(env, "sun")
    nv = unit_vector(env, "normal", layers=True)
    sh = env.grid("shadows", values=[0, 1])
    if not env.symbolic:
        sh = sh.astype(np.uint8)
    z = env.grid("dem", lo=0, hi=8000, gen=[3000.0])
    svf = env.grid("svf", lo=0, hi=1, gen=[1.0])
    p, w = env.grid("press", lo=4e4, hi=1.05e5), env.grid("water", lo=0, hi=60)
    alb = env.scalar("albedo", 0, 0.95)
    ca = env.scalar("sky_albedo", 0, 0.2, gen=[0.0685])
    roi = env.roi
    stub = transmittance_contract(env)
    if env.symbolic:
        env.c.agg_range = (0, 1)  # illuminated fraction, mean cosine of the incidence angle
    with env.by_contract(CS, "_transmittances", stub):
        direct, diffuse = env.call(
            CS._clear_sky_shortwave_irradiance, da, sun, sh, z, svf, nv, p, w, alb, roi=roi, clear_sky_albedo=ca)
    s = env.sel
    S, D = s(direct), s(diffuse)
    th = np.arccos(sun[2])
    fc = -0.2562 * th**2 + 0.1409 * th + 0.9067
    env.lemma("forward scattering ratio is a fraction", env.and_(env.gt(fc, 0.2), env.lt(fc, 0.95)))
    if env.symbolic:
        t, m = stub.last
        env.lemma("sun above the horizon", env.gt(np.cos(th), 0))
        env.lemma("air mass is positive", env.gt(m, 0))
        ma = m * s(p) / c.STANDARD_ATMOSPHERE
        env.lemma("pressure corrected air mass is positive", env.gt(ma, 0))
        env.lemma("multiple scattering correction is positive", env.gt(1 - ma + ma**1.02, 0))
        ta = s(t["trans_aerosols"] / t["trans_aerosol_abs"])
        env.lemma("aerosol scattering transmittance is a fraction", env.and_(env.gt(ta, 0), env.le(ta, 1)))
    n = [s(nv[k]) for k in range(3)]
    cosi = sun[0] * n[0] - sun[1] * n[1] + sun[2] * n[2]  # normal: y to the north, sun: y to the south
    env.ensure("direct irradiance is not negative", env.geq(S, 0))
    env.ensure("no direct irradiance in the shade", env.or_(env.eq(s(sh), 1), env.eq(S, 0)))
    env.ensure("no direct irradiance on slopes facing away from the sun",
               env.or_(env.gt(cosi, 0 if env.symbolic else -1e-12), env.eq(S, 0)))
    env.ensure("direct irradiance at most the extraterrestrial irradiance on the slope",
               env.or_(env.le(cosi, 0), env.leq(S, S0 * eccentricity(da) * cosi, scale=1e-3)))
    if env.in_roi or not env.symbolic:
        env.ensure("diffuse irradiance is not negative", env.geq(D, 0, scale=1e-6))
    if env.symbolic:
        return
    # full reference (independent transcription of the parameterisation)
    th = np.arccos(sun[2])
    m = min(1 / (np.cos(th) + 0.15 * (93.885 - np.rad2deg(th)) ** -1.253), 14.1952)
    t = CS._transmittances(z, p, w, m, 0.0035, 25000.0, 0.9)
    T = np.clip(np.prod([t[k] + 0 * z for k in (
        "trans_rayleigh", "trans_ozone", "trans_gases", "trans_vapor", "trans_aerosols")], axis=0) + t["elev_corr"], 0, 1)
    top = S0 * eccentricity(da)
    ci = np.maximum(sun[0] * nv[0] - sun[1] * nv[1] + sun[2] * nv[2], 0)
    ref = 0.9751 * top * ci * sh * T
    env.ensure("direct irradiance", env.eqv(S, s(ref), scale=1e-3, rtol=1e-6))
    ma = m * p / c.STANDARD_ATMOSPHERE
    x = 0.79 * top * np.cos(th) * t["trans_ozone"] * t["trans_gases"] * t["trans_vapor"] * t["trans_aerosol_abs"] / (
        1 - ma + ma**1.02)
    ta = t["trans_aerosols"] / t["trans_aerosol_abs"]
    fc = -0.2562 * th**2 + 0.1409 * th + 0.9067
    ray, aer = x * 0.5 * (1 - t["trans_rayleigh"]), x * fc * (1 - ta)
    aa = ca + (1 - fc) * (1 - ta)
    back = (ref * np.cos(th) + ray + aer) * alb * aa / (1 - alb * aa)
    diff = ray + aer + back
    R = np.asarray(roi, bool)
    lit = (sh == 1) & R
    mean_i = ci[lit].mean() if lit.any() else 0.0
    refl = (1 - svf) * (top * ci * sh * T * (sh[R] == 1).mean() * mean_i + diff) * alb
    env.ensure("diffuse irradiance: sky weighted by the sky view factor plus reflection from the slopes",
               env.eqv(D, s(diff * svf + refl), scale=1e-3, rtol=1e-6))


# --------------------------------------------------------------------------- model level


def rad_model(env, **over):
    m = make_model(env, **over)
    fill_state(env, m, {
        "meteo.temp": dict(lo=220, hi=320), "meteo.precipitable_water": dict(lo=0, hi=60, gen=[0.0]),
        "meteo.cloud_fraction": dict(lo=0, hi=1), "meteo.cloud_factor": dict(lo=0, hi=1),
        "meteo.sw_in": dict(lo=0, hi=1400), "meteo.lw_in": dict(lo=0, hi=500),
        "base.svf": dict(lo=0, hi=1, gen=[1.0]), "surface.temp": dict(lo=220, hi=320),
        "surface.albedo": dict(lo=0, hi=1), "snow.swe": dict(lo=0, hi=500, gen=[0.0]),
    })
    return m


@unit("C25", ["irradiance.longwave_irradiance"], [dict(in_roi=True), dict(in_roi=False)], goal_ms=20000)
def longwave(env):
    m = rad_model(env)
    r = m.config.meteo.radiation
    r.cloud_emissivity = env.scalar("cloud_em", 0.9, 1)
    r.rock_emission_factor = env.scalar("rock", 0, 0.02, gen=[0.01])
    b = snapshot(env, m)
    em = None
    if env.symbolic:
        def em_contract(w):
            nonlocal em
            em = env.fresh("em", np.shape(w), getattr(w, "ax", None))
            env.assume(env.and_(env.ge(em, 0), env.le(em, 1)))
            return em

        with env.by_contract(meteo, "clear_sky_emissivity", em_contract):
            env.call(IR.longwave_irradiance, m)
    else:
        env.call(IR.longwave_irradiance, m)
    s = env.sel
    B = {k: s(v) for k, v in b.items()}
    if not env.in_roi:
        ensure_frame(env, m, b, set(), "outside the region of interest")
        return
    got = s(m.state.meteo.lw_in)
    T, V, f = B["meteo.temp"], B["base.svf"], B["meteo.cloud_fraction"]
    em = em if env.symbolic else meteo.clear_sky_emissivity(B["meteo.precipitable_water"])
    if env.symbolic:
        em = em + 0 * T
    sb = c.STEFAN_BOLTZMANN
    ff = f * f
    T2 = T * T
    sky = V * sb * T2 * T2 * (em * (1 - ff) + r.cloud_emissivity * ff)
    env.ensure("never negative", env.geq(got, 0))
    q = T + r.rock_emission_factor * B["meteo.sw_in"]
    warm, cold = (1 - V) * sb * (q * q) * (q * q), (1 - V) * sb * (B["surface.temp"] * B["surface.temp"]) ** 2
    if env.symbolic:
        env.ensure("at least the emission of the sky", env.geq(got, sky))
        env.ensure("without surrounding slopes the emission of the sky", env.or_(env.lt(V, 1), env.eqv(got, sky)))
    else:
        free = (B["snow.swe"] == 0).mean()
        env.ensure("sky weighted with the sky view factor, slopes with the rest",
                   env.eqv(got, sky + free * warm + (1 - free) * cold, rtol=1e-7))
    ensure_frame(env, m, b, {"meteo.lw_in"})


@unit("C25", ["surface.calc_radiation_balance"])
def radiation_balance(env):
    m = rad_model(env)
    m.config.meteo.radiation.snow_emissivity = env.scalar("em", 0.9, 1)
    b = snapshot(env, m)
    env.call(surface.calc_radiation_balance, m, m.grid.roi)
    s, S = env.sel, m.state.meteo
    B = {k: s(v) for k, v in b.items()}
    env.ensure("reflected shortwave", env.eqv(s(S.sw_out), B["surface.albedo"] * B["meteo.sw_in"]))
    t2 = B["surface.temp"] * B["surface.temp"]
    env.ensure("emitted longwave", env.eqv(
        s(S.lw_out), m.config.meteo.radiation.snow_emissivity * c.STEFAN_BOLTZMANN * t2 * t2, rtol=1e-9))
    env.ensure("net radiation == incoming - outgoing", env.eqv(
        s(S.net_radiation), B["meteo.sw_in"] - s(S.sw_out) + B["meteo.lw_in"] - s(S.lw_out), scale=1.0))
    ensure_frame(env, m, b, {"meteo.sw_out", "meteo.lw_out", "meteo.net_radiation"})


@unit("C25", ["irradiance.clear_sky_shortwave_irradiance"],
      [dict(day=d, in_roi=i) for d in (True, False) for i in (True, False)], goal_ms=20000)
def clear_sky_fields(env):
    """Night: no irradiance. Day: the fields of the kernel, global = direct + diffuse."""
    m = rad_model(env)
    day = env.case["day"]
    m.sun_params = dict(sun_over_horizon=day, sun_vector=np.array([0.6, 0.0, 0.8]), day_angle=0.3,
                        zenith_angle=36.9 if day else 100.0)
    b = snapshot(env, m)
    a, d = env.grid("direct", lo=0, hi=1400), env.grid("diffuse", lo=0, hi=1400)
    from openamundsen import modules

    def kernel(*x, **k):
        return a, d

    ones = (lambda dem, res, sun_vec, num_sweeps=1: env.const_grid(1))
    if env.symbolic:
        with env.by_contract(IR, "_clear_sky_shortwave_irradiance", kernel), \
                env.by_contract(modules.radiation, "shadows", ones):
            env.call(IR.clear_sky_shortwave_irradiance, m)
        a, d = (env.sel(q) if day else 0.0 for q in (a, d))
    else:
        env.call(IR.clear_sky_shortwave_irradiance, m)
    s, S = env.sel, m.state.meteo
    env.ensure("global == direct + diffuse", env.or_(not env.in_roi, env.eqv(
        s(S.sw_in_clearsky), s(S.dir_in_clearsky) + s(S.diff_in_clearsky))))
    if not env.in_roi:
        ensure_frame(env, m, b, set(), "outside the region of interest")
        return
    if not day:
        env.ensure("no irradiance at night", env.and_(
            env.eq(s(S.sw_in_clearsky), 0), env.eq(s(S.dir_in_clearsky), 0), env.eq(s(S.diff_in_clearsky), 0)))
    elif env.symbolic:
        env.ensure("direct and diffuse irradiance of the clear sky", env.and_(
            env.eqv(s(S.dir_in_clearsky), a), env.eqv(s(S.diff_in_clearsky), d)))
    ensure_frame(env, m, b, {"meteo.sw_in_clearsky", "meteo.dir_in_clearsky", "meteo.diff_in_clearsky"})


@unit("C25", ["irradiance.clear_sky_shortwave_irradiance"], sym=False, w=2,
      cases=[dict(pixels=p, f=f, ext=e, bounded="grids of up to 5x7 pixels")
             for p in ([3, 4], [5, 2]) for f in (1, 2, 3) for e in (False, True)])
def shadow_window(env):
    """Shadows (downsampled and on an extended grid, if requested) and albedo the irradiance is calculated with."""
    from unittest.mock import patch

    from openamundsen import modules

    f, ext = env.case["f"], env.case["ext"]
    m = rad_model(env, meteo=dict(radiation=dict(shadows_downsampling_factor=f)))
    m.sun_params = dict(sun_over_horizon=True, sun_vector=np.array([0.6, 0.0, 0.8]), day_angle=0.3, zenith_angle=36.9)
    rows, cols = env.shape
    r0, c0, r1, c1 = (int(env.scalar(k, 0, 2, integer=True)) for k in ("top", "left", "bottom", "right"))
    eg = m.grid.extended_grid
    eg.available = ext
    big = (rows + r0 + r1, cols + c0 + c1) if ext else (rows, cols)
    if ext:
        eg.dem = np.arange(big[0] * big[1], dtype=float).reshape(big)
        eg.row_slice, eg.col_slice = slice(r0, r0 + rows), slice(c0, c0 + cols)
    dem = eg.dem if ext else m.state.base.dem
    unknown = env.choice("unknown", [False, True])
    if unknown:
        m.state.surface.albedo[:] = np.nan
    low = tuple(-(-n // f) for n in big)
    pattern = np.random.default_rng(int(env.scalar("pattern", 0, 2**31 - 1, integer=True))).integers(0, 2, low)
    seen = []

    def shadows(d, res, sun_vec, num_sweeps=1):
        seen.append((d, res))
        return pattern.copy()

    sig = inspect.signature(IR._clear_sky_shortwave_irradiance)

    def kernel(*x, **k):
        seen.append(list(sig.bind(*x, **k).arguments.values()))
        z = np.zeros(env.shape)
        return z, z.copy()

    alb = m.state.surface.albedo[m.grid.roi].copy()
    with patch.object(modules.radiation, "shadows", shadows), patch.object(IR, "_clear_sky_shortwave_irradiance", kernel):
        env.call(IR.clear_sky_shortwave_irradiance, m)
    env.ensure("shadows and irradiance calculated once", len(seen) == 2)
    (d, res), x = seen
    env.ensure("terrain the shadows are cast on", np.array_equal(d, dem[::f, ::f], equal_nan=True)
               and res == m.grid.resolution * f)
    o = (r0, c0) if ext else (0, 0)
    want = np.array([[pattern[(i + o[0]) // f, (j + o[1]) // f] for j in range(cols)] for i in range(rows)])
    env.ensure("shadows of the grid's own pixels", np.array_equal(x[2], want))
    env.ensure("mean albedo, or the soil albedo as long as there is none",
               env.eqv(x[8], m.config.soil.albedo if unknown else alb.mean()))


METHODS = ["clear_sky_fraction", "humidity", "prescribed"]


def inverse(f):
    return np.clip((-0.233 + np.sqrt(0.233**2 + 4 * 0.415 * (1 - f))) / (2 * 0.415), 0, 1)


@unit("C25", ["irradiance.shortwave_irradiance", "irradiance.clear_sky_shortwave_irradiance", "model._irradiance",
              "irradiance.longwave_irradiance"], sym=False,
      cases=[dict(method=k, bounded="runs of 6 time steps on grids of up to 3x4 pixels") for k in METHODS], w=3)
def shortwave(env):
    """Complete runs: the radiation fields of every time step and pixel."""
    seed = env.scalar("setup_seed", 0, 2**31 - 1, integer=True)
    rng = np.random.default_rng(int(seed))
    st = e2e.random_setup(rng, nsteps=6, timestep="3h", start=str(rng.choice(["2020-06-20", "2020-12-20 03:00"])))
    meth = env.case["method"]
    if meth == "prescribed":
        st["data"]["cloud_fraction"] = np.clip(rng.uniform(-20, 120, st["data"]["temp"].shape), 0, 100)
    gaps = rng.random() < 0.5
    if gaps:
        for k in ("sw_in", "cloud_fraction", "rel_hum"):
            if k in st["data"]:
                gap = rng.random(st["data"][k].shape) < 0.4
                if k == "rel_hum":  # (without any humidity the fields are missing)
                    gap[0] = False
                st["data"][k][gap] = np.nan
    cl = dict(method=meth, clear_sky_fraction_night_method=str(rng.choice(["humidity", "constant"])))
    rad = dict(shadows_downsampling_factor=int(rng.choice([1, 1, 2])), num_shadow_sweeps=int(rng.choice([1, -1])))
    # gradients next to gaps in the terrain model are undefined
    st["dem"][np.isnan(st["dem"])] = 2150.0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with e2e.Run(st, meteo=dict(interpolation=dict(cloudiness=cl), radiation=rad)) as m:
            prev = None
            for _ in range(len(m.dates)):
                env.call(m.run_single)
                roi, s = m.grid.roi, m.state.meteo
                sp = m.sun_params
                ref = SP.sun_parameters(m.date, m.grid.center_lon, m.grid.center_lat, 1)
                env.ensure("sun parameters of the current time step", env.eqv(
                    np.asarray(sp["sun_vector"]), np.asarray(ref["sun_vector"]), scale=1.0))
                f, cs, sw = s.cloud_factor[roi], s.sw_in_clearsky[roi], s.sw_in[roi]
                env.ensure("clear-sky irradiance: direct plus diffuse, not negative", env.and_(
                    env.geq(s.dir_in_clearsky[roi], 0), env.geq(s.diff_in_clearsky[roi], 0, scale=1e-6),
                    env.eqv(cs, s.dir_in_clearsky[roi] + s.diff_in_clearsky[roi])))
                env.ensure("cloud factor and fraction within [0, 1]", env.and_(
                    env.geq(f, 0), env.leq(f, 1), env.geq(s.cloud_fraction[roi], 0), env.leq(s.cloud_fraction[roi], 1)))
                env.ensure("global radiation == clear-sky irradiance * cloud factor", env.eqv(sw, cs * f, scale=1e-9))
                env.ensure("cloud fraction belongs to the cloud factor",
                           env.eqv(s.cloud_fraction[roi], inverse(f), scale=1.0))
                if not sp["sun_over_horizon"]:
                    env.ensure("no global radiation at night", env.eq(sw, 0))
                ds = m.meteo.sel(time=m.date)
                expect = factors(m, ds, meth, cl, sp, s, prev)
                if expect is not None:
                    lo, hi = expect
                    env.ensure("cloud factor within the range of the stations in use",
                               env.and_(env.geq(f, lo, scale=1e-6), env.leq(f, hi, scale=1e-6)))
                prev = f.copy()


def factors(m, ds, meth, cl, sp, s, prev):
    """Range of the cloud factors of the stations that determine the step (None: not determined here)."""
    if meth == "prescribed":
        v = ds.cloud_fraction.values / 100
        v = v[np.isfinite(v)]
        if len(v):
            f = np.clip(1 - 0.233 * v - 0.415 * v**2, 0, 1)
            return f.min(), f.max()
        meth = "clear_sky_fraction"
    if meth == "clear_sky_fraction":
        if sp["sun_over_horizon"]:
            vals = []
            for k in range(ds.sizes["station"]):
                d = ds.isel(station=k)
                if not bool(d.within_roi) or not np.isfinite(float(d.sw_in)):
                    continue
                vals.append(float(d.sw_in) / s.sw_in_clearsky[int(d.row), int(d.col)])
            if vals:
                return np.clip(min(vals), 0, 1), np.clip(max(vals), 0, 1)
            meth = "humidity"
        else:
            meth = cl["clear_sky_fraction_night_method"]
    if meth == "constant" and prev is not None:
        p = np.where(np.isnan(prev), 0.75, prev)
        return p.min(), p.max()
    if meth == "constant":
        return 0.75, 0.75
    return None
