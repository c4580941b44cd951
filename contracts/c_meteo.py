"""Meteorological formulas (C13)."""

import numpy as np

from openamundsen import meteo
from pyvc.unit import unit

T0 = 273.15
TLO, THI = 200.0, 330.0
WATER = (610.78, 17.08, 234.18)
ICE = (610.71, 22.44, 272.44)


def magnus(env, t, coeffs):
    a, b, c = coeffs
    tc = t - T0
    return a * env.f("exp", b * tc / (c + tc))


def temp(env, name="T", **k):
    return env.grid(name, TLO, THI, gen=[T0, T0 + 1e-9, T0 - 1e-9, 253.15], **k)


@unit("C13", ["atmosphere.atmospheric_pressure", "atmosphere.pressure_to_altitude"])
def pressure_altitude(env):
    z1, z2 = env.grid("z1", -500, 9500), env.grid("z2", -500, 9500)
    p1 = env.call(meteo.atmospheric_pressure, z1)
    p2 = env.call(meteo.atmospheric_pressure, z2)
    env.ensure("pressure is positive", env.gt(p1, 0))
    env.ensure("pressure decreases strictly with elevation",
               env.or_(env.geq(z1, z2), env.gt(p1, p2)) if env.symbolic else env.or_(z1 >= z2 - 1e-6, p1 > p2))
    env.ensure("sea-level pressure is the standard atmosphere",
               env.implies(env.eq(z1, 0), env.eqv(p1, 101325.0)))
    env.ensure("pressure_to_altitude inverts atmospheric_pressure",
               env.eqv(env.call(meteo.pressure_to_altitude, p1), z1, scale=1e3))


@unit("C13", ["atmosphere.pressure_to_altitude", "atmosphere.atmospheric_pressure"])
def altitude_pressure(env):
    p = env.grid("p", 30000, 107000)
    z = env.call(meteo.pressure_to_altitude, p)
    env.ensure("atmospheric_pressure inverts pressure_to_altitude",
               env.eqv(env.call(meteo.atmospheric_pressure, z), p))


@unit("C13", ["atmosphere.saturation_vapor_pressure"],
      [dict(over=o) for o in ("none", "water", "ice")])
def saturation(env):
    over = None if env.case["over"] == "none" else env.case["over"]
    t1, t2 = temp(env, "T1", nan=True), temp(env, "T2")
    e1 = env.call(meteo.saturation_vapor_pressure, t1, over=over)
    e2 = env.call(meteo.saturation_vapor_pressure, t2, over=over)
    w, i = magnus(env, t1, WATER), magnus(env, t1, ICE)
    exp = {"water": w, "ice": i, "none": env.ite(env.ge(t1, T0), w, i)}[env.case["over"]]
    env.ensure("Magnus formula over the requested phase (water at or above 0 degC, ice below)",
               env.eqv(e1, exp, rtol=1e-9))
    env.ensure("positive", env.or_(env.isnan(t1), env.gt(e1, 0)))
    if over is not None:
        ok = env.or_(env.isnan(t1), env.geq(t1, t2), env.lt(e1, e2))
        env.ensure("increases strictly with temperature",
                   ok if env.symbolic else env.or_(np.isnan(t1), t1 >= t2 - 1e-9, e1 < e2))


@unit("C13", ["atmosphere.saturation_vapor_pressure"])
def saturation_unknown_phase(env):
    t = temp(env)
    r = env.call(meteo.saturation_vapor_pressure, t, over="mercury", raises=(NotImplementedError,))
    env.ensure("unknown phase refused", isinstance(r, NotImplementedError))


@unit("C13", ["atmosphere.vapor_pressure", "atmosphere.absolute_humidity",
              "atmosphere.relative_humidity", "atmosphere.saturation_vapor_pressure"])
def humidity_round_trip(env):
    t, rh = temp(env, nan=True), env.grid("rh", 0, 100, nan=True)
    e = env.call(meteo.vapor_pressure, t, rh)
    es = env.call(meteo.saturation_vapor_pressure, t)
    a = env.call(meteo.absolute_humidity, t, e)
    r = env.call(meteo.relative_humidity, t, a)
    bad = env.or_(env.isnan(t), env.isnan(rh))
    env.ensure("vapor pressure is the given share of saturation", env.eqv(e, es * rh / 100))
    env.ensure("vapor pressure missing exactly where an input is missing", env.eq(env.isnan(e), bad))
    env.ensure("0 <= vapor pressure <= saturation",
               env.or_(bad, env.and_(env.ge(e, 0), env.leq(e, es))))
    env.ensure("absolute humidity obeys the ideal gas law of water vapor",
               env.or_(bad, env.eqv(a * 461.52 * t, e, rtol=1e-3, scale=1.0)
                       if not env.symbolic else env.leq(abs(a * 461.52 * t - e), e / 1000)))
    env.ensure("relative -> absolute -> relative humidity is the identity", env.or_(bad, env.eqv(r, rh)))


@unit("C13", ["atmosphere.dew_point_temperature", "atmosphere.relative_humidity_from_dew_point_temperature"])
def dew_point_round_trip(env):
    t, rh = temp(env), env.grid("rh", 1, 100, gen=[1, 50, 100])
    td = env.call(meteo.dew_point_temperature, t, rh)
    back = env.call(meteo.relative_humidity_from_dew_point_temperature, t, td)
    env.ensure("humidity -> dew point -> humidity is the identity", env.eqv(back, rh, rtol=1e-6))


@unit("C13", ["atmosphere.dew_point_temperature", "atmosphere.saturation_vapor_pressure",
              "atmosphere.vapor_pressure"])
def dew_point(env):
    t, rh = temp(env), env.grid("rh", 1, 100, gen=[1, 50, 100])
    td = env.call(meteo.dew_point_temperature, t, rh)
    e = env.call(meteo.vapor_pressure, t, rh, "water")
    env.ensure("air at the dew point is saturated with respect to water",
               env.eqv(env.call(meteo.saturation_vapor_pressure, td, over="water"), e, rtol=1e-6))
    env.ensure("dew point does not exceed the air temperature", env.leq(td, t))
    env.ensure("dew point equals the air temperature at saturation",
               env.implies(env.eq(rh, 100), env.eqv(td, t)))


@unit("C13", ["atmosphere.specific_humidity", "atmosphere.specific_heat_capacity_moist_air",
              "atmosphere.latent_heat_of_vaporization", "atmosphere.psychrometric_constant"])
def moist_air(env):
    p, e1, e2 = env.grid("p", 30000, 110000), env.grid("e1", 0, 20000), env.grid("e2", 0, 20000)
    t = temp(env)
    q1, q2 = env.call(meteo.specific_humidity, p, e1), env.call(meteo.specific_humidity, p, e2)
    env.ensure("specific humidity is a mass fraction of water vapor",
               env.eqv(q1 * (p - e1 + 0.622 * e1), 0.622 * e1))
    env.ensure("specific humidity within [0, 1)", env.and_(env.ge(q1, 0), env.lt(q1, 1)))
    env.ensure("specific humidity increases with vapor pressure",
               env.or_(env.gt(e1, e2), env.leq(q1, q2)))
    cp = env.call(meteo.specific_heat_capacity_moist_air, q1)
    env.ensure("moist air heat capacity", env.eqv(cp, 1004.67 * (1 + 0.84 * q1), rtol=1e-3)
               if not env.symbolic else env.leq(abs(cp - 1004.67 * (1 + 0.84 * q1)), 1.0))
    lv = env.call(meteo.latent_heat_of_vaporization, t)
    env.ensure("latent heat of vaporization decreases linearly with temperature",
               env.eqv(lv, 2.501e6 - 2361 * (t - T0)))
    g = env.call(meteo.psychrometric_constant, p, cp, lv)
    env.ensure("psychrometric constant", env.eqv(g * 0.622 * lv, cp * p))


@unit("C13", ["atmosphere.dry_air_density"])
def dry_air_density(env):
    p, t = env.grid("p", 30000, 110000), temp(env)
    rho = env.call(meteo.dry_air_density, t, p)
    env.ensure("ideal gas law", env.leq(abs(rho * 287.06 * t - p), 1e-3 * p))


@unit("C13", ["atmosphere.cloud_factor_from_cloud_fraction", "atmosphere.cloud_fraction_from_cloud_factor"])
def clouds(env):
    f1, f2 = env.grid("f1", 0, 1, nan=True), env.grid("f2", 0, 1)
    c1 = env.call(meteo.cloud_factor_from_cloud_fraction, f1)
    c2 = env.call(meteo.cloud_factor_from_cloud_fraction, f2)
    bad = env.isnan(f1)
    env.ensure("cloud factor within [0, 1]", env.or_(bad, env.and_(env.ge(c1, 0), env.le(c1, 1))))
    env.ensure("clear sky: cloud factor 1", env.implies(env.eq(f1, 0), env.eqv(c1, 1)))
    env.ensure("more clouds, less radiation", env.or_(bad, env.geq(f1, f2), env.geq(c1, c2)))
    env.ensure("missing cloudiness stays missing", env.eq(env.isnan(c1), bad))
    g = env.call(meteo.cloud_fraction_from_cloud_factor, c1)
    env.ensure("cloud fraction -> factor -> fraction is the identity", env.or_(bad, env.leq(abs(g - f1), 1e-6)))


@unit("C13", ["atmosphere.cloud_fraction_from_cloud_factor"])
def cloud_fraction_range(env):
    c1, c2 = env.grid("c1", 0, 1, nan=True), env.grid("c2", 0, 1)
    f1, f2 = [env.call(meteo.cloud_fraction_from_cloud_factor, q) for q in (c1, c2)]
    bad = env.isnan(c1)
    env.ensure("cloud fraction within [0, 1]", env.or_(bad, env.and_(env.ge(f1, 0), env.le(f1, 1))))
    env.ensure("more radiation, less clouds", env.or_(bad, env.gt(c1, c2), env.geq(f1, f2)))
    env.ensure("missing cloudiness stays missing", env.eq(env.isnan(f1), bad))


@unit("C13", ["atmosphere.cloud_fraction_from_humidity"])
def cloud_fraction_humidity(env):
    t, rh, z = temp(env), env.grid("rh", 1, 100), env.grid("z", 0, 5000)
    lr, dlr = env.scalar("lr", -0.01, 0.01), env.scalar("dlr", -0.01, 0.01)
    f = env.call(meteo.cloud_fraction_from_humidity, t, rh, z, lr, dlr)
    env.ensure("cloud fraction within [0, 1]", env.or_(env.isnan(f), env.and_(env.ge(f, 0), env.le(f, 1))))


@unit("C13", ["atmosphere.precipitable_water", "atmosphere.clear_sky_emissivity"])
def emissivity(env):
    t, e = temp(env), env.grid("e", 0, 12000)
    w = env.call(meteo.precipitable_water, t, e)
    env.ensure("precipitable water after Prata", env.eqv(w * t, 46.5 * (e / 100) * 10))
    em = env.call(meteo.clear_sky_emissivity, w)
    env.ensure("clear-sky emissivity within (0, 1)", env.and_(env.gt(em, 0), env.lt(em, 1)))
    wc = w / 10
    env.ensure("clear-sky emissivity after Prata",
               env.eqv(em, 1 - (1 + wc) * env.f("exp", -env.f("sqrt", 1.2 + 3 * wc))))


@unit("C13", ["atmosphere.log_wind_profile"])
def wind_profile(env):
    u, h1, h2, z0 = (env.grid("u", 0, 60), env.scalar("h1", 1, 50), env.scalar("h2", 1, 50),
                     env.scalar("z0", 1e-4, 0.5))
    v = env.call(meteo.log_wind_profile, u, h1, h2, z0)
    env.ensure("wind speed unchanged at the reference height", env.implies(env.eq(h1, h2), env.eqv(v, u)))
    env.ensure("wind speed not smaller at greater heights",
               env.implies(env.ge(h2, h1), env.geq(v, u)))
    env.ensure("wind speed not greater at smaller heights",
               env.implies(env.le(h2, h1), env.leq(v, u)))
    back = env.call(meteo.log_wind_profile, v, h2, h1, z0)
    env.ensure("profile conversion is reversible", env.eqv(back, u))


@unit("C13", ["atmosphere.wind_from_uv", "atmosphere.wind_to_uv"])
def wind_components(env):
    if env.symbolic:
        env.c.trig_shifts = True
    u, v = env.grid("u", -60, 60), env.grid("v", -60, 60)
    ws, wd = env.call(meteo.wind_from_uv, u, v)
    env.ensure("wind speed is the magnitude", env.and_(env.ge(ws, 0), env.eqv(ws * ws, u * u + v * v)))
    env.ensure("wind direction within [0, 360)", env.and_(env.ge(wd, 0), env.lt(wd, 360) if env.symbolic
                                                       else env.leq(wd, 360)))
    if env.symbolic:
        from pyvc import core, trans

        for f, a, w in list(env.c.trans):
            if f == "arctan2":
                trans._trig(core.S(w))
    uu, vv = env.call(meteo.wind_to_uv, ws, wd)
    env.ensure("components -> speed and direction -> components is the identity (u)",
               env.eqv(uu, u, scale=1.0))
    env.ensure("components -> speed and direction -> components is the identity (v)",
               env.eqv(vv, v, scale=1.0))


@unit("C13", ["atmosphere.wind_to_uv"])
def wind_cardinal(env):
    """0 deg = from the north, 90 deg = from the east."""
    ws = env.grid("ws", 0, 60)
    for wd, (eu, ev) in {0.0: (0, -1), 90.0: (-1, 0), 180.0: (0, 1), 270.0: (1, 0)}.items():
        u, v = env.call(meteo.wind_to_uv, ws, wd)
        env.ensure(f"wind from {wd:.0f} deg", env.and_(env.leq(abs(u - eu * ws), 1e-9), env.leq(abs(v - ev * ws), 1e-9)))
