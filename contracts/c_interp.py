"""Inverse distance weighting (C11), interpolation of station data (C12)."""

import numpy as np
import pandas as pd
from munch import Munch

from openamundsen import interpolation
from openamundsen.meteo import interpolation as mi
from pyvc import loops
from pyvc.unit import unit

from .common import config, fill_state, make_model, snapshot

# --------------------------------------------------------------------------- C11

NS = (1, 2, 3)


def pts(env, n, nan=False, zlo=-1e4, zhi=1e4):
    x = env.vec("x", n, 0, 1e5, gen=[0.0, 1000.0, 2000.0])
    y = env.vec("y", n, 0, 1e5, gen=[0.0, 1000.0, 2000.0])
    z = env.vec("z", n, zlo, zhi, nan=nan)
    return x, y, z


def targets(env, m=1):
    return env.vec("tx", m, 0, 1e5, gen=[0.0, 1000.0, 2000.0]), env.vec("ty", m, 0, 1e5, gen=[0.0, 1000.0, 2000.0])


def vmin(env, z, up=False):
    r = z[0]
    for q in z[1:]:
        r = env.ite(env.gt(q, r) if up else env.lt(q, r), q, r)
    return r


def finite(env, *a):
    return env.and_(*[env.isfinite(q) for q in a])


@unit("C11", ["interpolation._idw"], [dict(s=0.0), dict(s="any")], conc=False, goal_ms=20000,
      fallback=[dict(s=0.0, n=2, bounded="2 stations")])
def idw_kernel(env):
    """Any number of stations, a generic target, any power and smoothing."""
    E = env
    n = env.case.get("n") or env.count("stations", 1)
    sv = (lambda nm, a, b, **k: env.vec(nm, n, a, b)) if "n" in env.case else (
        lambda nm, a, b, **k: env.symvec(nm, n, a, b, **k))
    lo, hi = env.scalar("lo", -1e4, 1e4), env.scalar("hi", -1e4, 1e4)
    x, y = sv("x", 0, 1e5), sv("y", 0, 1e5)
    z = sv("z", -1e4, 1e4, facts=lambda l, v: E.and_(E.ge(v, lo), E.le(v, hi)))
    if "n" in env.case:
        for k in range(n):
            env.assume(E.and_(E.ge(z[k], lo), E.le(z[k], hi)))
    tx, ty = targets(env)
    p = env.scalar("p", 0.5, 4)
    s = env.scalar("s", 0.0, 1e4, lo_open=True) if env.case["s"] == "any" else 0.0
    at = (lambda v, l: v[l]) if "n" in env.case else (lambda v, l: v.at(l))

    def d2(l):
        return (tx[0] - at(x, l)) ** 2 + (ty[0] - at(y, l)) ** 2 + s ** 2

    def w(l):
        return 1.0 / env.f("sqrt", d2(l)) ** p

    sp = env.loop_contract("openamundsen.interpolation:_idw", 0, loops.LoopSpec(
        [], lambda st, o, l: [("the stations passed are not at the target", E.gt(d2(l), 0))],
        lambda st, o, k, g: [("weights", E.and_(E.eqv(st.w, g.W), E.eqv(st.total, g.Z), E.ge(st.w, 0),
                                                E.or_(E.le(k, 0), E.gt(st.w, 0)))),
                             ("within the range", E.and_(E.le(lo * st.w, st.total), E.le(st.total, hi * st.w))),
                             ("no station at the target yet", E.not_(st.dist_is_0))],
        dict(W=lambda st, o, l: w(l), Z=lambda st, o, l: at(z, l) * w(l)))) if "n" not in env.case else None
    r = env.call(interpolation._idw, x, y, z, tx, ty, p, s)
    env.ensure("within the range of the station values", E.and_(E.ge(r[0], lo), E.le(r[0], hi)))
    if sp is None:
        return
    l, k = env.index("l", n), sp.k
    sp.use(l)
    first = E.and_(E.eq(d2(l), 0), E.or_(E.ge(k, l), E.gt(d2(k), 0) if bool(E.lt(k, n)) else True))
    env.ensure("exact at the first station at the target", E.implies(first, E.eqv(r[0], at(z, l))))
    if bool(E.ge(k, n)):
        env.ensure("every station takes part", sp.visited(l))
        env.ensure("inverse-distance weighted mean", E.eqv(r[0] * sp.ghost.W, sp.ghost.Z))


@unit("C11", ["interpolation.idw", "interpolation._idw"],
      [dict(n=n, p=p, bounded=f"{n} stations") for n in NS for p in (1.0, 2.0, 3.0)],
      conc_cases=[dict(n=n, p=p) for n in (1, 2, 3, 8) for p in (0.5, 1.0, 2.0, 3.0)], goal_ms=20000)
def idw(env):
    n, p = env.case["n"], env.case["p"]
    x, y, z = pts(env, n)
    tx, ty = targets(env)
    b = [env.old(q) for q in (x, y, z, tx, ty)]
    r = env.call(interpolation.idw, x, y, z, tx, ty, power=p)
    d2 = [(x[k] - tx[0]) ** 2 + (y[k] - ty[0]) ** 2 for k in range(n)]
    hit = [env.eq(q, 0) for q in d2]
    for k in range(n):
        first = env.and_(hit[k], *[env.not_(h) for h in hit[:k]])
        env.ensure("exact at the station locations", env.implies(first, env.eqv(r[0], z[k])))
    lo, hi = vmin(env, z), vmin(env, z, True)
    env.ensure("within the range of the station values", env.and_(env.geq(r[0], lo, scale=1e4), env.leq(r[0], hi, scale=1e4)))
    # the definition: sum z/d**p / sum 1/d**p
    d = [env.f("sqrt", q) for q in d2]

    def w(k):
        return 1 / d[k] ** p

    none = env.and_(*[env.not_(h) for h in hit]) if n > 1 else env.not_(hit[0])
    if env.symbolic:
        if bool(none):
            W = sum(w(k) for k in range(n))
            env.ensure("inverse-distance weighted mean", env.eqv(r[0] * W, sum(z[k] * w(k) for k in range(n))))
    elif none:
        W = sum(w(k) for k in range(n))
        env.ensure("inverse-distance weighted mean",
                   env.eqv(r[0], sum(z[k] * w(k) for k in range(n)) / W, scale=1e4))
    for q, o in zip((x, y, z, tx, ty), b):
        env.ensure("inputs not modified", env.same(q, o))


@unit("C11", ["interpolation.idw", "interpolation._idw"], [dict(n=n, bounded=f"{n} stations") for n in NS],
      conc_cases=[dict(n=n) for n in (1, 2, 3, 8)], goal_ms=20000)
def idw_missing(env):
    """Stations without a value do not take part; without any value the result is missing."""
    n = env.case["n"]
    x, y, z = pts(env, n, nan=True)
    m = 2 if n == 1 or not env.symbolic else 1
    tx, ty = targets(env, m)
    r = env.call(interpolation.idw, x, y, z, tx, ty)
    ok = [k for k in range(n) if not bool(env.isnan(z[k]))]
    if not ok:
        env.ensure("no station: missing everywhere", env.isnan(r))
        return
    env.ensure("some station: a value everywhere", env.isfinite(r))
    env.ensure("one value per target", len(r) == m)
    zz = [z[k] for k in ok]
    lo, hi = vmin(env, zz), vmin(env, zz, True)
    env.ensure("within the range of the available values", env.and_(env.geq(r, lo, scale=1e4), env.leq(r, hi, scale=1e4)))
    if len(ok) == 1:
        env.ensure("single station: its value everywhere", env.eqv(r, zz[0]))
    for t in range(m):
        same = [env.and_(env.eq(x[k], tx[t]), env.eq(y[k], ty[t])) for k in ok]
        for i, k in enumerate(ok):
            first = env.and_(same[i], *[env.not_(h) for h in same[:i]])
            env.ensure("exact at the first available station", env.implies(first, env.eqv(r[t], z[k])))


@unit("C11", ["interpolation.idw", "interpolation._idw"], [dict(n=n, bounded=f"{n} stations") for n in (1, 2)],
      conc_cases=[dict(n=n) for n in (1, 2, 3, 8)], goal_ms=20000)
def idw_smoothing(env):
    n = env.case["n"]
    x, y, z = pts(env, n)
    tx, ty = targets(env)
    s = env.scalar("s", 1, 1e4)
    r = env.call(interpolation.idw, x, y, z, tx, ty, smoothing=s)
    w = [1 / ((x[k] - tx[0]) ** 2 + (y[k] - ty[0]) ** 2 + s * s) for k in range(n)]
    env.ensure("distances are smoothed",
               env.eqv(r[0] * sum(w), sum(z[k] * w[k] for k in range(n)), scale=1e4 * (1.0 if env.symbolic else sum(w))))


@unit("C11", ["interpolation.idw"])
def idw_lengths(env):
    x, y, z = pts(env, 2)
    tx, ty = targets(env)
    e = env.call(interpolation.idw, x, y[:1], z, tx, ty, raises=(ValueError,))
    env.ensure("unequal lengths refused", isinstance(e, ValueError))


# --------------------------------------------------------------------------- C12


def idw_contract(env):
    """What C11 establishes about idw: hull of the available values, exact at stations, NaN iff none."""

    def fn(x, y, z, tx, ty, power=2, smoothing=0, ignore_nan=True):
        ok = [k for k in range(len(z)) if not bool(env.isnan(z[k]))]
        m = len(tx)
        if not ok:
            return env.A.wrap(np.full(m, np.nan), None)
        r = env.fresh("idw", (m,), getattr(tx, "ax", None))
        zz = [z[k] for k in ok]
        lo, hi = vmin(env, zz), vmin(env, zz, True)
        env.assume(env.and_(env.ge(r, lo), env.le(r, hi)))
        for t in range(m):
            same = [env.and_(env.eq(x[k], tx[t]), env.eq(y[k], ty[t])) for k in ok]
            for i, k in enumerate(ok):
                first = env.and_(same[i], *[env.not_(h) for h in same[:i]])
                env.assume(env.implies(first, env.eq(r[t], z[k])))
        return r

    return fn


RANGES = {"temp": (0.0, None), "precip": (0.0, None), "rel_hum": (0.0, 100.0), "wind_speed": (0.1, None),
          "wind_vec": (None, None)}
CONF = {"temp": "temperature", "precip": "precipitation", "rel_hum": "humidity", "wind_speed": "wind",
        "wind_vec": "wind"}
METHODS = {"temp": ("regression", "fixed"), "precip": ("regression", "fixed", "fractional", "adjustment_factor"),
           "rel_hum": ("regression", "fixed"), "wind_speed": ("regression", "fixed", "fractional"),
           "wind_vec": ("regression", "fixed", "fractional")}
VAL = {"temp": (220, 320), "precip": (0, 100), "rel_hum": (5, 100), "wind_speed": (0.1, 40), "wind_vec": (-40, 40)}
DATE = pd.Timestamp("2020-07-15")


def case_list(ns):
    return [dict(param=p, method=me, n=n, extrapolate=e, bounded=f"{n} stations")
            for p in RANGES for me in METHODS[p] for n in ns for e in (True, False)]


def setup(env):
    """Stations, one target, and the parameter configuration of the case."""
    c = env.case
    p, n = c["param"], c["n"]
    cfg = config()["meteo"]["interpolation"][CONF[p]].copy()
    cfg["trend_method"] = c["method"]
    cfg["extrapolate"] = c["extrapolate"]
    lr = env.scalar("lr", -0.01, 0.01)
    cfg["lapse_rate"] = [99.0] * 6 + [lr] + [99.0] * 5
    lo, hi = VAL[p]
    x, y = env.vec("x", n, 0, 1e5), env.vec("y", n, 0, 1e5)
    z = env.vec("z", n, 0, 5000)
    d = env.vec("d", n, lo, hi)
    k = dict(zip(("target_xs", "target_ys", "target_zs"),
                 (env.vec("tx", 1, 0, 1e5), env.vec("ty", 1, 0, 1e5), env.vec("tz", 1, 0, 5000))))
    if not env.symbolic and n > 0:
        z[:] = np.round(z)  # elevations to the metre: the regression is well conditioned
    if not env.symbolic and env.rng is not None and n > 0 and env.rng.random() < 0.4:
        k["target_xs"][:], k["target_ys"][:], k["target_zs"][:] = x[0], y[0], z[0]
    if p == "rel_hum":
        k["temps"] = env.vec("T", n, 220, 320)
        k["target_temps"] = env.vec("tT", 1, 220, 320)
        if not env.symbolic and n > 0 and k["target_xs"][0] == x[0]:
            k["target_temps"][:] = k["temps"][0]
    return p, cfg, lr, d, x, y, z, k


def run_param(env, p, cfg, d, x, y, z, k):
    with env.by_contract(interpolation, "idw", idw_contract(env)):
        return env.call(mi.interpolate_param, p, DATE, cfg, d, x, y, z, **k)


@unit("C12", ["meteo.interpolation.interpolate_param", "meteo.interpolation._apply_linear_trend",
              "meteo.interpolation._linear_fit"], case_list((1, 2)), conc_cases=[
                  {**q, "n": n} for q in case_list((1,)) for n in (1, 2, 5)], goal_ms=20000)
def param_range(env):
    p, cfg, lr, d, x, y, z, k = setup(env)
    n = env.case["n"]
    r, info = run_param(env, p, cfg, d, x, y, z, k)
    env.ensure("one value per target", len(r) == 1)
    lo, hi = RANGES[p]
    bad = env.isnan(r)
    if env.case["method"] != "adjustment_factor":
        env.ensure("a value everywhere", env.not_(bad))
    if lo is not None:
        env.ensure("not below the physical minimum", env.or_(bad, env.geq(r, lo)))
    if hi is not None:
        env.ensure("not above the physical maximum", env.or_(bad, env.leq(r, hi)))
    if not env.case["extrapolate"]:
        # within the range of the station values (as far as the physical range allows)
        mn, mx = vmin(env, d), vmin(env, d, True)
        env.ensure("extrapolation disabled: within the range of the station values",
                   env.or_(bad, env.and_(env.geq(r, mn, scale=100), env.leq(r, mx, scale=100))))


@unit("C12", ["meteo.interpolation.interpolate_param", "meteo.interpolation._apply_linear_trend"],
      [q for q in case_list((1, 2)) if q["extrapolate"]],
      conc_cases=[{**q, "n": n} for q in case_list((1,)) if q["extrapolate"] for n in (1, 2, 5)], goal_ms=20000)
def param_exact(env):
    """At a station the station's value is reproduced (trend removal and re-application cancel)."""
    p, cfg, lr, d, x, y, z, k = setup(env)
    at0 = env.and_(env.eq(k["target_xs"][0], x[0]), env.eq(k["target_ys"][0], y[0]), env.eq(k["target_zs"][0], z[0]))
    if p == "rel_hum":
        at0 = env.and_(at0, env.eq(k["target_temps"][0], k["temps"][0]))
    env.assume(at0)
    r, info = run_param(env, p, cfg, d, x, y, z, k)
    env.ensure("station value reproduced at the station", env.eqv(r[0], d[0], scale=1e3, rtol=1e-6))


@unit("C12", ["meteo.interpolation.interpolate_param"],
      [q for q in case_list((1, 2)) if q["method"] in ("fixed", "fractional") and q["extrapolate"]
       and q["param"] in ("temp", "wind_vec", "precip")],
      conc_cases=[{**q, "n": n} for q in case_list((1,)) if q["method"] in ("fixed", "fractional")
                  and q["extrapolate"] and q["param"] in ("temp", "wind_vec", "precip") for n in (1, 2, 5)],
      goal_ms=20000)
def param_lapse_rate(env):
    """Stations on one elevation trend: the field follows the lapse rate of the current month."""
    p, cfg, lr, d, x, y, z, k = setup(env)
    a = env.scalar("a", 230 if p == "temp" else 0, 310 if p == "temp" else 50)
    n = env.case["n"]
    slope = lr
    if env.case["method"] == "fractional":
        # mean(a + s*z) * lr == s
        mz = sum(z[i] for i in range(n)) / n
        env.assume(env.lt(abs(lr * mz), 0.9))
        slope = lr * a / (1 - lr * mz)
    for i in range(n):
        d[i] = a + slope * z[i]
    r, info = run_param(env, p, cfg, d, x, y, z, k)
    exp = a + slope * k["target_zs"][0]
    lo = RANGES[p][0]
    if lo is not None:
        exp = env.ite(env.lt(exp, lo), lo, exp)
    env.ensure("linear elevation trend of the month reproduced", env.eqv(r[0], exp, scale=1e3, rtol=1e-6))


@unit("C12", ["meteo.interpolation.interpolate_param"],
      [dict(param="precip", method="adjustment_factor", n=n, extrapolate=True, bounded=f"{n} stations")
       for n in (1, 2)],
      conc_cases=[dict(param="precip", method="adjustment_factor", n=n, extrapolate=True) for n in (1, 2, 5)])
def param_adjustment(env):
    p, cfg, lr, d, x, y, z, k = setup(env)
    if env.symbolic:
        v, zi = env.fresh("v", (1,)), env.fresh("zi", (1,))
        env.assume(env.and_(env.ge(v, 0), env.le(v, 100), env.ge(zi, 0), env.le(zi, 5000)))

        def stub(a, b, c, *r, **q):
            return v if c is d else zi

        with env.by_contract(interpolation, "idw", stub):
            r, info = env.call(mi.interpolate_param, p, DATE, cfg, d, x, y, z, **k)
    else:
        v = interpolation.idw(x, y, d, k["target_xs"], k["target_ys"])
        zi = interpolation.idw(x, y, z, k["target_xs"], k["target_ys"])
        r, info = env.call(mi.interpolate_param, p, DATE, cfg, d, x, y, z, **k)
    q = lr * (k["target_zs"] - zi)
    ok = env.and_(env.gt(q, -0.9), env.lt(q, 0.9))
    env.ensure("precipitation adjusted by (1 + q) / (1 - q)",
               env.or_(env.not_(ok), env.eqv(r * (1 - q), v * (1 + q), scale=10.0)))


@unit("C12", ["meteo.interpolation.interpolate_param"],
      [dict(param=p, method=METHODS[p][0], n=0, extrapolate=True) for p in RANGES])
def param_no_data(env):
    p, cfg, lr, d, x, y, z, k = setup(env)
    r, info = env.call(mi.interpolate_param, p, DATE, cfg, d, x, y, z, **k)
    env.ensure("no station data: no precipitation, other variables missing",
               env.eqv(r, 0.0) if p == "precip" else env.isnan(r))
    env.ensure("one value per target", len(r) == 1)


@unit("C12", ["meteo.interpolation.interpolate_param"])
def param_unknown(env):
    env.case = dict(param="temp", method="fixed", n=1, extrapolate=True)
    p, cfg, lr, d, x, y, z, k = setup(env)
    r = env.call(mi.interpolate_param, "snow_depth", DATE, cfg, d, x, y, z, **k, raises=(ValueError,))
    env.ensure("unknown parameter refused", isinstance(r, ValueError))


@unit("C12", ["meteo.interpolation._linear_fit"], [dict(n=n, bounded=f"{n} points") for n in (0, 1, 2, 3)],
      conc_cases=[dict(n=n) for n in (0, 1, 2, 3, 10)])
def linear_fit(env):
    n = env.case["n"]
    x, y = env.vec("x", n, 0, 5000, gen=[0.0, 1000.0]), env.vec("y", n, -500, 500)
    if n >= 2 and not env.symbolic and env.rng.random() < 0.7:
        x[0] = x[1] + 500
    s, i = env.call(mi._linear_fit, x, y)
    if n < 2:
        env.ensure("no trend from fewer than two points", env.eqv(s, 0))
        return
    equal = env.and_(*[env.eq(x[k], x[0]) for k in range(n)])
    if bool(equal):
        env.ensure("no trend from points at the same position", env.eqv(s, 0))
        return
    if not env.symbolic:
        env.assume(np.ptp(x) > 100)
    res = [y[k] - (i + s * x[k]) for k in range(n)]
    env.ensure("residuals sum to zero", env.leq(abs(sum(res)), 1e-6 * n))
    env.ensure("residuals are orthogonal to x", env.leq(abs(sum(res[k] * x[k] for k in range(n))), 1e-2 * n))


@unit("C12", ["meteo.interpolation._apply_linear_trend"])
def trend_inverse(env):
    d, z = env.grid("d", -500, 500), env.grid("z", 0, 5000)
    t = env.scalar("t", -1, 1)
    a = env.call(mi._apply_linear_trend, d, z, t, "detrend")
    b = env.call(mi._apply_linear_trend, a, z, t, "retrend")
    env.ensure("detrended value", env.eqv(a + t * z, d, scale=5000))
    env.ensure("retrending inverts detrending", env.eqv(b, d, scale=5000))
    e = env.call(mi._apply_linear_trend, d, z, t, "sideways", raises=(NotImplementedError,))
    env.ensure("unknown direction refused", isinstance(e, NotImplementedError))


# -- wiring: which station data and configuration end up in which field

VARS = ("temp", "precip", "rel_hum", "wind_speed", "wind_dir", "wind_speed_gust")


def station_ds(env):
    """Three stations with gaps, three dates (the other dates hold values that must not be used)."""
    import xarray as xr

    rng = env.rng if not env.symbolic else np.random.default_rng(7)
    dates = pd.date_range("2020-07-31 21:00", periods=3, freq="3h")
    lo = dict(temp=260, precip=0, rel_hum=30, wind_speed=0.5, wind_dir=0, wind_speed_gust=1)
    hi = dict(temp=300, precip=9, rel_hum=95, wind_speed=9, wind_dir=360, wind_speed_gust=15)
    data = {}
    for v in VARS:
        q = rng.uniform(lo[v], hi[v], (3, 3))
        q[1:][rng.random(2) < 0.4, 1] = np.nan
        q[:2][rng.random(2) < 0.3, int(rng.choice([0, 2]))] = np.nan
        data[v] = (("station", "time"), q)
    for v, h in (("x", 500), ("y", 500), ("alt", 3000)):
        data[v] = (("station",), rng.uniform(0, h, 3))
    return xr.Dataset(data, coords=dict(station=["a", "b", "c"], time=dates)), dates


def selected(ds, names, i=1):
    """Values at the date and coordinates of the stations where all `names` are available."""
    v = [ds[n].values[:, i] for n in names]
    ok = np.all([np.isfinite(q) for q in v], axis=0)
    return [q[ok] for q in v], [ds[c].values[ok] for c in ("x", "y", "alt")]


class Trace:
    def __init__(self, env, fn):
        import inspect

        self.env, self.calls, self.sig = env, [], inspect.signature(fn)

    def __call__(self, *a, **k):
        b = self.sig.bind(*a, **k)
        b.apply_defaults()
        c = dict(b.arguments)
        env = self.env
        n = len(self.calls)
        v = env.fresh(f"ip{n}", (1,), ("P",)) if env.symbolic else env.rng.uniform(-5, 400, len(c["target_zs"]))
        c["out"] = v
        self.calls.append(c)
        if "param" in c:
            return v, {"n": n}
        w = env.fresh(f"ipd{n}", (1,), ("P",)) if env.symbolic else env.rng.uniform(0, 360, len(c["target_zs"]))
        c["out2"] = w
        return v, w


FIELDS = [  # field, parameter, config section, station variables that must be available
    ("temp", "temp", "temperature", ["temp"]),
    ("precip", "precip", "precipitation", ["precip"]),
    ("rel_hum", "rel_hum", "humidity", ["rel_hum", "temp"]),
    ("wind_speed", "wind_speed", "wind", ["wind_speed"]),
    ("wind_speed_gust", "wind_speed", "wind", ["wind_speed_gust"]),
]


def arr_eq(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(a == b))


def wiring_model(env, method):
    m = make_model(env)
    fill_state(env, m, {"base.dem": dict(lo=0, hi=5000)})
    m._has_wind_gusts = env.case["gusts"]
    for v in ("wind_dir", "wind_speed_gust"):
        if v not in m.state.meteo._meta:
            m.state.meteo.add_variable(v)
            m.state.meteo[v] = env.grid(f"meteo.{v}", 0, 50)
    for v in ("slope", "aspect", "scaled_curvature"):
        if v not in m.state.base._meta:
            m.state.base.add_variable(v)
            m.state.base[v] = env.grid(f"base.{v}", 0, 90)
    m.config.meteo.interpolation.wind.method = method
    m.meteo, m.dates = station_ds(env)
    m.date, m.date_idx = m.dates[1], 1
    return m


@unit("C12", ["meteo.interpolation.interpolate_station_data", "meteo.interpolation._param_station_data"],
      [dict(in_roi=True, gusts=g, method=q) for g in (True, False) for q in ("idw", "liston")])
def station_wiring(env):
    method = env.case["method"]
    m = wiring_model(env, method)
    tr, trl = Trace(env, mi.interpolate_param), Trace(env, mi._liston_wind_correction)
    saved = mi.interpolate_param, mi._liston_wind_correction
    mi.interpolate_param, mi._liston_wind_correction = tr, trl
    dem = env.old(m.state.base.dem)
    b = snapshot(env, m)
    try:
        env.call(mi.interpolate_station_data, m)
    finally:
        mi.interpolate_param, mi._liston_wind_correction = saved
    roi = m.grid.roi
    q = m.state.meteo
    may = set()

    def common(field, c, names, data):
        d, xyz = selected(m.meteo, names)
        env.ensure(f"{field}: recordings of the current date, of the stations that have them", arr_eq(c[data], d[0]))
        env.ensure(f"{field}: the coordinates of these stations",
                   arr_eq(c["xs"], xyz[0]) and arr_eq(c["ys"], xyz[1]) and arr_eq(c["zs"], xyz[2]))
        env.ensure(f"{field}: current date", c["date"] == m.date)
        env.ensure(f"{field}: coordinates of the target pixels",
                   arr_eq(c["target_xs"], m.grid.X[env.roi_plain]) and arr_eq(c["target_ys"], m.grid.Y[env.roi_plain]))
        env.ensure(f"{field}: elevations of the target pixels", env.same(c["target_zs"], dem[roi]))
        return d

    k = 0
    for field, param, section, names in FIELDS:
        wind = field.startswith("wind")
        if (field == "wind_speed_gust" and not env.case["gusts"]) or (wind and method != "idw"):
            continue
        cfg = m.config.meteo.interpolation[section]
        cs = [c for c in tr.calls if c["param"] == param and arr_eq(c["data"], selected(m.meteo, names)[0][0])]
        if not cs:
            env.fail(f"{field} is interpolated from its own recordings")
            continue
        c = cs[0]
        k += 1
        d = common(field, c, names, "data")
        env.ensure(f"{field}: its own configuration section", c["param_config"] == cfg)
        env.ensure(f"{field}: the result is stored at the target pixels", env.same(q[field][roi], c["out"]))
        if param == "rel_hum":
            env.ensure("rel_hum: temperatures of the same stations", c["temps"] is not None and arr_eq(c["temps"], d[1]))
            env.ensure("rel_hum: interpolated temperatures of the target pixels",
                       env.same(c["target_temps"], q["temp"][roi]))
        may.add(f"meteo.{field}")
    env.ensure("each field is interpolated once", len(tr.calls) == k)
    if method == "liston":
        for field in ("wind_speed", "wind_speed_gust")[:2 if env.case["gusts"] else 1]:
            cs = [c for c in trl.calls if arr_eq(c["wind_speeds"], selected(m.meteo, [field, "wind_dir"])[0][0])]
            if not cs:
                env.fail(f"{field} is interpolated from its own recordings")
                continue
            c = cs[0]
            d = common(field, c, [field, "wind_dir"], "wind_speeds")
            env.ensure(f"{field}: wind directions of the same stations", arr_eq(c["wind_dirs"], d[1]))
            for v in ("slope", "aspect", "scaled_curvature"):
                if f"{v}s" in c or v in c:
                    env.ensure(f"{field}: {v} of the target pixels",
                               env.same(c[v if v in c else f"{v}s"], m.state.base[v][roi]))
            o = c["out"]
            env.ensure(f"{field}: the result, at least 0.1 m/s, is stored",
                       env.same(q[field][roi], env.ite(env.lt(o, 0.1), 0.1, o)))
            if field == "wind_speed":
                env.ensure("wind direction stored", env.same(q.wind_dir[roi], c["out2"]))
                may.add("meteo.wind_dir")
            may.add(f"meteo.{field}")
    for full, old in b.items():
        cat, name = full.split(".")
        if full not in may:
            env.ensure("frame: other state variables unchanged", env.same(m.state[cat][name], old))
        elif not env.symbolic:
            env.ensure("frame: pixels outside the region of interest unchanged",
                       env.same(m.state[cat][name][~m.grid.roi], old[~m.grid.roi]))


@unit("C12", ["meteo.interpolation.interpolate_station_data", "meteo.interpolation._param_station_data"],
      [dict(gusts=g) for g in (True, False)], sym=False)
def station_fields(env):
    """End to end: every field equals interpolate_param applied to that variable's available recordings."""
    m = wiring_model(env, "idw")
    env.call(mi.interpolate_station_data, m)
    roi, g, q = m.grid.roi, m.grid, m.state.meteo
    for field, param, section, names in FIELDS:
        if field == "wind_speed_gust" and not env.case["gusts"]:
            continue
        d, xyz = selected(m.meteo, names)
        k = dict(temps=d[1], target_temps=q["temp"][roi]) if param == "rel_hum" else {}
        r, _ = mi.interpolate_param(param, m.date, m.config.meteo.interpolation[section], d[0], *xyz,
                                    g.X[roi], g.Y[roi], m.state.base.dem[roi], **k)
        env.ensure(f"{field} field", env.eqv(q[field][roi], r))
