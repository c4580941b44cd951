"""Snow albedo (C05) and compaction (C06)."""

import numpy as np

from openamundsen import constants as c
from openamundsen.modules.snow import snow as snowmod
from pyvc import loops
from pyvc.unit import unit

from .c_cryolayer import FIRN, ICE, N, NEW, OLD, cryo_model, top_value, we
from .c_multilayer import active, ml_model
from .common import fill_state, make_model, snapshot

TYPES = [dict(det=d, refresh=r) for d in ("air", "surface") for r in ("binary", "continuous")]

METEO = {
    "meteo.temp": dict(lo=220, hi=310, gen=[c.T0]),
    "surface.temp": dict(lo=220, hi=310, gen=[c.T0]),
    "meteo.snowfall": dict(lo=0, hi=50, nan=True),
}


def albedo_params(env, m):
    a = m.config.snow.albedo
    a.min = env.scalar("amin", 0, 0.6)
    a.max = env.scalar("amax", 0.6, 1)
    a.cold_snow_decay_timescale = env.scalar("tau_cold", 1, 2000)
    a.melting_snow_decay_timescale = env.scalar("tau_melt", 1, 2000)
    a.refresh_snowfall = env.scalar("refresh", 0.01, 10)
    a.decay_timescale_determination_temperature = env.case["det"]
    a.refresh_method = env.case["refresh"]
    return a


def expected_albedo(env, m, a, old, b):
    temp = b["meteo.temp"] if env.case["det"] == "air" else b["surface.temp"]
    dt = m.timestep / 3600
    e_m = env.f("exp", -dt / a.melting_snow_decay_timescale)
    e_c = env.f("exp", -dt / a.cold_snow_decay_timescale)
    aged = env.ite(temp >= c.T0, a.min + (old - a.min) * e_m, a.min + (old - a.min) * e_c)
    sf = env.ite(env.isnan(b["meteo.snowfall"]), 0.0, b["meteo.snowfall"])
    rate = sf / dt  # kg m-2 h-1
    return aged, rate


@unit("C05", ["snow.albedo"], TYPES)
def albedo_range(env):
    m = make_model(env, timestep=env.scalar("timestep", 600, 86400), snow=dict(model="multilayer"))
    a = albedo_params(env, m)
    fill_state(env, m, dict(METEO, **{"snow.albedo": dict(lo=0, hi=1)}))
    S = m.state.snow
    if not env.symbolic:
        S.albedo[:] = np.clip(S.albedo, a.min, a.max)
    env.assume(env.and_(env.le(a.min, S.albedo), env.le(S.albedo, a.max)))
    b = snapshot(env, m)
    env.call(snowmod.albedo, m)
    s = env.sel
    old = b["snow.albedo"]
    sf = env.ite(env.isnan(b["meteo.snowfall"]), 0.0, b["meteo.snowfall"])
    env.ensure("albedo stays within the configured range",
               env.and_(env.geq(s(S.albedo), a.min), env.leq(s(S.albedo), a.max)))
    env.ensure("without snowfall albedo does not increase",
               env.or_(s(sf > 0), env.leq(s(S.albedo), s(old))))
    rate = sf / (m.timestep / 3600)
    env.ensure("heavy snowfall resets albedo to the maximum",
               env.or_(env.not_(s(env.ge(rate, a.refresh_snowfall * (1 + 1e-9)))), env.eqv(s(S.albedo), a.max)))


@unit("C05", ["snow.albedo", "MultilayerSnowModel.albedo_aging"], TYPES)
def albedo_formula(env):
    m = make_model(env, timestep=env.scalar("timestep", 600, 86400), snow=dict(model="multilayer"))
    a = albedo_params(env, m)
    fill_state(env, m, dict(METEO, **{"snow.albedo": dict(lo=0, hi=1)}))
    b = snapshot(env, m)
    env.call(m.snow.albedo_aging)
    s, S = env.sel, m.state.snow
    aged, rate = expected_albedo(env, m, a, b["snow.albedo"], b)
    if env.case["refresh"] == "binary":
        near = env.and_(env.gt(rate, a.refresh_snowfall * (1 - 1e-9)),
                        env.lt(rate, a.refresh_snowfall * (1 + 1e-9)))
        exp = env.ite(rate >= a.refresh_snowfall, a.max, aged)
        ok = env.or_(s(near), env.eqv(s(S.albedo), s(exp)))
    else:
        ok = env.eqv(s(S.albedo), s(aged + (a.max - aged) * np.minimum(1, rate / a.refresh_snowfall)))
    env.ensure("albedo == aged albedo (melting/cold timescale), refreshed by snowfall", ok)


@unit("C05", ["CryoLayerSnowModel.albedo_aging", "snow.albedo"],
      [dict(t, single=x) for t in TYPES[2:] for x in (True, False)], max_s=250, cost=3)
def cryolayer_albedo(env):
    m = cryo_model(env, METEO, snow=dict(cryolayers=dict(use_single_snow_albedo=env.case["single"])))
    a = albedo_params(env, m)
    a.firn, a.ice = 0.4, 0.2
    S = m.state.snow
    for k in (NEW, OLD):
        if not env.symbolic:
            S.layer_albedo[k] = np.clip(S.layer_albedo[k], a.min, a.max)
        env.assume(env.or_(env.isnan(S.layer_albedo[k]),
                           env.and_(env.le(a.min, S.layer_albedo[k]), env.le(S.layer_albedo[k], a.max))))
    b = snapshot(env, m)
    env.call(m.snow.albedo_aging)
    s = env.sel
    th = b["snow.thickness"]
    for k, nm in ((NEW, "new snow"), (OLD, "old snow")):
        env.ensure(f"{nm} albedo stays within the configured range",
                   env.or_(s(th[k] <= 0), env.and_(env.geq(s(S.layer_albedo[k]), a.min),
                                                   env.leq(s(S.layer_albedo[k]), a.max))))
    env.ensure("exposed firn and ice have their configured albedo",
               env.and_(env.or_(s((th[0] > 0) | (th[1] > 0) | (th[2] <= 0)), env.eqv(s(S.layer_albedo[2]), a.firn)),
                        env.or_(s((th[0] > 0) | (th[1] > 0) | (th[2] > 0) | (th[3] <= 0)),
                                env.eqv(s(S.layer_albedo[3]), a.ice))))
    top = top_value(env, b, [b["snow.layer_albedo"][NEW], b["snow.layer_albedo"][OLD], 0.0, 0.0], 0.0)
    aged, rate = expected_albedo(env, m, a, top, b)
    if env.case["refresh"] == "binary":
        exp = env.ite(rate >= a.refresh_snowfall, a.max, aged)
        near = env.and_(env.gt(rate, a.refresh_snowfall * (1 - 1e-9)),
                        env.lt(rate, a.refresh_snowfall * (1 + 1e-9)))
    else:
        exp = aged + (a.max - aged) * np.minimum(1, rate / a.refresh_snowfall)
        near = rate < 0
    env.ensure("the surface snow layer ages from its own albedo",
               env.and_(env.or_(s(near | (th[NEW] <= 0)), env.eqv(s(S.layer_albedo[NEW]), s(exp))),
                        env.or_(s(near | (th[NEW] > 0) | (th[OLD] <= 0)), env.eqv(s(S.layer_albedo[OLD]), s(exp)))))
    if not env.case["single"]:
        env.ensure("buried snow keeps its albedo",
                   env.or_(s((th[NEW] <= 0) | (th[OLD] <= 0)),
                           env.same(s(S.layer_albedo[OLD]), s(b["snow.layer_albedo"][OLD]))))


# --------------------------------------------------------------------------- compaction

COMP = [dict(L=L, method=q, bounded=f"{L} snow layers") for q in ("anderson", "empirical") for L in (1, 2)]


@unit("C06", ["snow.compaction", "snow._compaction_anderson", "snow._compaction_empirical",
              "MultilayerSnowModel.compaction"], COMP, max_s=200,
      conc_cases=[dict(L=L, method=q) for q in ("anderson", "empirical") for L in (1, 3)])
def compaction(env):
    m = ml_model(env, tmax=c.T0, **{"meteo.temp": dict(lo=220, hi=310, nan=True)})
    cc = m.config.snow.compaction
    cc.method = env.case["method"]
    cc.timescale = env.scalar("timescale", 1, 2000)
    cc.max_cold_density = env.scalar("maxcold", 100, 600)
    cc.max_melting_density = env.scalar("maxmelt", 100, 900)
    b = snapshot(env, m)
    env.call(m.snow.compaction)
    s, S = env.sel, m.state.snow
    for v in ("ice_content", "liquid_water_content"):
        env.ensure(f"{v} unchanged", env.same(s(S[v]), s(b[f"snow.{v}"])))
    act = active(b["snow.num_layers"], env.case["L"]) & (b["snow.thickness"] > 0)
    h0, h, w = b["snow.thickness"], S.thickness, we(b)
    env.ensure("thickness never grows and stays positive",
               env.or_(s(~act), env.and_(env.leq(s(h), s(h0)), env.gt(s(h), 0))))
    env.ensure("mass == density * thickness",
               env.or_(s(~act), env.eqv(s(S.density * h), s(w), scale=1.0)))
    env.ensure("empty layers untouched", env.or_(s(act), env.same(s(h), s(h0))))
    if env.case["method"] == "anderson":
        load, ta, q = 0.0, b["meteo.temp"], b["snow.liquid_water_content"]
        for k in range(env.case["L"]):
            rho = w[k] / env.ite(act[k], h0[k], 1.0)
            c6 = env.ite(env.gt(rho, 150.0), env.f("exp", -0.046 * (rho - 150.0)), 1.0)
            c4 = env.ite(q[k] > 0, 0.02, 0.01)
            overburden = 0.001 * (load + w[k] / 2.0) * env.f("exp", -0.08 * (c.T0 - ta) - 0.021 * rho)
            rate = rho * (overburden + c4 * env.f("exp", -0.04 * (c.T0 - ta)) * c6)
            rate = env.ite(env.isnan(ta), 0.0, rate)
            env.ensure("densification by the load of the snow above and metamorphism",
                       env.or_(s(~act[k]), env.eqv(s(S.density[k]), s(rho + rate * (m.timestep / 3600)), scale=1.0)))
            load = load + env.ite(act[k], w[k], 0.0)
    if env.case["method"] == "empirical":
        cold = b["snow.temp"] < c.T0
        mx = env.ite(cold, cc.max_cold_density, cc.max_melting_density)
        env.ensure("compaction stops at the maximum density",
                   env.or_(s(~act), env.leq(s(w), s(mx * h), scale=1.0), env.eqv(s(h), s(h0))))
        e = env.f("exp", -m.timestep / (cc.timescale * 3600))
        rho0 = b["snow.density"]
        env.ensure("density relaxes exponentially towards the maximum",
                   env.or_(s(~act), env.geq(s(w), s(mx * h0), scale=1.0),
                           env.eqv(s(S.density * h0), s(mx * h0 + (w - mx * h0) * e), scale=1.0)))


def compaction_any(env, method):
    """Any number of layers: the loop over the layers by its contract."""
    from . import c_multilayer as cm
    E = env
    Lm, num, ice, lwc, thick, temp, hc = cm.pack_any(env)
    dens = env.symvec("dens", Lm, 50, 917, pixel=True)
    air = env.grid("air", 220, 310, nan=True)
    dt = env.scalar("dt", 600, 86400)
    ta, ns = env.old(air)[0, 0], num[0, 0]
    missing = bool(E.isnan(ta))
    scale = env.scalar("timescale", 3600, 7.2e6)
    cold, melting = env.scalar("maxcold", 100, 600), env.scalar("maxmelt", 100, 900)

    sums = dict(load=lambda s, o, l: mass(s, o, l)) if method == "anderson" else {}

    def w(s, l):
        return s.ice_content[l] + s.liquid_water_content[l]

    def target(s, o, l, load):
        """Density after the step."""
        rho = w(s, l) / o.thickness[l]
        if method == "anderson":
            if missing:
                return rho
            c6 = E.ite(E.gt(rho, 150.0), E.f("exp", -0.046 * (rho - 150.0)), 1.0)
            c4 = E.ite(E.gt(s.liquid_water_content[l], 0), 0.02, 0.01)
            over = 0.001 * (load + w(s, l) / 2.0) * E.f("exp", -0.08 * (c.T0 - ta) - 0.021 * rho)
            return rho + rho * (over + c4 * E.f("exp", -0.04 * (c.T0 - ta)) * c6) * (dt / 3600)
        mx = E.ite(E.lt(s.temp[l], c.T0), cold, melting)
        return E.ite(E.lt(rho, mx), mx + (rho - mx) * E.f("exp", -dt / scale), rho)

    def each(s, o, l):
        h, h0, d = s.thickness[l], o.thickness[l], s.density[l]
        filled = bool(E.gt(h0, 0))
        if not filled:
            return [("empty layers untouched", E.and_(E.eqv(h, h0), E.eqv(d, o.density[l])))]
        return [("mass == density * thickness", E.eqv(d * h, w(s, l))),
                ("thickness never grows", E.and_(E.le(h, h0), E.ge(h, 0))),
                ("density as parameterised", E.eqv(d, target(s, o, l, s.above[l] if sums else None)))]

    def mass(s, o, l):
        return E.ite(E.gt(o.thickness[l], 0), w(s, l), 0.0)

    sp = env.loop_contract(f"openamundsen.modules.snow.snow:_compaction_{method}", 0, loops.LoopSpec(
        ["thickness", "density"], each,
        (lambda s, o, k, g: [("load is the mass of the layers above", E.and_(E.eqv(s.load, g.load), E.ge(s.load, 0)))])
        if sums else None, sums, dict(above=lambda s, o, l: s.load - mass(s, o, l)) if sums else None))
    h0 = thick.copy()
    if method == "anderson":
        env.call(snowmod._compaction_anderson, env.roi_idxs, dt, num, thick, ice, lwc, dens, air)
    else:
        env.call(snowmod._compaction_empirical, env.roi_idxs, dt, scale, cold, melting, num, temp, thick, ice, lwc, dens)
    l = env.index("l", Lm)
    if bool(E.lt(l, ns)):
        env.ensure("every active layer is covered", sp.visited(l))
        if bool(E.gt(h0.at(l), 0)):
            env.ensure("mass == density * thickness", E.eqv(dens.at(l) * thick.at(l), ice.at(l) + lwc.at(l)))
            env.ensure("thickness never grows", E.le(thick.at(l), h0.at(l)))
            st = sp.after
            env.ensure("densification as parameterised, by the load of the snow above", E.eqv(
                dens.at(l), target(st, sp.loop.old, l, st.above[l] if sums else None)))
    else:
        env.ensure("inactive layers unchanged", E.eqv(thick.at(l), h0.at(l)))


@unit("C06", ["snow._compaction_anderson", "snow._compaction_empirical"],
      [dict(method=q) for q in ("anderson", "empirical")], conc=False, max_s=120,
      fallback=[dict(method=q, L=1, bounded="1 snow layers") for q in ("anderson", "empirical")])
def compaction_kernel(env):
    if "L" not in env.case:
        return compaction_any(env, env.case["method"])
    return compaction(env)


@unit("C06", ["CryoLayerSnowModel.compaction", "snow._compaction_anderson"], max_s=250, cost=3)
def cryolayer_compaction(env):
    m = cryo_model(env, {"meteo.temp": dict(lo=220, hi=310, nan=True)})
    t = m.config.snow.cryolayers.transition
    t.ice = env.scalar("t_ice", 500, 917)
    b = snapshot(env, m)
    env.call(m.snow.compaction)
    s, S = env.sel, m.state.snow
    w, th = we(b), b["snow.thickness"]
    has = th > 0
    env.ensure("mass == density * thickness",
               env.or_(s(~has), env.eqv(s(S.density * S.thickness), s(w), scale=1.0)))
    env.ensure("snow and firn never get thicker or less dense",
               env.or_(s(~has[:3]), env.and_(env.leq(s(S.thickness[:3]), s(th[:3])),
                                             env.geq(s(S.density[:3]), s(b["snow.density"][:3])))))
    rate = (t.ice - 500.0) / (24 * 365 * 10) * (m.timestep / 3600)
    d = S.density[FIRN] - b["snow.density"][FIRN]
    env.ensure("firn reaches ice density after about ten years",
               env.or_(s(~has[FIRN]), env.and_(env.leq(s(d), rate, scale=1e3), env.geq(s(d), rate * 365 / 366, scale=1e3))))
    env.ensure("ice has the ice density", env.or_(s(~has[ICE]), env.eqv(s(S.density[ICE]), t.ice)))
    env.ensure("empty layers stay empty", env.or_(s(has), env.eqv(s(S.thickness), 0)))
