"""Cryolayer snow model: water mass balance (C03), state validity (C04)."""

import numpy as np
import pandas as pd

from openamundsen import constants as c
from pyvc.unit import unit

from .common import fill_state, make_model, snapshot

N = 4
NEW, OLD, FIRN, ICE = range(4)
MON = pd.date_range("2020-08-31 21:00", periods=8, freq="3h")


def cryo_model(env, specs=None, vanished=False, timestep=None, drained=False, **over):
    """
    Cryolayer model in an arbitrary admissible state: each of the four layers
    is absent (empty, no density, no albedo) or holds water with a positive
    density, thickness = mass / density.  vanished: layers may in addition have
    lost all their ice and hold only the melt water (within a time step).
    """
    over = dict(snow=dict(model="cryolayers", **over.pop("snow", {})), **over)
    if timestep is None:
        timestep = env.scalar("timestep", 600, 86400)
    m = make_model(env, timestep=timestep, **over)
    there = env.grid("present", layers=N, boolean=True)
    ice = env.grid("ice", 0, 2000, lo_open=not drained, layers=N)
    lwc = env.grid("lwc", 0, 300, layers=N)
    dens = env.grid("dens", 50, 917, layers=N)
    alb = env.grid("alb", 0, 1, layers=N)
    cc = env.grid("cc", 0, 50, layers=N)
    thick = (ice + lwc) / dens
    if drained:
        # layers may have lost their ice (or everything) within the time step, their density is stale
        thick = env.ite(env.gt(ice, 0), thick, 0.0)
    if vanished:
        gone = env.grid("gone", layers=N, boolean=True)
        thick = env.ite(gone, 0.0, thick)
        ice = env.ite(gone, 0.0, ice)
    sp = {
        "snow.ice_content": env.ite(there, ice, 0.0),
        "snow.liquid_water_content": env.ite(there, lwc, 0.0),
        "snow.density": env.ite(there, dens, np.nan),
        "snow.thickness": env.ite(there, thick, 0.0),
        "snow.layer_albedo": env.ite(there, alb, np.nan),
        "snow.cold_content": env.ite(there, cc, 0.0),
    }
    sp.update(specs or {})
    fill_state(env, m, sp)
    return m


def we(d, pre="snow."):
    return d[pre + "ice_content"] + d[pre + "liquid_water_content"]


def total(m):
    S = m.state.snow
    return (S.ice_content + S.liquid_water_content).sum(axis=0)


METEO = {
    "meteo.snowfall": dict(lo=0, hi=100, nan=True),
    "meteo.wet_bulb_temp": dict(lo=220, hi=300, nan=True),
}


@unit("C03 C04", ["CryoLayerSnowModel.accumulation", "CryoLayerSnowModel.add_snow",
              "snow.fresh_snow_density", "OpenAmundsen.global_mask"])
def accumulation(env):
    m = cryo_model(env, METEO)
    b = snapshot(env, m)
    env.call(m.snow.accumulation)
    s, S = env.sel, m.state.snow
    sf = env.ite(env.isnan(b["meteo.snowfall"]), 0.0, b["meteo.snowfall"])
    env.ensure("storage change == snowfall",
               env.eqv(s(total(m) - we(b).sum(axis=0)), s(sf), scale=10.0))
    env.ensure("snow goes to the new-snow layer as ice",
               env.eqv(s(S.ice_content[NEW] - b["snow.ice_content"][NEW]), s(sf), scale=10.0))
    env.ensure("other layers unchanged",
               env.and_(env.same(s(S.ice_content[1:]), s(b["snow.ice_content"][1:])),
                        env.same(s(S.thickness[1:]), s(b["snow.thickness"][1:]))))
    env.ensure("liquid water unchanged",
               env.same(s(S.liquid_water_content), s(b["snow.liquid_water_content"])))


@unit("C03 C04", ["CryoLayerSnowModel.accumulation", "CryoLayerSnowModel.add_snow",
              "snow.fresh_snow_density"],
      [dict(single=x) for x in (True, False)])
def accumulation_state(env):
    m = cryo_model(env, METEO, snow=dict(cryolayers=dict(use_single_snow_albedo=env.case["single"])))
    m.config.snow.albedo.max = env.scalar("amax", 0.5, 1)
    b = snapshot(env, m)
    env.call(m.snow.accumulation)
    s, S = env.sel, m.state.snow
    sf = env.ite(env.isnan(b["meteo.snowfall"]), 0.0, b["meteo.snowfall"])
    w = S.ice_content[NEW] + S.liquid_water_content[NEW]
    env.ensure("mass == density * thickness in the new-snow layer",
               env.or_(env.not_(s(w > 0)),
                       env.eqv(s(S.density[NEW] * S.thickness[NEW]), s(w), scale=1.0)))
    env.ensure("thickness > 0 iff there is snow", env.eq(s(S.thickness[NEW] > 0) * 1.0, s(w > 0) * 1.0))
    dh = S.thickness[NEW] - b["snow.thickness"][NEW]
    env.ensure("depth grows with snowfall at 50..1000 kg m-3",
               env.and_(env.geq(s(dh), s(sf) / 1000.0, scale=10.0),
                        env.leq(s(dh), s(sf) / 50.0, scale=10.0)))
    fresh = (sf > 0) & ~(b["snow.ice_content"][NEW] > 0)
    old = b["snow.thickness"][OLD] > 0
    exp = env.ite(fresh, m.config.snow.albedo.max, b["snow.layer_albedo"][NEW])
    if env.case["single"]:
        exp = env.ite(fresh & old, b["snow.layer_albedo"][OLD], exp)
    env.ensure("albedo of a fresh layer starts at the maximum (or continues, single-albedo mode)",
               env.eqv(s(S.layer_albedo[NEW]), s(exp)))
    env.ensure("snow albedo follows a fresh layer",
               env.eqv(s(S.albedo), s(env.ite(fresh, exp, b["snow.albedo"]))))


@unit("C03 C04", ["CryoLayerSnowModel.melt"])
def melt(env):
    m = cryo_model(env, {"snow.melt": dict(lo=-1, hi=3000, nan=True, gen=lambda r, n: r.uniform(0, 300, n))})
    b = snapshot(env, m)
    env.call(m.snow.melt)
    s, S = env.sel, m.state.snow
    i0 = b["snow.ice_content"]
    env.ensure("melt turns ice into liquid water of the same layer",
               env.eqv(s(S.ice_content + S.liquid_water_content), s(we(b)), scale=1.0))
    mm = env.ite(env.isnan(b["snow.melt"]), 0.0, b["snow.melt"])
    env.ensure("ice lost == melt, at most what is there",
               env.eqv(s(i0.sum(axis=0) - S.ice_content.sum(axis=0)),
                       s(np.minimum(np.maximum(mm, 0), i0.sum(axis=0))), scale=1.0))
    env.ensure("reported melt unchanged", env.same(s(S.melt), s(b["snow.melt"])))


@unit("C03 C04", ["CryoLayerSnowModel.melt"])
def melt_state(env):
    m = cryo_model(env, {"snow.melt": dict(lo=-1, hi=3000, nan=True, gen=lambda r, n: r.uniform(0, 300, n))})
    b = snapshot(env, m)
    env.call(m.snow.melt)
    s, S = env.sel, m.state.snow
    i0, h0 = b["snow.ice_content"], b["snow.thickness"]
    env.ensure("0 <= ice <= old ice", env.and_(env.geq(s(S.ice_content), 0), env.leq(s(S.ice_content), s(i0))))
    env.ensure("thickness shrinks in proportion to the ice",
               env.eqv(s(S.thickness * i0), s(h0 * S.ice_content), scale=1.0))
    env.ensure("melt proceeds from the top: a layer melts only when all above are gone",
               env.and_(*[env.or_(env.eqv(s(S.ice_content[k]), s(i0[k])), env.leq(s(S.ice_content[j]), 0))
                          for k in range(1, N) for j in range(k)]))


SUB = {
    "surface.moisture_flux": dict(lo=-1e-2, hi=1e-2, nan=True, gen=lambda r, n: r.uniform(-1e-4, 1e-4, n)),
    "meteo.wet_bulb_temp": dict(lo=220, hi=300, nan=True),
}


@unit("C03 C04", ["CryoLayerSnowModel.sublimation", "CryoLayerSnowModel.add_snow"], max_s=250, cost=3)
def sublimation(env):
    m = cryo_model(env, SUB)
    b = snapshot(env, m)
    env.call(m.snow.sublimation)
    s, S = env.sel, m.state.snow
    env.ensure("storage change == -reported sublimation",
               env.eqv(s(we(b).sum(axis=0) - total(m)), s(S.sublimation), scale=10.0))
    tot = b["snow.ice_content"].sum(axis=0)
    pot = -b["surface.moisture_flux"] * m.timestep
    pot = env.ite(env.isnan(pot), 0.0, pot)
    env.ensure("reported sublimation == min(potential, available ice); 0 on snow-free pixels",
               env.eqv(s(S.sublimation), s(env.ite(tot > 0, np.minimum(pot, tot), 0.0)), scale=10.0))
    env.ensure("liquid water unchanged",
               env.same(s(S.liquid_water_content), s(b["snow.liquid_water_content"])))
    env.ensure("moisture flux not modified",
               env.same(s(m.state.surface.moisture_flux), s(b["surface.moisture_flux"])))


@unit("C03 C04", ["CryoLayerSnowModel.sublimation"], max_s=250, cost=3)
def sublimation_state(env):
    m = cryo_model(env, SUB)
    b = snapshot(env, m)
    env.call(m.snow.sublimation)
    s, S = env.sel, m.state.snow
    env.ensure("ice >= 0", env.geq(s(S.ice_content), 0))
    env.ensure("thickness >= 0", env.geq(s(S.thickness), 0))
    losing = s(S.sublimation) >= 0
    env.ensure("where snow is lost thickness shrinks in proportion to the ice",
               env.or_(env.not_(losing),
                       env.eqv(s(S.thickness * b["snow.ice_content"]),
                               s(b["snow.thickness"] * S.ice_content), scale=1.0)))
    env.ensure("frost grows the new-snow layer only",
               env.or_(losing, env.and_(
                   env.same(s(S.ice_content[1:]), s(b["snow.ice_content"][1:])).all(axis=0)
                   if not env.symbolic else env.and_(*[env.eq(S.ice_content[k], b["snow.ice_content"][k]) for k in (1, 2, 3)]),
                   env.geq(s(S.thickness[NEW]), s(b["snow.thickness"][NEW])))))


LWC = [dict(method=q) for q in ("pore_volume_fraction", "mass_fraction")]


def runoff_model(env):
    m = cryo_model(env, {"meteo.rainfall": dict(lo=0, hi=100, nan=True)}, vanished=True,
                   snow=dict(liquid_water_content=dict(method=env.case["method"])))
    m.config.snow.liquid_water_content.max = env.scalar("max_lwc", 0, 0.3)
    S = m.state.snow
    if not env.symbolic:  # the generator stays within the admissible densities
        S.ice_content[:] = np.minimum(S.ice_content, c.ICE_DENSITY * S.thickness)
    env.assume(env.le(S.ice_content, c.ICE_DENSITY * S.thickness))
    return m


@unit("C03 C04", ["CryoLayerSnowModel.runoff", "snow.max_liquid_water_content"], LWC, max_s=250, cost=4)
def runoff(env):
    m = runoff_model(env)
    b = snapshot(env, m)
    env.call(m.snow.runoff)
    s, S = env.sel, m.state.snow
    rn = env.ite(env.isnan(b["meteo.rainfall"]), 0.0, b["meteo.rainfall"])
    env.ensure("storage change == rain - reported runoff",
               env.eqv(s(total(m) - we(b).sum(axis=0)), s(rn - S.runoff), scale=10.0))
    env.ensure("ice unchanged", env.same(s(S.ice_content), s(b["snow.ice_content"])))
    env.ensure("rainfall not modified", env.same(s(m.state.meteo.rainfall), s(b["meteo.rainfall"])))
    env.ensure("runoff >= 0", env.geq(s(S.runoff), 0))


@unit("C03 C04", ["CryoLayerSnowModel.runoff", "snow.max_liquid_water_content"], LWC, max_s=250, cost=4)
def runoff_state(env):
    m = runoff_model(env)
    frac = m.config.snow.liquid_water_content.max
    b = snapshot(env, m)
    env.call(m.snow.runoff)
    s, S = env.sel, m.state.snow
    env.ensure("liquid water >= 0", env.geq(s(S.liquid_water_content), 0))
    if env.case["method"] == "mass_fraction":
        cap = frac * b["snow.ice_content"]
    else:
        cap = frac * c.WATER_DENSITY * (b["snow.thickness"] - b["snow.ice_content"] / c.ICE_DENSITY)
    env.ensure("snow layers hold at most their capacity",
               env.leq(s(S.liquid_water_content[:2]), s(cap[:2]), scale=10.0))
    env.ensure("firn and ice hold no liquid water", env.leq(s(S.liquid_water_content[2:]), 0, scale=1.0))
    env.ensure("layers without ice are drained",
               env.or_(s(b["snow.ice_content"] > 0), env.leq(s(S.liquid_water_content), 0, scale=1.0)))


TRANS = [dict(month=q) for q in ("same", "firn", "first")]


def set_date(env, m):
    """Date context: no month change / first step of the firn month / first step of the run."""
    m.dates = MON
    m.config.snow.cryolayers.transition.firn = 9
    m.date_idx = {"same": 0, "firn": 1, "first": 0}[env.case["month"]]
    if env.case["month"] == "same":
        m.date_idx = 2  # September, previous step also September
    if env.case["month"] == "first":
        m.dates = MON[1:]
    m.date = m.dates[m.date_idx]
    return env.case["month"] == "firn"


def drained_model(env):
    m = cryo_model(env, drained=True)
    t = m.config.snow.cryolayers.transition
    t.old_snow = env.scalar("t_old", 100, 400)
    t.ice = env.scalar("t_ice", 500, 917)
    return m


@unit("C03 C04", ["CryoLayerSnowModel.update_layers", "CryoLayerSnowModel.layer_transition",
              "CryoLayerSnowModel.reset_layer"], TRANS, max_s=250, cost=5)
def update_layers(env):
    m = drained_model(env)
    set_date(env, m)
    b = snapshot(env, m)
    env.call(m.snow.update_layers)
    s, S = env.sel, m.state.snow
    for v in ("ice_content", "liquid_water_content"):
        env.ensure(f"total {v} conserved",
                   env.eqv(s(S[v].sum(axis=0)), s(b[f"snow.{v}"].sum(axis=0)), scale=1.0))
    cc = env.ite(we(b) > 0, b["snow.cold_content"], 0.0)
    env.ensure("cold content moves with the snow", env.eqv(s(S.cold_content.sum(axis=0)), s(cc.sum(axis=0)), scale=1.0))


@unit("C03 C04", ["CryoLayerSnowModel.update_layers", "CryoLayerSnowModel.layer_transition",
              "CryoLayerSnowModel.reset_layer"], TRANS, max_s=250, cost=5)
def update_layers_state(env):
    m = drained_model(env)
    firn = set_date(env, m)
    b = snapshot(env, m)
    env.call(m.snow.update_layers)
    s, S = env.sel, m.state.snow
    t = m.config.snow.cryolayers.transition
    w = S.ice_content + S.liquid_water_content
    env.ensure("contents >= 0", env.and_(env.geq(s(S.ice_content), 0), env.geq(s(S.liquid_water_content), 0)))
    env.ensure("a layer has thickness iff it holds water", env.eq(s(S.thickness > 0) * 1.0, s(w > 0) * 1.0))
    env.ensure("mass == density * thickness",
               env.or_(s(w <= 0), env.eqv(s(S.density * S.thickness), s(w), scale=1.0)))
    env.ensure("empty layers carry no density, albedo or cold content",
               env.or_(s(w > 0), env.and_(env.isnan(s(S.density)), env.isnan(s(S.layer_albedo)),
                                          env.eqv(s(S.cold_content), 0))))
    env.ensure("layers with snow have an albedo in [0, 1]",
               env.or_(s(w <= 0), env.and_(env.geq(s(S.layer_albedo), 0), env.leq(s(S.layer_albedo), 1))))
    env.ensure("new snow is below the old-snow density",
               env.or_(s(w[NEW] <= 0), env.lt(s(S.density[NEW]), t.old_snow)))
    env.ensure("firn is below the ice density",
               env.or_(s(w[FIRN] <= 0), env.lt(s(S.density[FIRN]), t.ice)))
    if firn:
        env.ensure("at the turn of the firn month old snow becomes firn (and dense firn ice)",
                   env.eqv(s(w[OLD]), 0))
    else:
        env.ensure("no firn forms otherwise",
                   env.leq(s(w[FIRN]), s(we(b)[FIRN]), scale=1.0))
        env.ensure("old snow only gains", env.geq(s(w[OLD]), s(we(b)[OLD]), scale=1.0))
    env.ensure("ice only gains", env.geq(s(w[ICE]), s(we(b)[ICE]), scale=1.0))
    env.ensure("depth == total thickness", env.eqv(s(S.depth), s(S.thickness.sum(axis=0))))
    n = sum([(S.thickness[k] > 0) * 1.0 for k in range(N)])
    env.ensure("number of layers == layers with snow", env.eqv(s(S.num_layers * 1.0), s(n)))


@unit("C03 C04", ["CryoLayerSnowModel.temperature_index"],
      [dict(method=q) for q in ("temperature_index", "enhanced_temperature_index")])
def temperature_index(env):
    m = cryo_model(env, {
        "meteo.temp": dict(lo=220, hi=310, nan=True, gen=[c.T0]),
        "surface.albedo": dict(lo=0, hi=1), "meteo.sw_in": dict(lo=0, hi=1400),
    }, snow=dict(melt=dict(method=env.case["method"], degree_day_factor=4.0, threshold_temp=c.T0,
                           albedo_factor=0.1)))
    mc = m.config.snow.melt
    mc.degree_day_factor = env.scalar("ddf", 0, 20)
    mc.threshold_temp = env.scalar("tt", 270, 276, gen=[c.T0])
    mc.albedo_factor = env.scalar("af", 0, 1)
    b = snapshot(env, m)
    env.assume(env.or_(env.not_(env.isnan(b["meteo.temp"])), env.not_(env.roi)))
    env.call(m.snow.temperature_index)
    s, S = env.sel, m.state.snow
    tot = b["snow.ice_content"].sum(axis=0)
    dd = (b["meteo.temp"] - mc.threshold_temp) * m.timestep / 86400
    if env.case["method"] == "temperature_index":
        exp = mc.degree_day_factor * np.maximum(dd, 0)
    else:
        exp = mc.degree_day_factor * dd + mc.albedo_factor * (1 - b["surface.albedo"]) * b["meteo.sw_in"] * (
            m.timestep / 86400)
    snowy = b["snow.thickness"].sum(axis=0) > 0
    exp = env.ite(snowy & (dd > 0), np.minimum(exp, tot), 0.0)
    env.ensure("melt == degree-day melt, limited by the ice present, 0 without snow or below the threshold",
               env.eqv(s(S.melt), s(exp), scale=1.0))


@unit("C03 C04", ["CryoLayerSnowModel.compaction"])
def compaction_mass(env):
    m = cryo_model(env, {"meteo.temp": dict(lo=220, hi=310, nan=True)})
    b = snapshot(env, m)
    env.call(m.snow.compaction)
    s, S = env.sel, m.state.snow
    for v in ("ice_content", "liquid_water_content"):
        env.ensure(f"{v} unchanged", env.same(s(S[v]), s(b[f"snow.{v}"])))


@unit("C03 C04", ["CryoLayerSnowModel.update_properties", "snow.snow_properties"])
def properties(env):
    m = cryo_model(env)
    m.config.snow.snow_cover_fraction_depth_scale = env.choice("scale", [0, 0.1, 2.0])
    b = snapshot(env, m)
    env.call(m.snow.update_properties)
    s, S = env.sel, m.state.snow
    env.ensure("SWE == total water in all layers", env.eqv(s(S.swe), s(we(b).sum(axis=0))))
    env.ensure("depth == total thickness", env.eqv(s(S.depth), s(b["snow.thickness"].sum(axis=0))))
    env.ensure("snow cover fraction in [0, 1], 0 iff snow-free",
               env.and_(env.geq(s(S.area_fraction), 0), env.leq(s(S.area_fraction), 1),
                        env.eq(s(S.area_fraction > 0) * 1.0, s(b["snow.thickness"].sum(axis=0) > 0) * 1.0)))
    for v in ("ice_content", "liquid_water_content", "thickness"):
        env.ensure(f"{v} unchanged", env.same(s(S[v]), s(b[f"snow.{v}"])))


def top_value(env, b, vals, default):
    exp = default
    for k in reversed(range(N)):
        exp = env.ite(b["snow.thickness"][k] > 0, vals[k], exp)
    return exp


@unit("C03 C04", ["CryoLayerSnowModel.update_properties"])
def properties_state(env):
    m = cryo_model(env)
    b = snapshot(env, m)
    env.call(m.snow.update_properties)
    s, S = env.sel, m.state.snow
    env.ensure("albedo is that of the topmost layer, undefined without snow",
               env.eqv(s(S.albedo), s(top_value(env, b, b["snow.layer_albedo"], np.nan))))
    env.ensure("mass == density * thickness",
               env.or_(s(S.thickness <= 0), env.eqv(s(S.density * S.thickness), s(we(b)), scale=1.0)))


@unit("C03 C04", ["CryoLayerSnowModel.update_surface_layer_type"])
def surface_layer_type(env):
    m = cryo_model(env)
    b = snapshot(env, m)
    env.call(m.snow.update_surface_layer_type)
    s = env.sel
    env.ensure("surface layer type is the topmost layer with snow, -1 if none",
               env.eqv(s(m.state.surface.layer_type * 1.0), s(top_value(env, b, [0.0, 1.0, 2.0, 3.0], -1.0))))


@unit("C03 C04", ["CryoLayerSnowModel.initialize"])
def initialize(env):
    m = cryo_model(env)
    env.call(m.snow.initialize)
    s, S = env.sel, m.state.snow
    for v in ("swe", "depth", "num_layers", "thickness", "ice_content", "liquid_water_content", "cold_content"):
        env.ensure(f"{v} starts at 0", env.eqv(s(S[v] * 1.0), 0))
    for v in ("density", "layer_albedo"):
        env.ensure(f"{v} starts undefined", env.isnan(s(S[v])))
