"""
Multilayer snow model: water mass balance (C01), state validity (C02).

Kernels are called directly; methods through a real model object.
"""

import numpy as np

from openamundsen import constants as c
from openamundsen.modules.snow import multilayermodel as ml
from openamundsen.modules.snow import snow as snowmod
from pyvc import loops
from pyvc.unit import unit

from .common import fill_state, make_model, snapshot

LAYERS = [dict(L=L, bounded=f"{L} snow layers") for L in (1, 2, 3)]
KER = dict(conc_cases=[dict(L=L) for L in (1, 2, 3, 5)])


def active(num, L):
    return np.arange(L)[:, None, None] < num


def pack(env, L, tmax=None, empty_ok=True):
    """
    Arbitrary admissible snowpack: `num` active layers, non-negative contents,
    inactive layers empty.  Between operations upper layers may have vanished;
    below a layer that still holds ice all active layers hold ice.
    """
    num = env.grid("num", 0, L, integer=True)
    ice = env.grid("ice", 0, 2000, layers=L)
    lwc = env.grid("lwc", 0, 300, layers=L)
    thick = env.grid("thick", 0, 20, layers=L)
    temp = env.grid("temp", 150, tmax or c.T0, layers=L, gen=[c.T0, c.T0 - 1])
    hc = env.grid("hc", 1, 5e6, layers=L)
    if env.symbolic:
        act = active(num, L)
        for k in range(L):
            if not bool(act[k, 0, 0]):
                for a in (ice, lwc, thick):
                    env.assume(env.eq(a[k], 0))
            else:
                env.assume(env.eq(ice[k] > 0, thick[k] > 0))
                if k + 1 < L and bool(act[k + 1, 0, 0]):
                    env.assume(env.implies(env.gt(ice[k], 0), env.gt(ice[k + 1], 0)))
    else:
        act = active(num, L)
        for a in (ice, lwc, thick):
            a[~act] = 0.0
        # vanished layers only at the top
        gone = np.where(env.rng.random(env.shape) < 0.2, env.rng.integers(0, L + 1, env.shape), 0)
        top = np.arange(L)[:, None, None] < gone
        ice[act & (ice <= 1e-6)] = 1.0
        thick[act] = ice[act] / env.rng.uniform(50, 900, int(act.sum()))
        ice[top] = 0.0
        thick[top] = 0.0
    return num, ice, lwc, thick, temp, hc


# --------------------------------------------------------------------------- kernels: any number of layers

ANY = [dict(L="any")]
UNB = dict(fallback=LAYERS, **KER)


def pack_any(env, tmax=None):
    """The snowpack of `pack`, with an arbitrary number of layers."""
    Lm = env.count("layers", 1)
    num = env.grid("num", 0, None, integer=True)
    env.assume(env.le(num, Lm))
    ns = num[0, 0]

    def facts(l, v):
        q, h = lwc.at(l), thick.at(l)
        return env.ite(env.lt(l, ns),
                       env.and_(env.implies(env.gt(v, 0), env.gt(h, 0)), env.implies(env.gt(h, 0), env.gt(v, 0)),
                                env.implies(env.and_(env.lt(l + 1, ns), env.gt(v, 0)), env.gt(ice.at(l + 1), 0))),
                       env.and_(env.eqv(v, 0), env.eqv(q, 0), env.eqv(h, 0)))

    lwc = env.symvec("lwc", Lm, 0, 300, pixel=True)
    thick = env.symvec("thick", Lm, 0, 20, pixel=True)
    ice = env.symvec("ice", Lm, 0, 2000, pixel=True, facts=facts)
    temp = env.symvec("temp", Lm, 150, tmax or c.T0, pixel=True)
    hc = env.symvec("hc", Lm, 1, 5e6, pixel=True)
    return Lm, num, ice, lwc, thick, temp, hc


def melt_any(env, what):
    nan = what != "amount"
    Lm, num, ice, lwc, thick, temp, hc = pack_any(env, tmax=None if what == "amount" else c.T0 + 5)
    m = env.grid("melt", 0 if what == "amount" else -10, 500, nan=nan)
    m0 = env.old(m)[0, 0]
    E = env

    def each(s, o, l):
        i, h, q = s.ice_content[l], s.thickness[l], s.liquid_water_content[l]
        i0, h0 = o.ice_content[l], o.thickness[l]
        r = [("ice turns into liquid water", E.eqv(i + q, i0 + o.liquid_water_content[l])),
             ("0 <= ice <= ice before", E.and_(E.ge(i, 0), E.le(i, i0)))]
        if what == "state":
            r += [("thickness follows the ice", E.and_(E.eqv(h * i0, h0 * i), E.ge(h, 0))),
                  ("temperature", E.eqv(s.temp[l], E.ite(E.lt(o.temp[l], c.T0), o.temp[l], c.T0)))]
        if what == "amount":
            r += [("while melt energy is left no ice is", E.or_(E.le(s.ice_content_change, 0), E.eqv(i, 0)))]
        return r

    def whole(s, o, k, g):
        r = [("melt is the ice lost", E.eqv(s.actual_melt, g.lost)), ("melt >= 0", E.ge(s.actual_melt, 0))]
        if what == "amount":
            r += [("potential melt is used up", E.and_(E.eqv(s.ice_content_change + s.actual_melt, m0), E.ge(s.ice_content_change, 0))),
                  ("ice left only without melt energy left", E.or_(E.eqv(s.ice_content_change, 0), E.eqv(g.left, 0))),
                  ("ice left >= 0", E.ge(g.left, 0))]
        return r

    sp = env.loop_contract("openamundsen.modules.snow.multilayermodel:_melt", 0, loops.LoopSpec(
        ["temp", "thickness", "ice_content", "liquid_water_content"], each, whole,
        dict(lost=lambda s, o, l: o.ice_content[l] - s.ice_content[l], left=lambda s, o, l: s.ice_content[l])))
    i0, q0, h0, t0 = ice.copy(), lwc.copy(), thick.copy(), temp.copy()
    env.call(ml._melt, roi_idxs=env.roi_idxs, timestep=3600.0, num_layers=num, melt=m, thickness=thick,
             temp=temp, ice_content=ice, liquid_water_content=lwc, heat_cap=hc)
    g, mm, ns = sp.ghost, m[0, 0], num[0, 0]
    l = env.index("l", Lm)
    act = bool(env.lt(l, ns))
    if act:
        env.ensure("every active layer is covered", sp.visited(l))
    if what == "balance":
        env.ensure("melt moves ice to liquid water layer by layer", E.eqv(ice.at(l) + lwc.at(l), i0.at(l) + q0.at(l)))
        env.ensure("reported melt is the ice lost", E.eqv(mm, g.lost))
        if not act:
            env.ensure("no other layer loses ice", E.eqv(ice.at(l), i0.at(l)))
    elif what == "state":
        env.ensure("ice >= 0", E.ge(ice.at(l), 0))
        env.ensure("ice does not grow", E.le(ice.at(l), i0.at(l)))
        env.ensure("liquid water >= 0", E.ge(lwc.at(l), 0))
        env.ensure("melt >= 0", E.ge(mm, 0))
        env.ensure("thickness shrinks with the ice", E.eqv(thick.at(l) * i0.at(l), h0.at(l) * ice.at(l)))
        env.ensure("thickness >= 0", E.ge(thick.at(l), 0))
        env.ensure("temperature = min(old, T0) in active layers",
                   E.eqv(temp.at(l), E.ite(E.lt(t0.at(l), c.T0), t0.at(l), c.T0) if act else t0.at(l)))
    else:
        tot = g.lost + g.left  # the ice of all layers before
        env.ensure("melt == min(potential, total ice)", E.eqv(mm, E.ite(E.lt(m0, tot), m0, tot)))


def sublimation_any(env, what):
    Lm, num, ice, lwc, thick, temp, hc = pack_any(env)
    sub = env.grid("sub", -10, 500)
    s0, ns = env.old(sub)[0, 0], num[0, 0]
    E = env

    def each(s, o, l):
        i, h, i0, h0 = s.ice_content[l], s.thickness[l], o.ice_content[l], o.thickness[l]
        r = [("0 <= ice <= ice before", E.and_(E.ge(i, 0), E.le(i, i0)))]
        if what == "state":
            r += [("thickness follows the ice", E.and_(E.eqv(h * i0, h0 * i), E.ge(h, 0)))]
        return r

    def whole(s, o, k, g):
        ch = s.ice_content_change
        return [("sublimation is used up", E.and_(E.ge(ch, 0), E.eqv(ch + g.lost, E.ite(E.gt(s0, 0), s0, 0.0)))),
                ("ice left only without sublimation left", E.and_(E.ge(g.left, 0), E.or_(E.eqv(ch, 0), E.eqv(g.left, 0)))),
                ("the next layer holds ice, or sublimation is left", E.or_(E.gt(ch, 0), E.ge(k, ns), E.gt(o.ice_content[k], 0)))]

    sp = env.loop_contract("openamundsen.modules.snow.multilayermodel:_sublimation", 0, loops.LoopSpec(
        ["ice_content", "thickness"], each, whole,
        dict(lost=lambda s, o, l: o.ice_content[l] - s.ice_content[l], left=lambda s, o, l: s.ice_content[l])))
    i0, h0 = ice.copy(), thick.copy()
    env.call(ml._sublimation, roi_idxs=env.roi_idxs, timestep=3600.0, num_layers=num, ice_content=ice,
             thickness=thick, sublimation=sub)
    l = env.index("l", Lm)
    act = bool(env.lt(l, ns))
    if bool(env.gt(s0, 0)):
        g = sp.ghost
        if act:
            env.ensure("every active layer is covered", sp.visited(l))
        if what == "balance":
            env.ensure("ice lost == positive sublimation (of a snowpack that holds as much)",
                       E.or_(E.gt(s0, g.lost + g.left), E.eqv(g.lost, s0)))
    if what == "balance":
        if not act or not bool(env.gt(s0, 0)):
            env.ensure("no other layer loses ice", E.eqv(ice.at(l), i0.at(l)))
        env.ensure("reported sublimation unchanged", E.eqv(sub[0, 0], s0))
    else:
        env.ensure("ice >= 0", E.ge(ice.at(l), 0))
        env.ensure("ice does not grow", E.le(ice.at(l), i0.at(l)))
        env.ensure("thickness >= 0", E.ge(thick.at(l), 0))
        env.ensure("thickness shrinks with the ice", E.eqv(thick.at(l) * i0.at(l), h0.at(l) * ice.at(l)))


def runoff_any(env, what):
    Lm, num, ice, lwc, thick, temp, hc = pack_any(env)
    cap = env.symvec("cap", Lm, 0, 50, pixel=True)
    rain = env.grid("rain", 0, 100, nan=True)
    refr, ro = env.grid("refr"), env.grid("runoff")
    r0, ns = env.old(rain)[0, 0], num[0, 0]
    rn = 0.0 if bool(env.isnan(r0)) else r0
    E = env

    def each(s, o, l):
        i, q, t = s.ice_content[l], s.liquid_water_content[l], s.temp[l]
        i0, t0 = o.ice_content[l], o.temp[l]
        if what == "balance":
            return []
        return [("ice does not shrink", E.ge(i, i0)),
                ("liquid water within capacity", E.and_(E.ge(q, 0), E.le(q, s.max_liquid_water_content[l]))),
                ("temperature", E.and_(E.ge(t, t0), E.le(t, c.T0))),
                ("latent heat", E.eqv(s.heat_cap[l] * (t - t0), c.LATENT_HEAT_OF_FUSION * (i - i0)))]

    def whole(s, o, k, g):
        r = [("water balance", E.eqv(s.runoff + g.stored, rn)), ("refreezing is the ice gained", E.eqv(s.refreezing, g.ice)),
             ("runoff >= 0", E.ge(s.runoff, 0)), ("refreezing >= 0", E.ge(s.refreezing, 0))]
        return r

    sp = env.loop_contract("openamundsen.modules.snow.multilayermodel:_runoff", 0, loops.LoopSpec(
        ["liquid_water_content", "ice_content", "temp", "runoff", "refreezing"], each, whole,
        dict(stored=lambda s, o, l: s.ice_content[l] + s.liquid_water_content[l] - o.ice_content[l] - o.liquid_water_content[l],
             ice=lambda s, o, l: s.ice_content[l] - o.ice_content[l])))
    i0, q0, t0, h0 = ice.copy(), lwc.copy(), temp.copy(), thick.copy()
    env.call(ml._runoff, roi_idxs=env.roi_idxs, max_liquid_water_content=cap, rainfall=rain, num_layers=num,
             thickness=thick, temp=temp, ice_content=ice, liquid_water_content=lwc, refreezing=refr,
             runoff=ro, heat_cap=hc)
    g = sp.ghost
    l = env.index("l", Lm)
    act = bool(env.lt(l, ns))
    if act:
        env.ensure("every active layer is covered", sp.visited(l))
    else:
        env.ensure("inactive layers unchanged", E.and_(E.eqv(lwc.at(l), q0.at(l)), E.eqv(ice.at(l), i0.at(l))))
    if what == "balance":
        env.ensure("storage change == rain - runoff", E.eqv(g.stored, rn - ro[0, 0]))
        env.ensure("reported refreezing is the ice gained", E.eqv(refr[0, 0], g.ice))
        env.ensure("rainfall not modified", E.same(rain[0, 0], r0))
    else:
        env.ensure("runoff >= 0", E.ge(ro[0, 0], 0))
        env.ensure("refreezing >= 0", E.ge(refr[0, 0], 0))
        env.ensure("ice does not shrink", E.ge(ice.at(l), i0.at(l)))
        env.ensure("liquid water within [0, capacity]",
                   E.and_(E.ge(lwc.at(l), 0), E.le(lwc.at(l), cap.at(l)) if act else True))
        env.ensure("temperature rises, never above T0", E.and_(E.ge(temp.at(l), t0.at(l)), E.le(temp.at(l), c.T0)))
        env.ensure("latent heat of refreezing warms the layer",
                   E.eqv(hc.at(l) * (temp.at(l) - t0.at(l)), c.LATENT_HEAT_OF_FUSION * (ice.at(l) - i0.at(l))))
        env.ensure("thickness unchanged", E.eqv(thick.at(l), h0.at(l)))


# --------------------------------------------------------------------------- kernels


@unit("C01", ["multilayermodel._melt"], ANY, **UNB)
def melt_kernel(env):
    if env.case["L"] == "any":
        return melt_any(env, "balance")
    L = env.case["L"]
    num, ice, lwc, thick, temp, hc = pack(env, L, tmax=c.T0 + 5)
    m = env.grid("melt", -10, 500, nan=True)
    i0, l0, m0, t0 = env.old(ice), env.old(lwc), env.old(m), env.old(temp)
    env.call(ml._melt, roi_idxs=env.roi_idxs, timestep=3600.0, num_layers=num, melt=m, thickness=thick,
             temp=temp, ice_content=ice, liquid_water_content=lwc, heat_cap=hc)
    s = env.sel
    env.ensure("melt moves ice to liquid water layer by layer", env.eqv(s(ice + lwc), s(i0 + l0)))
    env.ensure("reported melt is the ice lost", env.eqv(s(m), s(i0.sum(axis=0) - ice.sum(axis=0))))


@unit("C02", ["multilayermodel._melt"], ANY, **UNB)
def melt_state(env):
    if env.case["L"] == "any":
        return melt_any(env, "state")
    L = env.case["L"]
    num, ice, lwc, thick, temp, hc = pack(env, L, tmax=c.T0 + 5)
    m = env.grid("melt", -10, 500, nan=True)
    i0, h0, t0, m0 = env.old(ice), env.old(thick), env.old(temp), env.old(m)
    env.call(ml._melt, roi_idxs=env.roi_idxs, timestep=3600.0, num_layers=num, melt=m, thickness=thick,
             temp=temp, ice_content=ice, liquid_water_content=lwc, heat_cap=hc)
    s = env.sel
    env.ensure("ice >= 0", env.geq(s(ice), 0))
    env.ensure("ice does not grow", env.leq(s(ice), s(i0)))
    env.ensure("liquid water >= 0", env.geq(s(lwc), 0))
    env.ensure("melt >= 0", env.geq(s(m), 0))
    env.ensure("thickness shrinks with the ice: h * ice0 == h0 * ice",
               env.eqv(s(thick * i0), s(h0 * ice), scale=1.0))
    env.ensure("thickness >= 0", env.geq(s(thick), 0))
    env.ensure("temperature = min(old, T0) in active layers",
               env.eqv(s(temp), s(env.ite(active(num, L), np.minimum(t0, c.T0), t0))))


@unit("C02", ["multilayermodel._melt"], ANY, **UNB)
def melt_amount(env):
    """For layers at or below 0 degC the actual melt is min(potential melt, total ice)."""
    if env.case["L"] == "any":
        return melt_any(env, "amount")
    L = env.case["L"]
    num, ice, lwc, thick, temp, hc = pack(env, L)
    m = env.grid("melt", 0, 500)
    i0, m0 = env.old(ice), env.old(m)
    env.call(ml._melt, roi_idxs=env.roi_idxs, timestep=3600.0, num_layers=num, melt=m, thickness=thick,
             temp=temp, ice_content=ice, liquid_water_content=lwc, heat_cap=hc)
    s = env.sel
    env.ensure("melt == min(potential, total ice)",
               env.eqv(s(m), s(np.minimum(m0, i0.sum(axis=0)))))


@unit("C01", ["multilayermodel._sublimation"], ANY, **UNB)
def sublimation_kernel(env):
    if env.case["L"] == "any":
        return sublimation_any(env, "balance")
    L = env.case["L"]
    num, ice, lwc, thick, temp, hc = pack(env, L)
    sub = env.grid("sub", -10, 500)
    i0, s0, l0 = env.old(ice), env.old(sub), env.old(lwc)
    env.assume(env.or_(env.le(sub, ice.sum(axis=0)), env.not_(env.roi)))
    env.call(ml._sublimation, roi_idxs=env.roi_idxs, timestep=3600.0, num_layers=num, ice_content=ice,
             thickness=thick, sublimation=sub)
    s = env.sel
    env.ensure("ice lost == positive sublimation",
               env.eqv(s(i0.sum(axis=0) - ice.sum(axis=0)), s(np.maximum(s0, 0)), scale=1.0))
    env.ensure("reported sublimation unchanged", env.same(s(sub), s(s0)))


@unit("C02", ["multilayermodel._sublimation"], ANY, **UNB)
def sublimation_state(env):
    if env.case["L"] == "any":
        return sublimation_any(env, "state")
    L = env.case["L"]
    num, ice, lwc, thick, temp, hc = pack(env, L)
    sub = env.grid("sub", -10, 500)
    i0, h0 = env.old(ice), env.old(thick)
    env.call(ml._sublimation, roi_idxs=env.roi_idxs, timestep=3600.0, num_layers=num, ice_content=ice,
             thickness=thick, sublimation=sub)
    s = env.sel
    env.ensure("ice >= 0", env.geq(s(ice), 0))
    env.ensure("ice does not grow", env.leq(s(ice), s(i0)))
    env.ensure("thickness >= 0", env.geq(s(thick), 0))
    env.ensure("thickness shrinks with the ice", env.eqv(s(thick * i0), s(h0 * ice), scale=1.0))


def runoff_inputs(env):
    L = env.case["L"]
    num, ice, lwc, thick, temp, hc = pack(env, L)
    cap = env.grid("cap", 0, 50, layers=L)
    rain = env.grid("rain", 0, 100, nan=True)
    refr = env.grid("refr", nan=True)
    ro = env.grid("runoff", nan=True)
    return L, num, ice, lwc, thick, temp, hc, cap, rain, refr, ro


@unit("C01", ["multilayermodel._runoff"], ANY, **UNB)
def runoff_kernel(env):
    if env.case["L"] == "any":
        return runoff_any(env, "balance")
    L, num, ice, lwc, thick, temp, hc, cap, rain, refr, ro = runoff_inputs(env)
    i0, l0, r0 = env.old(ice), env.old(lwc), env.old(rain)
    env.call(ml._runoff, roi_idxs=env.roi_idxs, max_liquid_water_content=cap, rainfall=rain, num_layers=num,
             thickness=thick, temp=temp, ice_content=ice, liquid_water_content=lwc, refreezing=refr,
             runoff=ro, heat_cap=hc)
    s = env.sel
    rn = env.ite(env.isnan(r0), 0.0, r0)
    env.ensure("storage change == rain - runoff",
               env.eqv(s((ice + lwc).sum(axis=0) - (i0 + l0).sum(axis=0)), s(rn - ro), scale=10.0))
    env.ensure("reported refreezing is the ice gained",
               env.eqv(s(refr), s(ice.sum(axis=0) - i0.sum(axis=0)), scale=10.0))
    env.ensure("rainfall not modified", env.same(s(rain), s(r0)))


@unit("C02", ["multilayermodel._runoff"], ANY, cost=4, fallback=LAYERS[:2], **KER)
def runoff_state(env):
    if env.case["L"] == "any":
        return runoff_any(env, "state")
    L, num, ice, lwc, thick, temp, hc, cap, rain, refr, ro = runoff_inputs(env)
    i0, t0, l0, h0 = env.old(ice), env.old(temp), env.old(lwc), env.old(thick)
    env.call(ml._runoff, roi_idxs=env.roi_idxs, max_liquid_water_content=cap, rainfall=rain, num_layers=num,
             thickness=thick, temp=temp, ice_content=ice, liquid_water_content=lwc, refreezing=refr,
             runoff=ro, heat_cap=hc)
    s = env.sel
    act = active(num, L)
    env.ensure("runoff >= 0", env.geq(s(ro), 0))
    env.ensure("refreezing >= 0", env.geq(s(refr), 0))
    env.ensure("ice does not shrink", env.geq(s(ice), s(i0)))
    env.ensure("liquid water within [0, capacity]",
               env.and_(env.geq(s(lwc), 0), env.or_(s(~act), env.leq(s(lwc), s(cap)))))
    env.ensure("temperature rises, never above T0",
               env.and_(env.geq(s(temp), s(t0)), env.leq(s(temp), c.T0)))
    env.ensure("latent heat of refreezing warms the layer",
               env.eqv(s(hc * (temp - t0)), s(c.LATENT_HEAT_OF_FUSION * (ice - i0)), scale=1e3))
    env.ensure("inactive layers unchanged",
               env.or_(s(act), env.and_(env.same(s(lwc), s(l0)), env.same(s(ice), s(i0)))))
    env.ensure("thickness unchanged", env.same(s(thick), s(h0)))


def layer_inputs(env):
    L = env.case["L"]
    num, ice, lwc, thick, temp, hc = pack(env, L, tmax=c.T0 + 5)
    if not env.symbolic:  # rounding residues of a snowpack
        f = np.where(env.rng.random(env.shape) < 0.2, 10.0 ** -env.rng.uniform(5, 16, env.shape), 1.0)
        lwc[:] = np.minimum(lwc, 5 * ice)  # rounding errors of the thickness stay small against the mass
        for a in (ice, lwc, thick):
            a *= f
    dens = env.const_grid(np.nan, layers=L) * 1.0
    mt = env.vec("minthick", L, 0.01, 1.0, gen=[0.1, 0.2, 0.4])
    depth = thick.sum(axis=0)
    if env.symbolic:
        depth = env.A.wrap(env.A.raw(depth), ("R", "C"))
    # heat capacity as left by snow_properties()
    hc = ice * c.SPEC_HEAT_CAP_ICE + lwc * c.SPEC_HEAT_CAP_WATER
    # a vanished layer holds no water any more (runoff drained it)
    env.assume(env.or_(env.gt(ice, 0), env.eq(lwc, 0)))
    return L, num, ice, lwc, thick, temp, hc, dens, mt, depth


def update_cases(Ls):
    return [dict(L=L, bounded=f"{L} snow layers") for L in Ls]


@unit("C01", ["multilayermodel._update_layers"], update_cases((1, 2)), max_s=200, cost=5, **KER)
def update_layers_kernel(env):
    L, num, ice, lwc, thick, temp, hc, dens, mt, depth = layer_inputs(env)
    i0, l0, d0 = env.old(ice), env.old(lwc), env.old(depth)
    env.call(ml._update_layers, roi_idxs=env.roi_idxs, num_layers=num, min_thickness=mt, thickness=thick,
             ice_content=ice, liquid_water_content=lwc, heat_cap=hc, temp=temp, density=dens, depth=depth)
    s = env.sel
    # a snowpack of less than 1e-6 m (rounding residue of complete ablation) is removed
    thin = s(d0 < 1.0000001e-6)
    gone = s((d0 > 0) & (d0 < 0.9999999e-6))
    env.ensure("ice conserved", env.or_(thin, env.eqv(s(ice.sum(axis=0)), s(i0.sum(axis=0)), scale=1.0)))
    env.ensure("liquid water conserved", env.or_(thin, env.eqv(s(lwc.sum(axis=0)), s(l0.sum(axis=0)), scale=1.0)))
    env.ensure("a vanishing snowpack is removed completely", env.or_(
        env.not_(gone), env.and_(env.eq(s(ice), 0), env.eq(s(lwc), 0))))
    env.ensure("no mass is created", env.and_(env.leq(s(ice.sum(axis=0)), s(i0.sum(axis=0)), scale=1.0),
                                              env.leq(s(lwc.sum(axis=0)), s(l0.sum(axis=0)), scale=1.0)))


@unit("C01 C02", ["multilayermodel._update_layers"], update_cases((1, 2)), max_s=200, cost=5, **KER)
def update_layers_state(env):
    L, num, ice, lwc, thick, temp, hc, dens, mt, depth = layer_inputs(env)
    d0 = env.old(depth)
    e0 = (hc * (temp - c.T0)).sum(axis=0)
    env.call(ml._update_layers, roi_idxs=env.roi_idxs, num_layers=num, min_thickness=mt, thickness=thick,
             ice_content=ice, liquid_water_content=lwc, heat_cap=hc, temp=temp, density=dens, depth=depth)
    s = env.sel
    act = active(num, L)
    thin = s(d0 < 1.0000001e-6)
    env.ensure("layer thicknesses sum up to the depth", env.or_(
        env.eqv(s(thick.sum(axis=0)), s(d0)), env.and_(thin, env.eq(s(thick.sum(axis=0)), 0))))
    env.ensure("active layers are exactly those with thickness > 0",
               env.eq(s(act) * 1.0, s(thick > 0) * 1.0))
    env.ensure("contents >= 0", env.and_(env.geq(s(ice), 0), env.geq(s(lwc), 0)))
    env.ensure("inactive layers are empty",
               env.or_(s(act), env.and_(env.eqv(s(ice), 0), env.eqv(s(lwc), 0))))
    env.ensure("all but the lowest layer have at least their minimum thickness",
               env.or_(env.not_(s(np.arange(1, L + 1)[:, None, None] < num)),
                       env.geq(s(thick), s(mt[:, None, None] + 0 * thick))))
    env.ensure("internal energy conserved", env.or_(thin,
               env.eqv(s(env.ite(act, hc * (temp - c.T0), 0.0).sum(axis=0)), s(e0), scale=1e3, rtol=1e-5)))


# --------------------------------------------------------------------------- methods


def state_spec(num, ice, lwc, thick, temp):
    return {
        "snow.num_layers": num,
        "snow.ice_content": ice,
        "snow.liquid_water_content": lwc,
        "snow.thickness": thick,
        "snow.temp": temp,
    }


def ml_model(env, tmax=None, **specs):
    L = env.case["L"]
    over = dict(snow=dict(model="multilayer", min_thickness=[0.1 * (k + 1) for k in range(L)]))
    for k in ("lwc_method",):
        if k in env.case:
            over["snow"]["liquid_water_content"] = dict(method=env.case[k])
    m = make_model(env, timestep=env.scalar("timestep", 600, 86400), **over)
    num, ice, lwc, thick, temp, hc = pack(env, L, tmax=tmax)
    sp = state_spec(num, ice, lwc, thick, temp)
    sp.update(specs)
    fill_state(env, m, sp)
    return m


@unit("C01 C02", ["MultilayerSnowModel.accumulation", "MultilayerSnowModel.add_snow",
              "snow.fresh_snow_density", "OpenAmundsen.global_mask"], LAYERS, **KER)
def accumulation(env):
    m = ml_model(env, **{
        "meteo.snowfall": dict(lo=0, hi=100, nan=True),
        "meteo.wet_bulb_temp": dict(lo=220, hi=300, nan=True),
        "meteo.temp": dict(lo=220, hi=300),
    })
    b = snapshot(env, m)
    env.call(m.snow.accumulation)
    s, S, M = env.sel, m.state.snow, m.state.meteo
    snowfall = env.ite(env.isnan(b["meteo.snowfall"]), 0.0, b["meteo.snowfall"])
    tot = (S.ice_content + S.liquid_water_content).sum(axis=0)
    tot0 = (b["snow.ice_content"] + b["snow.liquid_water_content"]).sum(axis=0)
    env.ensure("storage change == snowfall", env.eqv(s(tot - tot0), s(snowfall), scale=10.0))
    env.ensure("new snow goes to the top layer",
               env.and_(env.eqv(s(S.ice_content[0] - b["snow.ice_content"][0]), s(snowfall), scale=10.0),
                        env.same(s(S.liquid_water_content), s(b["snow.liquid_water_content"]))[0]))
    grew = snowfall > 0
    env.ensure("snow on bare ground creates one layer",
               env.eqv(s(S.num_layers * 1.0),
                       s(env.ite(grew & (b["snow.num_layers"] == 0), 1, b["snow.num_layers"]) * 1.0)))
    env.ensure("thickness grows with snowfall at 50..1000 kg m-3",
               env.and_(env.geq(s(S.thickness[0] - b["snow.thickness"][0]), s(snowfall) / 1000.0,
                                scale=10.0),
                        env.leq(s(S.thickness[0] - b["snow.thickness"][0]), s(snowfall) / 50.0,
                                scale=10.0)))
    new = grew & (b["snow.num_layers"] == 0)
    env.ensure("the first layer has the temperature of the air, at most the melting point", env.eqv(
        s(S.temp[0]), s(env.ite(new, np.minimum(b["meteo.temp"], c.T0), b["snow.temp"][0]))))


@unit("C02 C05", ["MultilayerSnowModel.update_layers"], update_cases((1,)), **KER)
def update_layers_albedo(env):
    """Layers and albedo after the redistribution of the layers."""
    m = ml_model(env)
    S = m.state.snow
    env.assume(env.or_(env.gt(S.ice_content, 0), env.eq(S.liquid_water_content, 0)))
    S.depth = S.thickness.sum(axis=0)
    if env.symbolic:
        S.depth = env.A.wrap(env.A.raw(S.depth), ("R", "C"))
    S.heat_cap = S.ice_content * c.SPEC_HEAT_CAP_ICE + S.liquid_water_content * c.SPEC_HEAT_CAP_WATER
    a0 = env.old(S.albedo)
    env.call(m.snow.update_layers)
    s = env.sel
    env.ensure("no albedo without snow", env.or_(s(S.num_layers > 0), env.isnan(s(S.albedo))))
    env.ensure("albedo of the snow unchanged", env.or_(s(S.num_layers == 0), env.same(s(S.albedo), s(a0))))
    env.ensure("layers are those with snow", env.eqv(s(S.num_layers * 1.0), s((S.thickness > 0).sum(axis=0) * 1.0)))


@unit("C01 C02", ["MultilayerSnowModel.sublimation", "MultilayerSnowModel.add_snow",
              "multilayermodel._sublimation"], LAYERS, max_s=200, cost=3, **KER)
def sublimation(env):
    m = ml_model(env, **{
        "surface.moisture_flux": dict(lo=-1e-2, hi=1e-2, nan=True,
                                      gen=lambda r, n: r.uniform(-1e-4, 1e-4, n)),
        "surface.temp": dict(lo=220, hi=300, gen=[c.T0]),
        "meteo.wet_bulb_temp": dict(lo=220, hi=300, nan=True),
        "meteo.temp": dict(lo=220, hi=300),
    })
    b = snapshot(env, m)
    env.call(m.snow.sublimation)
    s, S = env.sel, m.state.snow
    tot = (S.ice_content + S.liquid_water_content).sum(axis=0)
    tot0 = (b["snow.ice_content"] + b["snow.liquid_water_content"]).sum(axis=0)
    env.ensure("storage change == -reported sublimation",
               env.eqv(s(tot0 - tot), s(S.sublimation), scale=10.0))
    env.ensure("sublimation never exceeds the available ice",
               env.leq(s(S.sublimation), s(b["snow.ice_content"].sum(axis=0)), scale=10.0))
    env.ensure("ice >= 0", env.geq(s(S.ice_content), 0))
    pot = -b["surface.moisture_flux"] * m.timestep
    cold = (b["snow.ice_content"][0] > 0) | (b["surface.temp"] < c.T0)
    pot = env.ite(env.or_(env.isnan(pot), env.not_(cold)), 0.0, pot)
    env.ensure("reported == min(potential, available ice)",
               env.eqv(s(S.sublimation), s(np.minimum(pot, b["snow.ice_content"].sum(axis=0))),
                       scale=10.0))


def lwc_cases():
    return [dict(L=L, lwc_method=q, bounded=f"{L} snow layers")
            for q in ("pore_volume_fraction", "mass_fraction") for L in (1, 2)]


@unit("C01 C02", ["MultilayerSnowModel.runoff", "snow.max_liquid_water_content",
              "multilayermodel._runoff"], lwc_cases(), cost=3)
def runoff(env):
    m = ml_model(env, **{
        "meteo.rainfall": dict(lo=0, hi=100, nan=True),
        "snow.heat_cap": dict(lo=0, hi=5e6),
    })
    m.config.snow.liquid_water_content.max = env.scalar("max_lwc", 0, 0.3)
    S = m.state.snow
    env.assume(env.le(S.ice_content, c.ICE_DENSITY * S.thickness))
    b = snapshot(env, m)
    env.call(m.snow.runoff)
    s = env.sel
    tot = (S.ice_content + S.liquid_water_content).sum(axis=0)
    tot0 = (b["snow.ice_content"] + b["snow.liquid_water_content"]).sum(axis=0)
    rn = env.ite(env.isnan(b["meteo.rainfall"]), 0.0, b["meteo.rainfall"])
    env.ensure("storage change == rain - reported runoff",
               env.eqv(s(tot - tot0), s(rn - S.runoff), scale=10.0))
    env.ensure("runoff >= 0", env.geq(s(S.runoff), 0))


@unit("C01 C02", ["MultilayerSnowModel.runoff", "snow.max_liquid_water_content"], lwc_cases(), cost=3)
def holding_capacity(env):
    """After runoff no layer holds more water than the configured capacity."""
    m = ml_model(env, **{
        "meteo.rainfall": dict(lo=0, hi=100, nan=True),
        "snow.heat_cap": dict(lo=0, hi=5e6),
    })
    frac = m.config.snow.liquid_water_content.max = env.scalar("max_lwc", 0, 0.3)
    S = m.state.snow
    env.assume(env.le(S.ice_content, c.ICE_DENSITY * S.thickness))
    b = snapshot(env, m)
    env.call(m.snow.runoff)
    s = env.sel
    if env.case["lwc_method"] == "mass_fraction":
        cap = frac * b["snow.ice_content"]
    else:
        cap = frac * c.WATER_DENSITY * (
            b["snow.thickness"] - b["snow.ice_content"] / c.ICE_DENSITY)
    env.ensure("liquid water <= capacity",
               env.or_(env.not_(s(active(b["snow.num_layers"], env.case["L"]))),
                       env.leq(s(S.liquid_water_content), s(cap), scale=10.0)))
    env.ensure("liquid water >= 0", env.geq(s(S.liquid_water_content), 0))
    env.ensure("ice >= 0", env.geq(s(S.ice_content), 0))


@unit("C01 C02", ["snow.snow_properties", "MultilayerSnowModel.update_properties"], LAYERS, **KER)
def properties(env):
    m = ml_model(env)
    m.config.snow.snow_cover_fraction_depth_scale = env.choice("scale", [0, 0.1, 2.0])
    b = snapshot(env, m)
    env.call(m.snow.update_properties)
    s, S = env.sel, m.state.snow
    env.ensure("SWE == total ice + liquid water",
               env.eqv(s(S.swe), s((b["snow.ice_content"] + b["snow.liquid_water_content"]).sum(axis=0))))
    env.ensure("depth == total thickness", env.eqv(s(S.depth), s(b["snow.thickness"].sum(axis=0))))
    env.ensure("snow cover fraction in [0, 1]",
               env.and_(env.geq(s(S.area_fraction), 0), env.leq(s(S.area_fraction), 1)))
    env.ensure("snow cover fraction is 0 iff there is no snow",
               env.eq((s(S.area_fraction) > 0) * 1.0, (s(b["snow.thickness"].sum(axis=0)) > 0) * 1.0))
    env.ensure("heat capacity", env.eqv(
        s(S.heat_cap),
        s(b["snow.ice_content"] * c.SPEC_HEAT_CAP_ICE
          + b["snow.liquid_water_content"] * c.SPEC_HEAT_CAP_WATER)))
    for v in ("ice_content", "liquid_water_content", "thickness"):
        env.ensure(f"{v} unchanged", env.same(s(S[v]), s(b[f"snow.{v}"])))
