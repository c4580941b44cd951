"""Glacier geometry update (C23)."""

from types import SimpleNamespace

import numpy as np

from openamundsen import constants
from openamundsen.modules.glacier import glaciermodel as G
from openamundsen.modules.snow import CryoLayerID
from pyvc.unit import unit

from .common import ensure_frame, fill_state, make_model, snapshot

ICE, FIRN = int(CryoLayerID.ICE), int(CryoLayerID.FIRN)
RHO = constants.ICE_DENSITY

AREAS = [1e5, 5e6 - 1, 5e6, 19e6, 20e6, 1e8]


# smallest area (m2) of the size class and its coefficients a, b, c, gamma (Huss et al. 2010, Fig. 3)
HUSS = [(20e6, (-0.02, 0.12, 0.00, 6)), (5e6, (-0.05, 0.19, 0.01, 4)), (0.0, (-0.30, 0.60, 0.09, 2))]


def _ipow(x, n):
    r = x
    for _ in range(n - 1):
        r = r * x
    return r


@unit("C23", ["glaciermodel._delta_h"], [dict(area=a) for a in (1e5, 4.9e6, 5e6, 19.9e6, 20e6, 22e6)],
      goal_ms=20000)
def delta_h(env):
    """Thickness change pattern: a fraction, the full change at the terminus, monotone in elevation."""
    h1, h2 = env.vec("h1", 1, 0, 1, gen=[0.0, 1.0]), env.vec("h2", 1, 0, 1)
    d1, d2 = env.call(G._delta_h, h1, env.case["area"]), env.call(G._delta_h, h2, env.case["area"])
    env.ensure("a fraction of the maximum lowering", env.and_(env.ge(d1, -1), env.le(d1, 0)))
    env.ensure("full lowering at the terminus", env.implies(env.eq(h1, 1), env.leq(d1, -0.99)))
    a, b, c, g = next(v for lim, v in HUSS if env.case["area"] >= lim)
    x = h1 + a
    raw = -(_ipow(x, g) + b * x + c)
    want = env.ite(env.lt(raw, -1), -1.0, env.ite(env.gt(raw, 0), 0.0, raw))
    env.ensure("pattern of the glacier's size class", env.eqv(d1, want))
    if env.case["area"] < 20e6:
        env.ensure("lowering does not increase with elevation", env.or_(env.gt(h1, h2), env.geq(d1, d2)))


def pattern(env):
    """Contract of _delta_h."""

    def fn(h, area):
        r = env.fresh("dh", np.shape(h), getattr(h, "ax", None))
        env.assume(env.and_(env.ge(r, -1), env.le(r, 0)))
        env.assume(env.implies(env.eq(h, 1), env.le(r, -0.99)))
        return r

    return fn


N = [dict(n=n, bounded=f"{n} pixels") for n in (2, 3)]


@unit("C23", ["glaciermodel._ice_mass_change", "glaciermodel._mass_loss_surplus_distribution",
              "glaciermodel._scale_mass_loss_surplus"], N, goal_ms=20000, max_s=200,
      conc_cases=[dict(n=n) for n in (2, 3, 5, 9)])
def mass_change(env):
    """The distributed change adds up to the glacier's mass balance."""
    n = env.case["n"]
    z = env.vec("elev", n, 1000, 4000, gen=[1000.0, 2000.0, 2500.0])
    mb = env.scalar("total_mb", -1e5, 1e4, gen=[-1e3, -1e4])
    cap = env.scalar("max_change", -1e4, 0, gen=[-1.0, -100.0, -1000.0])
    area = env.scalar("area", 1e4, 1e8, gen=AREAS)
    with env.by_contract(G, "_delta_h", pattern(env)):
        d = env.call(G._ice_mass_change, z, mb, area, cap)
    d = d + 0.0 * z
    tot = d.sum()
    env.ensure("changes add up to the mass balance", env.eqv(tot, mb, scale=abs(mb) if not env.symbolic else 0))
    loses = env.lt(mb, 0)
    for i in range(n):
        env.ensure("a losing glacier gains nowhere", env.or_(env.not_(loses), env.leq(d[i], 0, scale=abs(mb) if not env.symbolic else 0)))
        env.ensure("a gaining glacier gains equally everywhere", env.or_(loses, env.eqv(d[i] * n, mb)))


def glacier_model(env):
    m = make_model(env, snow=dict(model="cryolayers"), glaciers=dict(enabled=True))
    one = dict(lo=0, hi=1e4)
    fill_state(env, m, {
        "snow.ice_content": dict(lo=0, hi=3e4, gen=[0.0, 9169.0, 9170.0, 9171.0]),
        "snow.liquid_water_content": one,
        "snow.thickness": dict(lo=0, hi=60),
        "snow.density": dict(lo=50, hi=RHO, gen=[900.0]),
        "base.dem": dict(lo=1000, hi=4000, gen=[2000.0, 2010.0, 2500.0]),
        "glaciers.glacier": dict(integer=True, lo=0, hi=2),
    })
    m.snow.update_layers = lambda: None  # contract: changes no mass (C03), proved separately
    return m


TR = [dict(start=s) for s in (1, 2, 10, 12)]


@unit("C23", ["GlacierModel.update"], TR)
def trigger(env):
    """Mass balance year: start recorded at its first step, geometry updated at its last step only."""
    m = glacier_model(env)
    m.config.glaciers.delta_h.mass_balance_year_start_month = env.case["start"]
    end = 12 if env.case["start"] == 1 else env.case["start"] - 1
    month = env.scalar("month", 1, 12, integer=True, gen=[end, env.case["start"]])
    if not env.symbolic and env.values is None:
        month = int(env.rng.choice([month, end, env.case["start"]]))
        env.log["month"] = month
    first, last = env.choice("first", [False, True]), env.choice("last", [False, True])
    started = env.choice("started", [False, True])
    g = m.glaciers
    g.glacier_ids = np.array([1, 2])
    prev = env.grid("start_we", 0, 3e4, layers=4) if started else None
    g.mass_balance_start_we = prev
    m.date_idx = 5  # not the first time step of the run
    m.date = SimpleNamespace(month=month, year=2020, day=1)
    env_tp = SimpleNamespace(strict_first_of_month=first, strict_last_of_month=last,
                             first_of_month=True, last_of_month=True, first_of_run=True, last_of_run=True,
                             first_of_year=True, last_of_year=True, first_of_day=True, last_of_day=True,
                             strict_first_of_year=True, strict_last_of_year=True,
                             strict_first_of_day=True, strict_last_of_day=True)
    cls = type("M", (type(m),), dict(timestep_props=env_tp))
    m.__class__ = cls
    calls = []
    g._update_geometry = lambda: calls.append(1)
    b = snapshot(env, m)
    env.call(g.update)
    at_start = env.and_(env.eq(month, env.case["start"]), first)
    at_end = env.and_(env.eq(month, end), last)
    upd = len(calls) == 1
    env.ensure("geometry updated at most once", len(calls) <= 1)
    env.ensure("updated at the last step of the mass balance year if its start is known",
               env.or_(env.not_(env.and_(at_end, started)), upd))
    env.ensure("not updated otherwise", env.or_(env.and_(at_end, started), not upd))
    if g.mass_balance_start_we is prev:
        env.ensure("start of the mass balance year recorded", env.not_(at_start))
    else:
        env.ensure("recorded at the start only", at_start)
        env.ensure("mass at the start of the year",
                   env.eqv(env.sel(g.mass_balance_start_we),
                           env.sel(b["snow.ice_content"] + b["snow.liquid_water_content"])))
    ensure_frame(env, m, b, ())


def change(env, caps):
    """Contract of _ice_mass_change."""

    def fn(elevs, total_mb, glacier_area, max_allowed_change):
        caps.append(max_allowed_change)
        r = env.fresh("dm", np.shape(elevs))
        env.assume(env.eq(r.sum(), total_mb))
        return r

    return fn


GEO = [dict(pixels=[1, 2], ids=i, bounded="2 pixels") for i in ([1, 1], [1, 0], [1, 2])] + [
    dict(pixels=[1, 3], ids=i, bounded="3 pixels") for i in ([1, 1, 0], [1, 1, 1])]


@unit("C23", ["GlacierModel._update_geometry"], GEO, conc_cases=[dict(ids=None), dict(pixels=[3, 3], ids=[1] * 9)],
      max_s=250)
def geometry(env):
    """The update moves ice within a glacier only, and conserves it as long as no pixel runs out of ice."""
    m = glacier_model(env)
    g = m.glaciers
    ids = env.case["ids"]
    if ids is not None:
        gid = np.array(ids).reshape(env.shape)
        m.state.glaciers["glacier"] = gid
    gid = np.asarray(m.state.glaciers.glacier)
    if not env.symbolic:
        gid = np.where(env.roi_plain, gid, 0)
        m.state.glaciers["glacier"] = gid.astype(int)
    s = m.state.snow
    # no liquid water in firn and ice at the end of a time step (C03 runoff)
    s.liquid_water_content[2:] = 0.0
    g.glacier_ids = np.array([1, 2])
    start = env.grid("start_we", 0, 3e4, layers=4, gen=[0.0, 9169.0, 9170.0, 9171.0])
    if env.symbolic:
        for k in (0, 1):
            start[k] = 0.0
    g.mass_balance_start_we = start
    start = env.old(start)
    b = snapshot(env, m)
    calls = []
    m.snow.update_layers = lambda: calls.append(1)
    caps = []
    with env.by_contract(G, "_ice_mass_change", change(env, caps)):
        env.call(g._update_geometry)
    env.ensure("layers brought up to date afterwards", len(calls) == 1)
    ice, old = s.ice_content[ICE], b["snow.ice_content"][ICE]
    thick = s.thickness[ICE]
    env.ensure("ice stays within physical bounds", env.and_(env.ge(ice, 0), env.not_(env.isnan(ice)), env.ge(thick, 0)))
    moved = []
    for k in (1, 2):
        pos = [p for p in np.ndindex(*env.shape) if gid[p] == k]
        area = [p for p in pos]
        big = {p: env.ge(start[(ICE, *p)], G.MIN_ICE_THICKNESS * RHO) for p in pos}
        nbig = sum([env.ite(big[p], 1, 0) for p in pos], 0)
        active = env.ge(nbig, 2)
        if not env.symbolic and not bool(active):
            active = False
        if len(caps) == 1 and not (gid == 3 - k).any():
            # lowering is limited to the strongest mass loss of the terminus
            has = {p: env.gt(start[(ICE, *p)], 0) for p in pos}
            low = 1e9
            for p in pos:
                z = m.state.base.dem[p]
                low = env.ite(env.and_(has[p], env.lt(z, low)), z, low)
            limit = 0.0
            for p in pos:
                t = b["snow.ice_content"][:, p[0], p[1]] + b["snow.liquid_water_content"][:, p[0], p[1]]
                mb = (t[ICE] - start[(ICE, *p)]) + (t[FIRN] - start[(FIRN, *p)])
                at = env.and_(has[p], env.le(m.state.base.dem[p], low + G.TERMINUS_ELEVATION_BUFFER))
                limit = env.ite(env.and_(at, env.lt(mb, limit)), mb, limit)
            env.ensure("lowering limited to the terminus mass balance", env.eqv(caps[0], limit, scale=1e4))
        new_sum, old_sum = 0.0, 0.0
        for p in area:
            inn = env.and_(active, big[p])
            moved.append((p, inn))
            new_sum = new_sum + env.ite(inn, ice[p], 0.0)
            old_sum = old_sum + env.ite(inn, old[p], 0.0)
            env.ensure("thickness matches the ice content where ice was moved",
                       env.or_(env.not_(inn), env.eqv(thick[p] * RHO, ice[p])))
        exhausted = [env.and_(inn, env.le(ice[p], 0)) for p, inn in moved if p in area]
        none_exhausted = env.not_(env.or_(*exhausted)) if len(exhausted) > 1 else (
            env.not_(exhausted[0]) if exhausted else True)
        env.ensure("ice mass of the glacier conserved",
                   env.or_(env.not_(none_exhausted), env.eqv(new_sum, old_sum, scale=1e5)))
        env.ensure("ice mass never lost", env.geq(new_sum, old_sum, scale=1e5))
    inside = dict(moved)
    for p in np.ndindex(*env.shape):
        keep = env.not_(inside[p]) if p in inside else True
        env.ensure("ice outside the redistribution area unchanged",
                   env.or_(env.not_(keep), env.same(ice[p], old[p])))
    for k in range(4):
        if k != ICE:
            env.ensure("other layers unchanged", env.same(s.ice_content[k], b["snow.ice_content"][k]))
            env.ensure("other layers' thickness unchanged", env.same(s.thickness[k], b["snow.thickness"][k]))
    ensure_frame(env, m, b, ("snow.ice_content", "snow.thickness"))


@unit("C23", ["GlacierModel.initialize"], sym=False)
def glacier_ids(env):
    m = make_model(env, snow=dict(model="cryolayers"), glaciers=dict(enabled=True))
    m.state.initialize()
    gid = env.grid("gid", integer=True, lo=0, hi=4)
    m.state.glaciers.glacier[:] = gid
    env.call(m.glaciers.initialize)
    env.ensure("all glaciers of the region of interest, without the background",
               sorted(int(x) for x in m.glaciers.glacier_ids) == sorted({int(x) for x in gid[env.roi]} - {0}))
    b = snapshot(env, m)
    m.state.reset()
    env.ensure("the glacier map survives a reset of the state variables",
               env.same(m.state.glaciers.glacier, b["glaciers.glacier"]))
