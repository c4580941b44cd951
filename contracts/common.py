"""Shared builders: a model object around the real code, with contract-controlled state."""

import copy
import logging

import numpy as np

logging.getLogger("openamundsen").setLevel(logging.CRITICAL)

from munch import Munch  # noqa: E402

from openamundsen import conf, constants, landcover, modules, statevars, util  # noqa: E402
from openamundsen.model import OpenAmundsen  # noqa: E402

_CFG = {}

BASE = dict(
    domain="test",
    start_date="2020-01-01",
    end_date="2020-01-02",
    resolution=50,
    timestep="3h",
    crs="epsg:32632",
    timezone=1,
)


def _merge(a, b):
    out = dict(a)
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(out.get(k), dict):
            out[k] = _merge(out[k], v)
        else:
            out[k] = v
    return out


def config(**over):
    key = repr(sorted(over.items(), key=lambda kv: kv[0]))
    if key not in _CFG:
        import warnings

        from pyvc import core

        saved, core.CTX = core.CTX, None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                _CFG[key] = conf.parse_config(_merge(BASE, over))
        finally:
            core.CTX = saved
    return copy.deepcopy(_CFG[key])


def make_grid(env):
    rows, cols = env.shape
    roi = env.roi
    g = util.ModelGrid(
        rows=rows, cols=cols, shape=(rows, cols), resolution=50, roi=roi,
        roi_idxs=env.roi_idxs, roi_idxs_flat=np.flatnonzero(np.asarray(env.roi_plain)),
        center_lon=11.0, center_lat=47.0,
    )
    xs = 50.0 * (np.arange(cols) + 0.5)
    ys = 50.0 * (rows - np.arange(rows) - 0.5)
    X, Y = np.meshgrid(xs, ys)
    g.xs, g.ys, g.X, g.Y = xs, ys, X, Y
    g.roi_xs, g.roi_ys = X[env.roi_plain], Y[env.roi_plain]
    g.roi_points = np.column_stack((g.roi_xs, g.roi_ys))
    g.extended_grid = Munch(available=False)
    return g


def make_model(env, timestep=None, **over):
    """A real OpenAmundsen instance with the real state variable definitions."""
    m = OpenAmundsen.__new__(OpenAmundsen)
    env.assembled = True
    cfg = config(**over)
    m.config = cfg
    m._require_soil = cfg.snow.model == "multilayer"
    m._require_energy_balance = cfg.snow.melt.method == "energy_balance"
    m._require_temperature_index = not m._require_energy_balance
    m._require_canopy = cfg.canopy.enabled
    m._require_evapotranspiration = cfg.evapotranspiration.enabled
    m._require_land_cover = m._require_canopy or m._require_evapotranspiration
    m._require_soil_texture = m._require_evapotranspiration
    m._require_interpolation = cfg.input_data.meteo.format in ("csv", "netcdf", "memory")
    m._require_snow_management = False
    m._require_glaciers = cfg.glaciers.enabled
    m._run_method = None
    m._numba_threads = None
    m._logger_configured_pid = None
    m.timestep = (
        timestep
        if timestep is not None
        else util.offset_to_timedelta(cfg["timestep"]).total_seconds()
    )
    m.grid = make_grid(env)
    m.state = statevars.StateVariableManager(m.grid.rows, m.grid.cols)
    statevars.add_default_state_variables(m)
    if cfg.snow.model == "multilayer":
        m.snow = modules.snow.MultilayerSnowModel(m)
    else:
        m.snow = modules.snow.CryoLayerSnowModel(m)
    if m._require_land_cover:
        m.land_cover = landcover.LandCover(m)
    if m._require_canopy:
        m.canopy = modules.canopy.CanopyModel(m)
    if m._require_evapotranspiration:
        m.evapotranspiration = modules.evapotranspiration.EvapotranspirationModel(m)
    if m._require_glaciers:
        m.glaciers = modules.glacier.GlacierModel(m)
    return m


def fill_state(env, m, specs, default=None):
    """
    Give every state variable a value: as specified (dict of env.grid keywords,
    or an array), otherwise arbitrary.
    """
    for cat in m.state.categories:
        svc = m.state[cat]
        for name, d in svc._meta.items():
            full = f"{cat}.{name}"
            sp = specs.get(full)
            layers = d.dim3 if d.dim3 else None
            if isinstance(sp, np.ndarray):
                svc[name] = sp
                continue
            sp = dict(sp or default or {})
            if d.dtype is int:
                sp.setdefault("integer", True)
                sp.setdefault("lo", 0)
                sp.setdefault("hi", 3)
            if d.dtype is bool:
                svc[name] = env.grid(full, layers=layers, boolean=True)
                continue
            svc[name] = env.grid(full, layers=layers, **sp)
    return m


def snapshot(env, m):
    """Copies of all state variables."""
    out = {}
    for cat in m.state.categories:
        for name in m.state[cat]._meta:
            out[f"{cat}.{name}"] = env.old(m.state[cat][name])
    return out


def ensure_frame(env, m, before, may_change, label="frame"):
    """Every state variable not listed is unchanged (at the pixels selected)."""
    for cat in m.state.categories:
        for name in m.state[cat]._meta:
            full = f"{cat}.{name}"
            if full in may_change or full not in before:
                continue
            env.ensure(f"{label}: {full} unchanged",
                       env.same(env.sel(m.state[cat][name]), env.sel(before[full])))
