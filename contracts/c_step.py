"""
Whole time steps: confinement to the region of interest (C20), grid index conversions (C26), state
variable management (C28), water balance of a complete step (C29).
"""

import contextlib
import warnings
from types import SimpleNamespace

import numpy as np
import xarray as xr
from munch import Munch

from openamundsen import errors, forcing, modules, statevars, surface, util
from openamundsen import model as oamodel
from pyvc.unit import unit

from . import e2e
from .common import ensure_frame, fill_state, make_model, snapshot

# --------------------------------------------------------------------------- whole runs (runtime)

CONFIGS = {
    "multilayer": dict(snow=dict(model="multilayer")),
    "cryolayers": dict(snow=dict(model="cryolayers")),
    "temperature_index": dict(snow=dict(model="cryolayers", melt=dict(
        method="temperature_index", degree_day_factor=4.0, threshold_temp=273.0))),
    "enhanced_temperature_index": dict(snow=dict(model="cryolayers", melt=dict(
        method="enhanced_temperature_index", degree_day_factor=4.0, threshold_temp=273.0, albedo_factor=0.1))),
    "canopy_multilayer": dict(snow=dict(model="multilayer"), canopy=dict(enabled=True)),
    "canopy_cryolayers": dict(snow=dict(model="cryolayers"), canopy=dict(enabled=True),
                              evapotranspiration=dict(enabled=True)),
    "et": dict(snow=dict(model="multilayer"), evapotranspiration=dict(enabled=True)),
    "glaciers": dict(snow=dict(model="cryolayers"), glaciers=dict(enabled=True)),
    "liston": dict(snow=dict(model="multilayer"), meteo=dict(interpolation=dict(wind=dict(method="liston")))),
}
CASES = [dict(cfg=k, bounded="runs of 5 time steps on grids of up to 3x4 pixels") for k in CONFIGS]
STARTS = ["2020-02-29", "2020-09-30 12:00", "2020-06-30 15:00", "2019-12-31 18:00"]


def setup(env, nsteps=5):
    seed = env.scalar("setup_seed", 0, 2**31 - 1, integer=True)
    rng = np.random.default_rng(seed)
    st = e2e.random_setup(
        rng, nsteps=nsteps, timestep=str(rng.choice(["h", "3h", "D"])), start=str(rng.choice(STARTS)),
        winter=bool(rng.random() < 0.6))
    st["soil"] = np.clip(st["soil"], 1, 9)
    if rng.random() < 0.4:  # gaps in the station records
        for v in st["data"].values():
            v[rng.random(v.shape) < 0.25] = np.nan
    return st


def over(env, **more):
    from .common import _merge

    o = _merge(CONFIGS[env.case["cfg"]], more)
    if "canopy" in o or "evapotranspiration" in o:
        o = _merge(o, dict(land_cover=dict(classes={1: dict()})))
    return o


@contextlib.contextmanager
def running(env, st, **more):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = e2e.Run(st, **over(env, **more))
        try:
            m = env.call(r.__enter__)
            yield m
        finally:
            r.__exit__()


SEED_OUTSIDE = {  # bookkeeping fields that get their snow-free default everywhere
    "snow.area_fraction": 0.0, "surface.albedo": None, "surface.roughness_length": None, "snow.runoff": 0.0,
}


@unit("C20", ["OpenAmundsen.run_single", "OpenAmundsen._model_interface"], CASES, sym=False)
def outside_roi(env):
    """Nothing is simulated outside the region of interest."""
    with running(env, setup(env)) as m:
        roi = m.grid.roi
        env.assume((~roi).any())
        b = e2e.state_arrays(m)
        for _ in range(len(m.dates)):
            env.call(m.run_single)
            for k, v in e2e.state_arrays(m).items():
                o, q = b[k][..., ~roi], v[..., ~roi]
                if k in SEED_OUTSIDE:
                    d = SEED_OUTSIDE[k]
                    ok = np.isnan(q) | (q == d if d is not None else q == q.ravel()[0])
                    env.ensure(f"outside the region of interest: {k} at its snow-free default", ok)
                else:
                    env.ensure(f"outside the region of interest: {k} as initialised", env.same(o, q))


FRAMES = [dict(cfg=k, in_roi=False) for k in ("multilayer", "cryolayers", "temperature_index",
                                              "enhanced_temperature_index", "canopy_multilayer",
                                              "canopy_cryolayers", "et")]
STEP_CALLEES = ["snow.compaction", "snow.accumulation", "snow.albedo_aging", "snow.update_properties",
                "snow.heat_conduction", "snow.melt", "snow.sublimation", "snow.runoff", "snow.update_layers",
                "surface.energy_balance", "surface.surface_properties", "soil.soil_properties",
                "soil.soil_heat_flux", "soil.soil_temperature"]


@unit("C20", ["OpenAmundsen._model_interface", *STEP_CALLEES], FRAMES, conc_cases=[])
def step_frame(env):
    """One time step of the real code at an arbitrary pixel outside the region of interest, in any state."""
    if not env.symbolic:
        return
    m = make_model(env, **over(env))
    spec = {}
    for cat in m.state.categories:
        for n, d in m.state[cat]._meta.items():
            k = f"{cat}.{n}"
            L = d.dim3 or None
            if k in SEED_OUTSIDE:
                v = SEED_OUTSIDE[k]
                spec[k] = dict(nan=True) if v is None else env.const_grid(env.choice(k, [0.0, np.nan]))
            elif cat == "base" or d.dtype is not float and cat in ("land_cover", "glaciers"):
                spec[k] = dict()
            else:
                spec[k] = env.const_grid(np.nan if d.dtype is float else 0, layers=L)
    fill_state(env, m, spec)
    m._irradiance = lambda: None  # C25
    if hasattr(m, "land_cover"):
        m.land_cover.lai_classes, m.land_cover.class_pixels = [], {}  # C16: pixels of the classes only
    if hasattr(m, "canopy"):  # (initialisation: forest pixels are those of the region of interest)
        m.canopy.forest_pos = env.A.wrap(np.full(env.shape, False), ("R", "C"))
    if hasattr(m, "evapotranspiration"):
        m.evapotranspiration.evapotranspiration = lambda: None  # C15: elsewhere
    m.date = __import__("pandas").Timestamp("2020-03-01 12:00")
    b = snapshot(env, m)

    def iterate(model, frosties):  # contract: writes at the pixels of the mask only
        env.ensure("surface temperature is not iterated outside the region of interest", env.not_(frosties))

    with env.by_contract(surface, "iterate_surface_temperature", iterate):
        env.call(m._model_interface)
    for k, v in b.items():
        cat, n = k.split(".")
        q = m.state[cat][n]
        if k in SEED_OUTSIDE:
            if SEED_OUTSIDE[k] is not None:
                env.ensure(f"outside the region of interest: {k} at its snow-free default",
                           env.or_(env.isnan(q), env.same(q, SEED_OUTSIDE[k])))
        else:
            env.ensure(f"outside the region of interest: {k} unchanged", env.same(q, v))


@unit("C20", ["OpenAmundsen.run_single", "OpenAmundsen._model_interface"], CASES, sym=False)
def inside_roi_complete(env):
    """Every pixel of the region of interest is simulated (no pixel is skipped)."""
    st = setup(env)
    for v in st["data"].values():
        v[np.isnan(v)] = np.nanmean(v) if np.isfinite(v).any() else 50.0
    st["dem"][np.isnan(st["dem"])] = 2150.0  # (no gradients next to gaps in the terrain model)
    extend = env.choice("extend", [False, True])
    with running(env, st, extend_roi_with_stations=extend) as m:
        roi = m.grid.roi
        want = st["roi"].copy()
        if extend:
            for x, y in zip(st["xs"], st["ys"]):
                i, j = int(np.floor((e2e.Y0 - y) / e2e.RES)), int(np.floor((x - e2e.X0) / e2e.RES))
                if 0 <= i < st["rows"] and 0 <= j < st["cols"]:
                    want[i, j] = True
        env.ensure("region of interest: requested pixels, and station pixels if requested", np.array_equal(roi, want))
        env.ensure("pixel list covers the region of interest exactly once",
                   sorted(map(tuple, m.grid.roi_idxs)) == sorted(zip(*np.where(roi))))
        for _ in range(len(m.dates)):
            env.call(m.run_single)
            s = m.state
            for k in ("meteo.temp", "meteo.rel_hum", "meteo.wind_speed", "meteo.precip", "meteo.snowfall",
                      "meteo.rainfall", "meteo.lw_in", "meteo.sw_in", "snow.swe", "snow.depth", "snow.runoff",
                      "surface.temp", "surface.albedo"):
                if k == "surface.temp" and not m._require_energy_balance:
                    continue
                env.ensure(f"{k} is available at every pixel", np.isfinite(s[k][roi]))


# --------------------------------------------------------------------------- C28


VARS = dict(a=(float, 0, True), b=(float, 0, False), c=(float, 3, False), d=(float, 2, True),
            e=(int, 0, False), f=(int, 0, True), g=(int, 2, False), h=(bool, 0, False), i=(bool, 0, True))


@unit("C28", ["StateVariableManager.reset", "StateVariableManager.initialize"])
def reset(env):
    """Resetting wipes exactly the variables that need not be retained."""
    # the engine's arrays have no machine types: integers and flags are covered by the runtime check
    spec = {n: v for n, v in VARS.items() if not env.symbolic or v[0] is float}
    if env.symbolic:
        statevars._DTYPE_INIT_VALS[np.dtype(object)] = statevars._DTYPE_INIT_VALS[float]
    man = statevars.StateVariableManager(*env.shape)
    cats = [man.add_category(n) for n in ("one", "two")]
    for cat in cats:
        for n, (t, d3, keep) in spec.items():
            cat.add_variable(n, dtype=t, dim3=d3, retain=keep)
    env.call(man.initialize)
    for cat in cats:
        for n, (t, d3, keep) in spec.items():
            a = cat[n]
            if not env.symbolic:
                env.ensure("array shape as declared", tuple(a.shape) == (env.shape if d3 == 0 else (d3, *env.shape)))
                env.ensure("data type as declared", np.issubdtype(a.dtype, t))
            if t is float:
                env.ensure("floats start as no data", env.isnan(a))
            else:
                env.ensure("integers and flags start at zero", env.same(a, 0))
    before = {}
    for c, cat in zip("12", cats):
        for n, (t, d3, keep) in spec.items():
            kw = dict(lo=0, hi=9, integer=True) if t is int else dict(boolean=True) if t is bool else dict(nan=d3 == 0)
            cat[n][...] = env.grid(f"{c}.{n}", layers=d3 or None, **kw)
            before[c, n] = env.old(cat[n])
    env.call(man.reset)
    for c, cat in zip("12", cats):
        for n, (t, d3, keep) in spec.items():
            if keep:
                env.ensure("retained variables keep their values", env.same(cat[n], before[c, n]))
            elif t is float:
                env.ensure("other floats become no data", env.isnan(cat[n]))
            else:
                env.ensure("other integers and flags become zero", env.same(cat[n], 0))


@unit("C28", ["OpenAmundsen.run_single", "StateVariableManager.reset", "statevars.add_default_state_variables"],
      CASES, sym=False, w=3)
def reset_is_safe(env):
    """Resetting the variables that need not be retained in every step does not change the results."""
    st = setup(env)
    res = []
    for flag in (False, True):
        with running(env, st, reset_state_variables=flag) as m:
            steps = []
            for _ in range(len(m.dates)):
                env.call(m.run_single)
                steps.append(e2e.state_arrays(m))
            res.append(steps)
    for a, b in zip(*res):
        for k in a:
            env.ensure(f"{k}: same result with and without resetting", env.same(a[k], b[k]))


@unit("C28", ["StateVariableManager.add_category", "StateVariableManager.parse", "StateVariableManager.meta"], sym=False)
def access(env):
    man = statevars.StateVariableManager(2, 3)
    names = [n for n in ("zeta", "alpha", "meteo", "snow") if env.rng.random() < 0.7] or ["x"]
    for n in names:
        man.add_category(n)
    env.ensure("categories are listed once, in order", man.categories == tuple(sorted(names)))
    for bad in (names[0], "not valid", "1x", "a.b", ""):
        e = env.call(man.add_category, bad, raises=(errors.CategoryError,))
        env.ensure("duplicate or invalid category refused", isinstance(e, errors.CategoryError))
    env.ensure("categories unchanged by refused additions", man.categories == tuple(sorted(names)))
    for k, n in enumerate(names):
        man[n].add_variable("v", "K", f"name {n}", dim3=k, retain=bool(k % 2))
    man.initialize()
    for k, n in enumerate(names):
        man[n].v[...] = k
        env.ensure("addressed by name", man[f"{n}.v"] is man[n].v and np.all(man[f"{n}.v"] == k))
        d = man.meta(f"{n}.v")
        env.ensure("metadata of the variable", (d.units, d.long_name, d.dim3, d.retain) == ("K", f"name {n}", k, bool(k % 2)))


# --------------------------------------------------------------------------- C26


@unit("C26", ["OpenAmundsen.global_mask", "OpenAmundsen.roi_mask_to_global"],
      [dict(pixels=p, which=w, bounded=f"grid {p}") for p in ([1, 3], [2, 2]) for w in ("roi", "mask", "idxs")],
      conc_cases=[dict(which=w) for w in ("roi", "mask", "idxs")])
def global_mask(env):
    """A mask over the pixels of a subset, put back into the grid."""
    m = oamodel.OpenAmundsen.__new__(oamodel.OpenAmundsen)
    env.assembled = True
    sub = np.asarray(env.grid("subset", boolean=True)).astype(bool)
    loc2 = np.asarray(env.grid("local", boolean=True)).astype(bool)
    m.grid = Munch(shape=env.shape, rows=env.shape[0], cols=env.shape[1], roi=sub if env.case["which"] == "roi" else ~sub,
                   roi_idxs_flat=np.flatnonzero(sub if env.case["which"] == "roi" else ~sub))
    local = loc2[sub]
    before = local.copy()
    if env.case["which"] == "roi":
        r = env.call(m.global_mask, local)
        r2 = env.call(m.roi_mask_to_global, local)
        env.ensure("both entry points agree", np.array_equal(np.asarray(r), np.asarray(r2)))
    elif env.case["which"] == "mask":
        r = env.call(m.global_mask, local, sub)
    else:
        r = env.call(m.global_mask, local, global_idxs=np.flatnonzero(sub))
    r = np.asarray(r).astype(bool)
    env.ensure("shape of the grid", r.shape == tuple(env.shape))
    env.ensure("true exactly where the subset's mask is", np.array_equal(r, sub & loc2))
    env.ensure("input mask unchanged", np.array_equal(local, before))
    st = np.stack([local, ~local])
    kw = {} if env.case["which"] == "roi" else (
        dict(global_mask=sub) if env.case["which"] == "mask" else dict(global_idxs=np.flatnonzero(sub)))
    r3 = np.asarray(env.call(m.global_mask, st, **kw)).astype(bool)
    env.ensure("masks with a layer dimension", np.array_equal(r3, np.stack([sub & loc2, sub & ~loc2])))
    e = env.call(m.global_mask, np.zeros(sub.sum() + 1, dtype=bool), raises=(ValueError,), **kw)
    env.ensure("mask of the wrong size refused", isinstance(e, ValueError))


def real_grid(rng, rows, cols, res, x0, y0, roi):
    import rasterio

    g = util.ModelGrid(rows=rows, cols=cols, shape=(rows, cols), resolution=res, crs=e2e.CRS,
                       transform=rasterio.transform.from_origin(x0, y0, res, res))
    g.prepare_coordinates()
    g.roi[:] = roi
    g.prepare_roi_coordinates()
    return g


@unit("C26", ["ModelGrid.prepare_coordinates", "ModelGrid.prepare_roi_coordinates"], sym=False)
def coordinates(env):
    """Pixel centre coordinates and the pixel lists of the region of interest belong together."""
    rows, cols = env.scalar("rows", 1, 6, integer=True), env.scalar("cols", 1, 6, integer=True)
    res = float(env.choice("res", [10, 50, 100, 1000]))
    x0, y0 = 600000 + res * env.scalar("ox", 0, 50, integer=True), 5200000 - res * env.scalar("oy", 0, 50, integer=True)
    roi = env.rng.random((rows, cols)) < 0.7
    g = env.call(real_grid, env.rng, rows, cols, res, x0, y0, roi)
    r, c = np.indices((rows, cols))
    env.ensure("x of the pixel centres", env.eqv(g.X, x0 + (c + 0.5) * res))
    env.ensure("y of the pixel centres (first row in the north)", env.eqv(g.Y, y0 - (r + 0.5) * res))
    env.ensure("axes", env.and_(np.all(env.eqv(g.xs, x0 + (np.arange(cols) + 0.5) * res)),
                                np.all(env.eqv(g.ys, y0 - (np.arange(rows) + 0.5) * res))))
    env.ensure("bounds", np.allclose([g.x_min, g.x_max, g.y_min, g.y_max],
                                     [x0, x0 + cols * res, y0 - rows * res, y0]))
    env.ensure("all points in row-major order", np.array_equal(g.all_points, np.column_stack((g.X.ravel(), g.Y.ravel()))))
    env.ensure("pixel list of the region of interest",
               [tuple(p) for p in g.roi_idxs] == [(i, j) for i in range(rows) for j in range(cols) if roi[i, j]])
    env.ensure("flat pixel list", [int(k) for k in g.roi_idxs_flat] == [i * cols + j for i in range(rows)
                                                                        for j in range(cols) if roi[i, j]])
    env.ensure("coordinates of the region of interest", np.array_equal(
        g.roi_points, np.column_stack((g.X[roi], g.Y[roi]))) and np.array_equal(g.roi_xs, g.X[roi])
        and np.array_equal(g.roi_ys, g.Y[roi]))
    lon, lat = util.transform_coords(g.xs.mean(), g.ys.mean(), e2e.CRS, "epsg:4326")
    env.ensure("centre of the grid", np.allclose([g.center_lon, g.center_lat], [lon, lat]))


@unit("C26", ["forcing.prepare_point_coordinates"], sym=False)
def station_pixels(env):
    """Stations are assigned to the pixel that contains them."""
    rows, cols, res = 5, 7, 100.0
    x0, y0 = 640000.0, 5190000.0
    roi = env.rng.random((rows, cols)) < 0.6
    g = real_grid(env.rng, rows, cols, res, x0, y0, roi)
    n = env.scalar("n", 1, 5, integer=True)
    xs = x0 + res * cols * (env.rng.random(n) * 1.6 - 0.3)
    ys = y0 - res * rows * (env.rng.random(n) * 1.6 - 0.3)
    dates = __import__("pandas").date_range("2020-01-01", periods=3, freq="h")
    data = {v: np.full((n, 3), 1.0) for v in ("temp", "precip", "rel_hum", "wind_speed", "sw_in")}
    ds = e2e.stations(dates, xs, ys, np.full(n, 1000.0), data)
    ds = env.call(forcing.prepare_point_coordinates, ds, g, e2e.CRS)
    for k in range(n):
        s = ds.sel(station=f"s{k}")
        env.ensure("projected coordinates", np.allclose([float(s.x), float(s.y)], [xs[k], ys[k]], rtol=0, atol=1e-3))
        inside = x0 <= xs[k] < x0 + cols * res and y0 - rows * res < ys[k] <= y0
        env.ensure("within the grid", bool(s.within_grid_extent) == inside)
        if inside:
            i, j = int((y0 - ys[k]) // res), int((xs[k] - x0) // res)
            if abs((y0 - ys[k]) / res % 1 - 0.5) < 0.499 and abs((xs[k] - x0) / res % 1 - 0.5) < 0.499:
                env.ensure("pixel containing the station", (int(s.row), int(s.col)) == (i, j))
                env.ensure("within the region of interest", bool(s.within_roi) == bool(roi[i, j]))
        else:
            env.ensure("not within the region of interest", not bool(s.within_roi))


@unit("C26", ["util.convert_roi_pixel_dataset_to_grid"], sym=False)
def pixel_layout(env):
    """Converting pixel output back to a grid puts every value at its pixel, no data elsewhere."""
    rows, cols = env.scalar("rows", 1, 5, integer=True), env.scalar("cols", 1, 5, integer=True)
    roi = env.rng.random((rows, cols)) < 0.6
    roi.flat[int(env.rng.integers(rows * cols))] = True
    idx = np.flatnonzero(roi)
    nt, nl = env.scalar("nt", 1, 3, integer=True), env.scalar("nl", 1, 3, integer=True)
    v2 = env.rng.random((nt, len(idx)))
    v3 = env.rng.random((nt, nl, len(idx)))
    v1 = env.rng.random(len(idx))
    v4 = env.rng.random((len(idx), nt))
    ds = xr.Dataset(
        dict(a=(("time", "pixel"), v2), b=(("time", "layer", "pixel"), v3), c=(("pixel",), v1),
             d=(("pixel", "time"), v4), t=(("time",), np.arange(float(nt)))),
        coords=dict(pixel=idx, time=np.arange(nt)),
        attrs=dict(openamundsen_output_layout="roi_pixel", nrows=rows, ncols=cols, resolution=50.0,
                   xllcorner=1000.0, yllcorner=2000.0, title="x"))
    g = env.call(util.convert_roi_pixel_dataset_to_grid, ds)
    for n, v, dims in (("a", v2, ("time", "y", "x")), ("b", v3, ("time", "layer", "y", "x")), ("c", v1, ("y", "x"))):
        env.ensure("dimensions", g[n].dims == dims)
        w = g[n].values
        env.ensure("every value at its pixel", env.same(w[..., roi], v))
        env.ensure("no data outside", np.isnan(w[..., ~roi]))
    env.ensure("dimensions after the pixels", g["d"].dims == ("y", "x", "time"))
    env.ensure("values with trailing dimensions", env.same(g["d"].values[roi], v4))
    env.ensure("other variables unchanged", env.same(g["t"].values, ds["t"].values))
    env.ensure("coordinates", np.allclose(g.x, 1000 + 50 * (np.arange(cols) + 0.5))
               and np.allclose(g.y, 2000 + 50 * (rows - np.arange(rows) - 0.5)))
    env.ensure("layout recorded", g.attrs["openamundsen_output_layout"] == "grid" and g.attrs["title"] == "x")
    e = env.call(util.convert_roi_pixel_dataset_to_grid, g, raises=(ValueError,))
    env.ensure("grid layout refused", isinstance(e, ValueError))


# --------------------------------------------------------------------------- C29


class Ledger:
    """
    The callees of a time step, known by the mass clauses of their contracts (proved in C01, C03, C14):
    every call replaces the snow mass and its flux by arbitrary values that satisfy the clause.
    """

    def __init__(self, env, m, canopy):
        self.env, self.m, self.canopy = env, m, canopy
        self.calls = []

    def _new(self, name):
        return self.env.fresh(name, self.env.shape, ("R", "C")) if self.env.symbolic else self.env.rng.random(self.env.shape)

    def keep(self, name):
        def f(*a, **k):
            self.calls.append(name)

        return f

    def accumulation(self):
        s = self.m.state
        self.calls.append("accumulation")
        self.m.ghost_total = self.m.ghost_total + s.meteo.snowfall

    def sublimation(self):
        s = self.m.state
        self.calls.append("sublimation")
        s.snow.sublimation[:] = self._new("sublimation")
        self.m.ghost_total = self.m.ghost_total - s.snow.sublimation

    def runoff(self):
        s = self.m.state
        self.calls.append("runoff")
        s.snow.runoff[:] = self._new("runoff")
        self.m.ghost_total = self.m.ghost_total + s.meteo.rainfall - s.snow.runoff

    def canopy_snow(self):
        s = self.m.state
        self.calls.append("canopy")
        i, sub, w = self._new("intercepted"), self._new("canopy_sublimation"), self._new("canopy_melt")
        s.snow.canopy_intercepted_snowfall[:] = i
        s.snow.canopy_sublimation[:] = sub
        s.snow.canopy_melt[:] = w
        s.snow.canopy_intercepted_load[:] = s.snow.canopy_intercepted_load + i - sub - w
        s.meteo.snowfall[:] = s.meteo.snowfall - i + w
        s.meteo.precip[:] = s.meteo.snowfall + s.meteo.rainfall


STEPS = [dict(cfg=k) for k in ("multilayer", "cryolayers", "temperature_index", "canopy_multilayer", "canopy_cryolayers",
                              "et")]


@unit("C29", ["OpenAmundsen._model_interface"], STEPS)
def step_ledger(env):
    """
    Composition: over the mass clauses of its callees, one call of the real _model_interface changes
    snow cover and canopy storage by precipitation - runoff - sublimation.
    """
    m = make_model(env, **over(env))
    canopy = m._require_canopy
    fill_state(env, m, {})
    m.ghost_total = env.grid("total", 0, 1000)
    L = Ledger(env, m, canopy)
    q = m.state.meteo
    q.precip[:] = q.snowfall + q.rainfall  # C10
    names = [n for n in dir(m.snow) if not n.startswith("_") and callable(getattr(m.snow, n))]
    snow = SimpleNamespace(**{n: L.keep(f"snow.{n}") for n in names})
    snow.accumulation, snow.sublimation, snow.runoff = L.accumulation, L.sublimation, L.runoff
    m.snow = snow
    m._irradiance = L.keep("irradiance")
    for attr, meths in (("land_cover", ("lai",)), ("canopy", ("meteorology", "snow")),
                        ("evapotranspiration", ("evapotranspiration",))):
        if hasattr(m, attr):
            setattr(m, attr, SimpleNamespace(**{k: L.keep(f"{attr}.{k}") for k in meths}))
    if canopy:
        m.canopy.snow = L.canopy_snow
    total0 = env.old(m.ghost_total)
    load0 = env.old(m.state.snow.canopy_intercepted_load) if canopy else 0.0
    P = env.old(q.precip)
    saved = []
    for obj, n in ((oamodel.surface, "energy_balance"), (oamodel.surface, "surface_properties"),
                   (oamodel.modules.soil, "soil_properties"), (oamodel.modules.soil, "soil_heat_flux"),
                   (oamodel.modules.soil, "soil_temperature"), (oamodel.modules.canopy, "above_canopy_meteorology")):
        saved.append((obj, n, getattr(obj, n)))
        setattr(obj, n, L.keep(n))
    try:
        env.call(m._model_interface)
    finally:
        for obj, n, f in saved:
            setattr(obj, n, f)
    s = m.state.snow
    loss = s.runoff + s.sublimation
    dload = 0.0
    if canopy:
        loss = loss + s.canopy_sublimation
        dload = s.canopy_intercepted_load - load0
    env.ensure("storage change == precipitation - runoff - sublimation",
               env.eqv(env.sel(m.ghost_total - total0 + dload), env.sel(P - loss), scale=1e3))
    c = L.calls

    def before(a, b):
        return a in c and b in c and max(i for i, x in enumerate(c) if x == a) < min(
            i for i, x in enumerate(c) if x == b)

    melt_src = "energy_balance" if m._require_energy_balance else "snow.temperature_index"
    env.ensure("snowmelt of the step is determined before it is applied, once",
               c.count(melt_src) == 1 and c.count("snow.melt") == 1 and before(melt_src, "snow.melt"))
    env.ensure("meltwater of the step can run off in the step", before("snow.melt", "runoff"))
    env.ensure("radiation of the step is determined first", before("irradiance", melt_src))
    env.ensure("layers are brought up to date after the last mass change",
               all(before(x, "snow.update_layers") for x in ("accumulation", "snow.melt", "sublimation", "runoff")))
    if m._require_soil:
        env.ensure("soil temperature after its heat flux", before("soil_heat_flux", "soil_temperature"))
        env.ensure("soil properties before the energy balance", before("soil_properties", melt_src))
    env.ensure("surface properties before the energy balance", before("surface_properties", melt_src))
    if m._require_evapotranspiration:
        env.ensure("evapotranspiration after the runoff of the step, once",
                   before("runoff", "evapotranspiration.evapotranspiration")
                   and c.count("evapotranspiration.evapotranspiration") == 1)
    if canopy:
        env.ensure("interception before accumulation", before("canopy", "accumulation"))
        env.ensure("above-canopy values saved before they are modified",
                   before("above_canopy_meteorology", "canopy.meteorology"))


@unit("C29", ["OpenAmundsen.run_single", "OpenAmundsen._model_interface"], CASES, sym=False, w=2)
def step_balance(env):
    """Water balance and consistency of every pixel in every step of complete runs."""
    with running(env, setup(env)) as m:
        roi = m.grid.roi
        s = m.state.snow
        glac = m._require_glaciers

        def storage():
            t = (s.ice_content + s.liquid_water_content).sum(axis=0)[roi]
            if m._require_canopy:
                t = t + np.nan_to_num(s.canopy_intercepted_load[roi])
            return t

        P = []
        inner = m._model_interface

        def record():
            P.append((m.state.meteo.snowfall + m.state.meteo.rainfall)[roi])
            inner()

        m._model_interface = record
        for _ in range(len(m.dates)):
            b = storage()
            env.call(m.run_single)
            out = s.runoff[roi] + np.nan_to_num(s.sublimation[roi])
            if m._require_canopy:
                out = out + np.nan_to_num(s.canopy_sublimation[roi])
            p = np.nan_to_num(P[-1])
            if not glac:
                env.ensure("storage change == precipitation - runoff - sublimation",
                           env.eqv(storage() - b, p - out, scale=100.0))
            env.ensure("snow water equivalent is the mass of the layers",
                       env.eqv(s.swe[roi], (s.ice_content + s.liquid_water_content).sum(axis=0)[roi], scale=1.0))
            env.ensure("snow depth is the thickness of the layers",
                       env.eqv(s.depth[roi], s.thickness.sum(axis=0)[roi], scale=1e-2))
            for k in ("ice_content", "liquid_water_content", "thickness"):
                env.ensure(f"{k} is not negative", env.geq(s[k][:, roi], 0, scale=1.0))
            env.ensure("runoff is not negative", env.geq(s.runoff[roi], 0, scale=1.0))


@unit("C29", ["OpenAmundsen.run", "OpenAmundsen.initialize"], [dict(cfg=k, bounded="4 steps, grids up to 3x4")
                                                              for k in ("multilayer", "canopy_cryolayers")], sym=False)
def reproducible(env):
    """A run is a function of its inputs: repeating it, or stepping through it, gives the same results."""
    st = setup(env, nsteps=4)
    res = []
    for mode in ("run", "step"):
        with running(env, st) as m:
            if mode == "run":
                env.call(m.run)
            else:
                for _ in range(len(m.dates)):
                    env.call(m.run_single)
            res.append(e2e.state_arrays(m))
    for k in res[0]:
        env.ensure(f"{k}: same result", env.same(res[0][k], res[1][k]))
