"""
Input grids (C31) and configuration (C32): a run uses exactly what its files and its configuration say, or is refused.
"""

import contextlib
import copy
import os
import shutil
import tempfile
import warnings
from datetime import date

import numpy as np
import pandas as pd
import rasterio

from openamundsen import conf, errors, terrain, util
from openamundsen import model as oamodel
from openamundsen.fileio import raster
from pyvc.unit import unit

from . import e2e
from .common import _merge, config, make_model

# --------------------------------------------------------------------------- raster files


def ascii_grid(path, a, x0, y1, res, nodata=-9999.0):
    a = np.asarray(a, dtype=float)
    with open(path, "w") as fh:
        fh.write(f"ncols {a.shape[1]}\nnrows {a.shape[0]}\nxllcorner {x0}\nyllcorner {y1 - a.shape[0] * res}\n"
                 f"cellsize {res}\nNODATA_value {nodata:g}\n")
        for row in a:
            fh.write(" ".join("%g" % nodata if np.isnan(v) else repr(float(v)) for v in row) + "\n")


@unit("C31", ["raster.read_raster_file", "raster.read_raster_metadata", "raster.write_raster_file"], sym=False, w=2,
      cases=[dict(bounded="grids of up to 6x6 pixels")])
def raster_files(env):
    """Reading returns the values of the file at their pixels; other grids are refused; writing and reading are inverse."""
    rng = np.random.default_rng(int(env.scalar("seed", 0, 2**31 - 1, integer=True)))
    rows, cols = int(rng.integers(1, 7)), int(rng.integers(1, 7))
    a = np.round(rng.random((rows, cols)) * 1000.0 - 200.0, 3)
    a[rng.random(a.shape) < 0.2] = np.nan
    a[0, 0] = 123.456
    x0, y1, res = 100.0 * int(rng.integers(-5, 50)), 100.0 * int(rng.integers(10, 50)), float(rng.choice([10.0, 25.0, 50.0]))
    d = tempfile.mkdtemp(prefix="oaraster-")
    try:
        f = os.path.join(d, "a.asc")
        ascii_grid(f, a, x0, y1, res)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            meta = env.call(raster.read_raster_metadata, f, crs="epsg:32632")
            env.ensure("metadata of the file", (meta["rows"], meta["cols"], tuple(meta["shape"]), meta["resolution"])
                       == (rows, cols, (rows, cols), res) and tuple(meta["transform"])[:6] == (res, 0.0, x0, 0.0, -res, y1)
                       and meta["crs"].to_epsg() == 32632)
            fill = [np.nan, 0.0, -1.0][int(rng.integers(3))]
            got = env.call(raster.read_raster_file, f, fill_value=fill, dtype=float, check_meta=meta)
            env.ensure("values at their pixels, fill value for no data",
                       bool(np.allclose(got, np.where(np.isnan(a), fill, a), rtol=1e-6, atol=1e-4, equal_nan=True)))
            i = env.call(raster.read_raster_file, f, fill_value=0, dtype=int)
            env.ensure("integer values", bool(np.array_equal(i, np.where(np.isnan(a), 0, np.trunc(np.float32(a))).astype(int)))
                       and np.issubdtype(i.dtype, np.integer))
            # a grid that differs in position, size or resolution
            k = int(rng.integers(5))
            b, x, y, r = a, x0, y1, res
            if k == 0:
                x += res * float(rng.choice([-1.0, 0.5, 1.0]))
            elif k == 1:
                y += res * float(rng.choice([-1.0, 0.5, 1.0]))
            elif k == 2:
                b = np.vstack([a, a[:1]])
                y += res * float(rng.integers(2))
            elif k == 3:
                b = np.hstack([a, a[:, :1]])
                x -= res * float(rng.integers(2))
            else:
                r = res * 2
            g = os.path.join(d, "b.asc")
            ascii_grid(g, b, x, y, r)
            got = env.call(raster.read_raster_file, g, fill_value=fill, dtype=float, check_meta=meta, raises=(errors.RasterFileError,))
            env.ensure("other grids are refused", isinstance(got, errors.RasterFileError))
            h = os.path.join(d, "c.tif" if rng.random() < 0.5 else "c.asc")
            kw = dict(driver="GTiff") if h.endswith("tif") else {}
            env.call(raster.write_raster_file, h, a, meta["transform"], **kw)
            back = env.call(raster.read_raster_file, h, check_meta=meta)
            env.ensure("reading what was written", bool(np.allclose(back, a, rtol=1e-6, atol=1e-4, equal_nan=True)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Run(e2e.Run):
    """A run whose input files are altered by hook(directory) before initialisation."""

    def __init__(self, setup, hook, **over):
        super().__init__(setup, **over)
        self.hook = hook

    def __enter__(self):
        write = e2e.write_grid
        try:
            def w(dirname, kind, arr, domain="test"):
                write(dirname, kind, arr, domain)
                if kind == "glaciers":  # last file
                    self.hook(dirname)

            e2e.write_grid = w
            return super().__enter__()
        except BaseException:
            shutil.rmtree(self.dir, ignore_errors=True)
            raise
        finally:
            e2e.write_grid = write


ERR = (errors.RasterFileError, FileNotFoundError)


@unit("C31", ["OpenAmundsen._read_input_data", "OpenAmundsen._read_extended_grids", "OpenAmundsen._initialize_grid",
              "OpenAmundsen.initialize", "OpenAmundsen._calculate_terrain_parameters", "util.raster_filename"],
      [dict(extended=x, bounded="grids of up to 3x4 pixels") for x in (False, True)], sym=False, w=4)
def input_grids(env):
    """Every input grid arrives at its pixels in the state variables; inconsistent files are refused."""
    rng = np.random.default_rng(int(env.scalar("seed", 0, 2**31 - 1, integer=True)))
    st = e2e.random_setup(rng, nsteps=2, timestep="3h")
    rows, cols = st["rows"], st["cols"]
    ext = env.case["extended"]
    roi = st["roi"] & ~np.isnan(st["dem"])
    svf = np.round(0.5 + 0.5 * rng.random((rows, cols)), 3)
    srf = np.round(rng.random((rows, cols)) * 2, 3)
    has_roi, has_svf = bool(rng.random() < 0.8), bool(rng.random() < 0.7)
    has_svf = has_svf or bool(np.isnan(st["dem"]).any())  # sky view factors: complete elevation models
    use_lc, extend = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    up, left = int(rng.integers(0, 3)), int(rng.integers(0, 3))
    down, right = int(rng.integers(0, 3)), int(rng.integers(0, 3))
    exd = exs = None
    kind = None
    if ext:
        st["dem"] = np.round(np.where(np.isnan(st["dem"]), 2222.0, st["dem"]), 2)
        roi = st["roi"].copy()
        exd = np.round(2000.0 + 300.0 * rng.random((rows + up + down, cols + left + right)), 2)
        exd[up:up + rows, left:left + cols] = st["dem"]
        exs = np.round(0.4 + 0.6 * rng.random(exd.shape), 3)
    choice = ["ok", "ok", "ok", "roi", "svf", "srf", "lc"] + (["ext-res", "ext-align", "ext-cover", "ext-svf"] * 2 if ext else ["dem"])
    kind = str(rng.choice(choice))

    def bad(d, name, a):
        ascii_grid(os.path.join(d, f"{name}_test_50.asc"), np.vstack([a, a[:1]]), e2e.X0, e2e.Y0, 50)

    def hook(d):
        p = lambda k: os.path.join(d, f"{k}_test_50.asc")
        os.unlink(p("svf"))
        if not has_roi:
            os.unlink(p("roi"))
        if has_svf:
            ascii_grid(p("svf"), svf, e2e.X0, e2e.Y0, 50)
        ascii_grid(p("srf"), srf, e2e.X0, e2e.Y0, 50)
        if ext:
            x, y, r = e2e.X0 - 50 * left, e2e.Y0 + 50 * up, 50.0
            if kind == "ext-res":
                r = 25.0
            elif kind == "ext-align":
                x += 20.0
            elif kind == "ext-cover":
                if rng.random() < 0.5:
                    y -= 50.0 * (up + 1)
                else:
                    x += 50.0 * (left + 1)
            ascii_grid(p("extended-dem"), exd, x, y, r)
            s = exs[:, :-1] if kind == "ext-svf" else exs
            if has_svf or kind == "ext-svf":
                ascii_grid(p("extended-svf"), s, x, y, r)
        if kind in ("roi", "svf", "srf", "lc", "dem"):
            os.unlink(p(kind)) if kind in ("lc", "srf") and rng.random() < 0.3 else bad(d, kind, {"roi": st["roi"].astype(float), "svf": svf,
                                                                                                  "srf": srf, "lc": st["lc"].astype(float), "dem": st["dem"]}[kind])

    expect_bad = kind in ("srf", "ext-res", "ext-align", "ext-cover", "ext-svf") or kind == "roi" \
        or (kind == "svf" and not ext) or (kind == "lc" and use_lc)
    over = dict(meteo=dict(precipitation_correction=[dict(method="srf")]), extend_roi_with_stations=extend)
    if use_lc:
        over["canopy"] = dict(enabled=True)
    run = Run(st, hook, **over)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = env.call(run.__enter__, raises=ERR + (rasterio.errors.RasterioIOError,))
    if kind == "dem":
        # the grid is defined by the DEM: every other grid then disagrees with it
        env.ensure("grids that do not match the DEM are refused", isinstance(m, errors.RasterFileError))
        return
    try:
        if expect_bad:
            env.ensure("missing or inconsistent input grids are refused", isinstance(m, Exception))
            return
        env.ensure("accepted", not isinstance(m, Exception))
        close = lambda a, b: bool(np.allclose(a, b, rtol=1e-6, atol=1e-3, equal_nan=True))
        env.ensure("grid of the DEM", (m.grid.rows, m.grid.cols, m.grid.resolution) == (rows, cols, 50.0)
                   and tuple(m.grid.transform)[:6] == (50.0, 0.0, e2e.X0, 0.0, -50.0, e2e.Y0))
        env.ensure("elevation of every pixel", close(m.state.base.dem, st["dem"]))
        if ext:
            g = m.grid.extended_grid
            full = exs if has_svf else terrain.sky_view_factor(exd, 50, num_sweeps=m.config.meteo.radiation.num_shadow_sweeps)
            env.ensure("extended grid", bool(g.available) and close(g.dem, exd) and close(g.svf, full))
            env.ensure("position of the grid within the extended grid", close(g.dem[g.row_slice, g.col_slice], exd[up:up + rows, left:left + cols])
                       and (g.row_offset, g.col_offset) == (up, left))
            env.ensure("sky view factor of every pixel", close(m.state.base.svf, full[up:up + rows, left:left + cols]))
            env.ensure("normal vectors of the extended grid", close(g.normal_vec, terrain.normal_vector(exd, 50)))
        else:
            env.ensure("no extended grid", not m.grid.extended_grid.available)
            if has_svf:
                env.ensure("sky view factor of every pixel", close(m.state.base.svf, svf))
            else:
                s = terrain.sky_view_factor(st["dem"], 50, num_sweeps=m.config.meteo.radiation.num_shadow_sweeps)
                env.ensure("sky view factor calculated and kept for the next run", close(m.state.base.svf, s)
                           and bool(np.allclose(raster.read_raster_file(os.path.join(run.dir, "svf_test_50.asc")), s,
                                                atol=6e-4, equal_nan=True)))
        want = roi if has_roi else ~np.isnan(st["dem"])
        want = want.copy()
        if extend:
            for x, y in zip(st["xs"], st["ys"]):
                i, j = int(np.floor((e2e.Y0 - y) / 50)), int(np.floor((x - e2e.X0) / 50))
                if 0 <= i < rows and 0 <= j < cols:
                    want[i, j] = True
        env.ensure("region of interest: marked pixels with known elevation, and station pixels if requested",
                   bool(np.array_equal(m.grid.roi, want)))
        env.ensure("pixel lists of the region of interest", bool(np.array_equal(m.grid.roi_idxs, np.argwhere(want)))
                   and m.grid.roi_xs.shape[0] == want.sum() == m.grid.roi_ys.shape[0])
        env.ensure("snow redistribution factors", close(m.state.base.srf, srf))
        if use_lc:
            env.ensure("land cover classes", bool(np.array_equal(m.state.land_cover.land_cover, st["lc"])))
        sl, asp = terrain.slope_aspect(m.state.base.dem, 50)
        env.ensure("terrain parameters of the elevation model", close(m.state.base.slope, sl) and close(m.state.base.aspect, asp)
                   and close(m.state.base.normal_vec, terrain.normal_vector(m.state.base.dem, 50)))
    finally:
        if not isinstance(m, Exception):
            run.__exit__()


# --------------------------------------------------------------------------- configuration

BASE = dict(domain="test", start_date="2020-01-01", end_date="2020-01-02", resolution=50, timestep="3h", crs="epsg:32632", timezone=1,
            input_data=dict(grids=dict(dir="."), meteo=dict(dir=".")))


def parse(env, cfg):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return env.call(conf.parse_config, conf.Configuration.fromDict(copy.deepcopy(cfg)), raises=(errors.ConfigurationError,))


@unit("C32", ["conf.parse_config", "conf._parse_end_date", "conf.validate_config", "ConfigurationValidator._normalize_coerce_timestep"],
      sym=False, w=2)
def period(env):
    """The period of a run: date-only end dates mean the last time step of that day; incompatible periods are refused."""
    ts = str(env.choice("timestep", ["h", "H", "1h", "3h", "30min", "2h", "6h", "12h", "D", "24h", "1D", "5h", "2D", "5D"]))
    td = util.offset_to_timedelta(ts)
    form = str(env.choice("form", ["date string", "date", "datetime", "string", "timestamp"]))
    day = int(env.scalar("day", 0, 800, integer=True))
    n = int(env.scalar("days", -1, 40, integer=True))
    sh, eh = int(env.choice("start_hour", [0, 0, 3, 6, 7])), int(env.choice("end_hour", [0, 3, 6, 7, 23]))
    s = pd.Timestamp("2019-02-20") + pd.Timedelta(days=day, hours=sh)
    e = s.normalize() + pd.Timedelta(days=n, hours=eh)
    start = str(s) if sh else env.choice("start_form", [str(s)[:10], str(s)])
    if form in ("date string", "date"):
        end = str(e)[:10] if form == "date string" else date(e.year, e.month, e.day)
        e = e.normalize()
        if td < pd.Timedelta("24h"):
            e = e + pd.Timedelta("24h") - td
    else:
        end = {"string": str(e) if eh else str(e.date()) + " 00:00", "datetime": e.to_pydatetime(), "timestamp": e}[form]
    wf = str(env.choice("write_freq", ["ME", "D", "10D", "30D", "3h"]))
    c = parse(env, _merge(BASE, dict(start_date=str(start), end_date=end, timestep=ts, output_data=dict(timeseries=dict(write_freq=wf)))))
    ok = e >= s and (e - s) % td == pd.Timedelta(0)
    if td > pd.Timedelta("24h"):
        ok = ok and wf != "ME" and util.offset_to_timedelta(wf) % td == pd.Timedelta(0)
    if not ok:
        env.ensure("end before start, or not a multiple of the time step: refused", isinstance(c, errors.ConfigurationError))
        return
    env.ensure("accepted", not isinstance(c, Exception))
    env.ensure("start and end of the run", pd.Timestamp(c.start_date) == s and pd.Timestamp(c.end_date) == e)
    env.ensure("time step", util.offset_to_timedelta(c.timestep) == td)


@unit("C32", ["conf.parse_config", "conf.validate_config", "conf._merge_land_cover_params", "ConfigurationValidator._normalize_coerce_snowmodel"],
      sym=False, w=2)
def options(env):
    """Options keep their given value, missing ones get the default, contradictory or unknown ones are refused."""
    rng = np.random.default_rng(int(env.scalar("seed", 0, 2**31 - 1, integer=True)))
    model = str(rng.choice(["multilayer", "cryolayers", "layers"]))
    melt = str(rng.choice(["energy_balance", "temperature_index", "enhanced_temperature_index"]))
    ddf = None if rng.random() < 0.4 else float(np.round(rng.random() * 9, 2))
    af = None if rng.random() < 0.4 else float(np.round(rng.random() * 9, 2))
    thr = float(rng.choice([0.0, 1.5, -2.0, 19.9, 273.15, 275.0]))
    glac = str(rng.choice(["off", "delta_h"]))
    crs = str(rng.choice(["epsg:32632", "epsg:32632", "epsg:4326"]))
    cfg = _merge(BASE, dict(
        snow=dict(model=model, melt=dict(method=melt)), crs=crs,
        meteo=dict(precipitation_phase=dict(threshold_temp=thr)),
    ))
    if ddf is not None:
        cfg["snow"]["melt"]["degree_day_factor"] = ddf
    if af is not None:
        cfg["snow"]["melt"]["albedo_factor"] = af
    if glac != "off":
        cfg["glaciers"] = dict(enabled=True, model="delta_h")
    alb = str(rng.choice(["none", "usaco", "fsm", "snow_age"]))
    kn, kp, sig = float(rng.uniform(0.01, 0.2)), float(rng.uniform(0.05, 0.3)), float(rng.uniform(0.1, 3))
    if alb == "usaco":
        cfg["snow"]["albedo"] = dict(method=alb, k_neg=kn, k_pos=kp, significant_snowfall=sig)
    elif alb != "none":
        cfg["snow"]["albedo"] = dict(method=alb)
    unknown = bool(rng.random() < 0.1)
    if unknown:
        where = int(rng.integers(3))
        (cfg if where == 0 else cfg["snow"] if where == 1 else cfg["meteo"]["precipitation_phase"])["no_such_option"] = 1
    lcc = int(rng.choice([1, 2, 4, 5, 77]))
    lv = float(np.round(rng.random() * 5, 2))
    with_lc = bool(rng.random() < 0.5)
    if with_lc:
        cfg["land_cover"] = dict(classes={lcc: dict(leaf_area_index=dict(min=lv, max=lv + 1))})
    want = copy.deepcopy(cfg)
    c = parse(env, cfg)
    multi = model in ("multilayer", "layers")
    bad = unknown or crs == "epsg:4326" or (multi and melt != "energy_balance") or (glac != "off" and multi) \
        or (melt != "energy_balance" and ddf is None) or (melt == "enhanced_temperature_index" and af is None)
    env.ensure("configuration passed in not modified", cfg == want)
    if bad:
        env.ensure("unknown, contradictory or incomplete options are refused", isinstance(c, errors.ConfigurationError))
        return
    env.ensure("accepted", not isinstance(c, Exception))
    env.ensure("snow model", c.snow.model == ("multilayer" if multi else "cryolayers"))
    env.ensure("melt options", (c.snow.melt.method, c.snow.melt.degree_day_factor, c.snow.melt.albedo_factor) == (melt, ddf, af))
    env.ensure("threshold temperature in K", abs(c.meteo.precipitation_phase.threshold_temp - (thr + 273.15 if abs(thr) < 20 else thr)) < 1e-9)
    a = c.snow.albedo
    if alb == "usaco":
        env.ensure("deprecated albedo method: equivalent options", a.method == "snow_age" and a.refresh_method == "binary"
                   and abs(a.cold_snow_decay_timescale - 24 / kn) < 1e-9 * 24 / kn and a.refresh_snowfall == sig
                   and abs(a.melting_snow_decay_timescale - 24 / kp) < 1e-9 * 24 / kp
                   and a.decay_timescale_determination_temperature == "air")
    elif alb == "fsm":
        env.ensure("deprecated albedo method: equivalent options", a.method == "snow_age" and a.refresh_method == "continuous"
                   and a.decay_timescale_determination_temperature == "surface")
    if with_lc:
        k = c.land_cover.classes[lcc]
        env.ensure("land cover class parameters", k.leaf_area_index.min == lv and k.leaf_area_index.max == lv + 1)
    # parsing the result again changes nothing
    again = parse(env, c.toDict())
    env.ensure("a parsed configuration is a fixed point", not isinstance(again, Exception) and again.toDict() == c.toDict())
    # options that were not given have the default value: the same as those of the minimal configuration
    ref = parse(env, dict(BASE)).toDict()
    for k in ("numba_threads", "reset_state_variables", "output_data", "soil", "canopy", "evapotranspiration"):
        if k in ref:
            env.ensure("defaults", c.toDict()[k] == ref[k])


# --------------------------------------------------------------------------- deductive parts


class File:
    """Path of an input file that may or may not exist."""

    def __init__(self, kind, there):
        self.kind, self.there = kind, there

    def exists(self):
        return self.there

    is_file = exists

    def __str__(self):
        return self.kind


@unit("C31", ["OpenAmundsen._read_input_data"],
      [dict(svf=s, roi=r, srf=f, et=e) for s in (True, False) for r in (True, False) for f in ("no", "default", "file") for e in (False, True)],
      conc=False)
def read_input(env):
    """
    Over the contract of read_raster_file (the values of the file, the fill value where it has no data): every input
    grid is taken over at every pixel, and the region of interest is exactly the marked pixels of known elevation.
    """
    corr = []
    if env.case["srf"] != "no":
        corr = [dict(method="srf")]
        if env.case["srf"] == "file":
            corr[0]["file"] = "other"
    m = make_model(env, meteo=dict(precipitation_correction=corr), canopy=dict(enabled=env.case["et"]),
                   evapotranspiration=dict(enabled=env.case["et"]))
    if corr:
        m.state.base.add_variable("srf", "1", "srf", retain=True)
        m.state.base.srf = env.const_grid(np.nan)
    dem = env.grid("dem", lo=-500, hi=9000, nan=True)
    files = dict(dem=dem, svf=env.grid("svf", lo=0, hi=1, nan=True), roi=env.grid("roi", boolean=True),
                 lc=env.grid("lc", integer=True, lo=0, hi=5), soil=env.grid("soil", integer=True, lo=0, hi=12),
                 srf=env.grid("srf", lo=0, hi=3, nan=True), other=env.grid("other", lo=0, hi=3, nan=True))
    there = dict(svf=env.case["svf"], roi=env.case["roi"])
    there["extended-dem"] = there["extended-svf"] = False
    written, asked = [], []

    def read_raster_file(filename, check_meta=None, fill_value=None, dtype=None):
        kind = filename.kind if isinstance(filename, File) else str(filename)
        asked.append((kind, check_meta is m.grid, fill_value, dtype))
        return files[kind].copy()

    computed = env.grid("svf_of_dem", lo=0, hi=1, nan=True)
    args = []

    def sky_view_factor(d, res, **kw):
        args.append((env.old(d), res, kw))
        return computed.copy()

    m.grid.roi = env.const_grid(False)
    m.grid.prepare_roi_coordinates = lambda: written.append("coordinates")
    m.state.base.dem, m.state.base.svf = env.const_grid(np.nan), env.const_grid(np.nan)
    if env.case["et"]:
        m.state.land_cover.land_cover, m.state.evapotranspiration.soil_texture = env.const_grid(0), env.const_grid(0)
    with contextlib.ExitStack() as st:
        for o, n, f in (
            (oamodel.util, "raster_filename", lambda kind, config: File(kind, there.get(kind, True))),
            (oamodel.fileio, "read_raster_file", read_raster_file),
            (oamodel.fileio, "write_raster_file", lambda f, a, t, **k: written.append((f.kind, a))),
            (oamodel.terrain, "sky_view_factor", sky_view_factor),
        ):
            st.enter_context(env.by_contract(o, n, f))
        m.grid.transform = None
        env.call(m._read_input_data)
    env.ensure("elevation", env.eq(m.state.base.dem, dem))
    env.ensure("sky view factor", env.eq(m.state.base.svf, files["svf"] if env.case["svf"] else computed))
    env.ensure("every grid is checked against the grid of the elevation model", all(a[1] for a in asked))
    if not env.case["svf"]:
        env.ensure("sky view factor of the elevation model", len(args) == 1 and args[0][1] == m.grid.resolution)
        env.ensure("sky view factor of the elevation model, values", env.eq(args[0][0], dem))
    for i, j in np.ndindex(*env.shape):
        want = (bool(files["roi"][i, j]) if env.case["roi"] else True) and not bool(env.isnan(dem)[i, j])
        env.ensure("region of interest: marked pixels of known elevation", bool(m.grid.roi[i, j]) == want)
    env.ensure("pixel lists follow the region of interest", "coordinates" in written)
    if corr:
        env.ensure("snow redistribution factors", env.eq(m.state.base.srf, files["other" if env.case["srf"] == "file" else "srf"]))
    if env.case["et"]:
        env.ensure("land cover", env.eq(m.state.land_cover.land_cover, files["lc"]))
        env.ensure("soil texture", env.eq(m.state.evapotranspiration.soil_texture, files["soil"]))
    fills = {k: f for k, _, f, _ in asked}
    env.ensure("no data: no elevation, not in the region of interest, no class",
               np.isnan(fills["dem"]) and not fills.get("roi", False) and fills.get("lc", 0) == 0 and fills.get("soil", 0) == 0)


@unit("C32", ["conf.validate_config"], [dict(albedo=a) for a in ("usaco", "fsm", "snow_age")], conc=False)
def converted_options(env):
    """Deprecated albedo options and temperatures in degrees Celsius are converted, for all values."""
    c = config(snow=dict(albedo=dict(method="snow_age")))
    a = c.snow.albedo
    a.method = env.case["albedo"]
    t = env.scalar("threshold", -100, 400)
    kn, kp, sig = env.scalar("k_neg", 0, 10, lo_open=True), env.scalar("k_pos", 0, 10, lo_open=True), env.scalar("significant", 0, 100)
    a.k_neg, a.k_pos, a.significant_snowfall = kn, kp, sig
    cold, warm, fresh = a.cold_snow_decay_timescale, a.melting_snow_decay_timescale, a.refresh_snowfall
    c.meteo.precipitation_phase.threshold_temp = t
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        env.call(conf.validate_config, c)
    celsius = env.and_(env.lt(t, 20.0), env.gt(t, -20.0))
    env.ensure("threshold temperature in K", env.eqv(c.meteo.precipitation_phase.threshold_temp, env.ite(celsius, t + 273.15, t)))
    env.ensure("albedo method", a.method == "snow_age")
    if env.case["albedo"] == "usaco":
        env.ensure("decay timescales in hours", env.and_(env.eqv(a.cold_snow_decay_timescale * kn, 24.0), env.eqv(a.melting_snow_decay_timescale * kp, 24.0)))
        env.ensure("refresh", a.refresh_method == "binary" and a.decay_timescale_determination_temperature == "air")
        env.ensure("refresh snowfall", env.eqv(a.refresh_snowfall, sig))
    else:
        env.ensure("timescales unchanged", (a.cold_snow_decay_timescale, a.melting_snow_decay_timescale, a.refresh_snowfall) == (cold, warm, fresh))
        if env.case["albedo"] == "fsm":
            env.ensure("refresh", a.refresh_method == "continuous" and a.decay_timescale_determination_temperature == "surface")


@unit("C32", ["conf.validate_config"],
      [dict(model=m, melt=x, ddf=d, af=a) for m in ("multilayer", "cryolayers")
       for x in ("energy_balance", "temperature_index", "enhanced_temperature_index") for d in (False, True) for a in (False, True)], conc=False)
def melt_options(env):
    """Melt methods: refused exactly if the snow model does not support them or a factor is missing, whatever the values."""
    c = config(snow=dict(model="cryolayers"))
    k = env.case
    c.snow.model, c.snow.melt.method = k["model"], k["melt"]
    c.snow.melt.degree_day_factor = env.scalar("ddf", 0, 100) if k["ddf"] else None
    c.snow.melt.albedo_factor = env.scalar("af", 0, 100) if k["af"] else None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = env.call(conf.validate_config, c, raises=(errors.ConfigurationError,))
    bad = (k["model"] == "multilayer" and k["melt"] != "energy_balance") or (k["melt"] != "energy_balance" and not k["ddf"]) \
        or (k["melt"] == "enhanced_temperature_index" and not k["af"])
    env.ensure("refused exactly if unsupported or incomplete", isinstance(r, errors.ConfigurationError) == bad)
