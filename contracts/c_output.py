"""
Outputs: gridded output (C18) and point time series (C19) report exactly the values of the
state variables of the time steps and pixels they name.
"""

import glob
import os
import warnings
from types import SimpleNamespace

import numpy as np
import pandas as pd
import rasterio
import xarray as xr

from openamundsen import errors, util
from openamundsen.fileio import griddedoutput as GO
from openamundsen.fileio import pointoutput as PO
from pyvc.unit import unit

from . import e2e
from .common import fill_state, make_model

# --------------------------------------------------------------------------- aggregation step

VARS = {2: "meteo.precip", 3: "snow.thickness"}


def output_model(env, variables, layout="grid", steps=4):
    m = make_model(env, snow=dict(model="multilayer", min_thickness=[0.1, 0.2]),
                   output_data=dict(grids=dict(format="memory", layout=layout, variables=variables)))
    m.dates = pd.date_range("2020-01-01", periods=steps, freq="3h")
    m.timestep = 3 * 3600.0
    m.date = m.dates[0]
    m.grid.transform = rasterio.transform.from_origin(0, 100, 50, 50)
    m.grid.crs = "epsg:32632"
    return m


def memory(env, mgr, dim, n):
    """The in-memory output arrays (initially no data)."""
    if not env.symbolic:
        return mgr
    lay = 2 if dim == 3 else None
    arrs = [env.const_grid(np.nan, layers=lay) for _ in range(n)]

    class Values:
        def __setitem__(self, key, val):
            arrs[int(key[0])] = val

        def __getitem__(self, key):
            return arrs[int(key)]

    mgr.data = {"out": SimpleNamespace(values=Values())}
    return mgr


def written(env, mgr, k):
    return mgr.data["out"].values[k]


AGG = [dict(agg=a, dim=d, in_roi=r) for a in (None, "sum", "mean") for d in (2, 3) for r in (True, False)]
SEQ = [dict(c, steps=n, bounded=f"intervals of {n} time steps") for c in AGG for n in (1, 2, 3)]


def sequence(env, n, agg, dim):
    """n steps without a write date before, then a write date; and the interval after it."""
    var = VARS[dim]
    dates = pd.date_range("2020-01-01", periods=2 * n + 1, freq="3h")
    wd = [dates[n - 1], dates[2 * n - 1]]
    v = {"var": var, "name": "out", "dates": [str(d) for d in wd]}
    if agg:
        v["agg"] = agg
    m = output_model(env, [v], steps=2 * n + 1)
    mgr = memory(env, env.call(GO.GriddedOutputManager, m), dim, 2)
    lay = m.state.meta(var).dim3 or None
    cat, name = var.split(".")
    got, vals = [], []
    for k in range(2 * n):
        a = env.grid(f"value{k}", lo=-1e3, hi=1e3, layers=lay)
        vals.append(env.old(a))
        m.state[cat][name] = a
        m.date = dates[k]
        env.call(mgr.update)
        env.ensure("the state variable is not modified", env.same(env.sel(a), env.sel(vals[-1])))
        if dates[k] in wd:
            got.append(written(env, mgr, wd.index(dates[k])))
    for i in (0, 1):
        part = vals[i * n:(i + 1) * n]
        o, s = env.sel(got[i]), env.sel
        if agg is None:
            env.ensure("the field of the write date is written", env.eqv(o, s(part[-1]), scale=1.0, rtol=1e-6))
        elif env.in_roi or not env.symbolic:
            tot = sum(s(q) for q in part)
            if not env.symbolic and not env.in_roi:
                env.ensure("no data outside the region of interest", env.isnan(o))
                continue
            ref = tot if agg == "sum" else tot / float(n)
            env.ensure(f"{agg} over the time steps since the previous write date", env.eqv(o, ref, scale=1e3, rtol=1e-6))
        else:
            env.ensure("no data outside the region of interest", env.isnan(o))


@unit("C18", ["GriddedOutputManager.update", "GriddedOutputManager.__init__"], SEQ, w=2)
def intervals(env):
    sequence(env, env.case["steps"], env.case["agg"], env.case["dim"])


@unit("C18", ["GriddedOutputManager.update"], [dict(c, write=w) for c in AGG if c["agg"] and c["in_roi"] for w in (False, True)],
      conc=False, fallback=SEQ)
def aggregation_step(env):
    """Inductive step, for intervals of any length: k steps aggregated so far."""
    if "steps" in env.case:
        return sequence(env, env.case["steps"], env.case["agg"], env.case["dim"])
    agg, dim = env.case["agg"], env.case["dim"]
    dates = pd.date_range("2020-01-01", periods=3, freq="3h")
    m = output_model(env, [{"var": VARS[dim], "name": "out", "agg": agg, "dates": [str(dates[1])]}], steps=3)
    mgr = memory(env, env.call(GO.GriddedOutputManager, m), dim, 1)
    lay = m.state.meta(VARS[dim]).dim3 or None
    f = mgr.fields[0]
    k = env.scalar("aggregated", 1, 10**6, integer=True)
    total = env.grid("total", lo=-1e9, hi=1e9, layers=lay)
    cur = env.grid("current", lo=-1e6, hi=1e6, layers=lay)
    s = env.sel
    # invariant: data == aggregate of the k values whose total is given
    inv = (lambda data, t, n: env.eqv(s(data), t) if agg == "sum" else env.eqv(s(data) * n, t))
    f.num_aggregations = k
    f.data = env.old(total) if agg == "sum" else total / (k * 1.0)
    m.date = dates[1] if env.case["write"] else dates[0]
    cat, name = VARS[dim].split(".")
    m.state[cat][name] = cur
    env.call(mgr.update)
    if not env.in_roi:
        return
    if env.case["write"]:
        env.ensure("aggregate of the interval written", inv(written(env, mgr, 0), s(total) + s(cur), k + 1))
        env.ensure("the next interval starts anew", f.data is None and f.num_aggregations == 0)
    else:
        env.ensure("aggregate of k + 1 steps", env.and_(inv(f.data, s(total) + s(cur), k + 1),
                                                      env.eq(f.num_aggregations, k + 1)))


@unit("C18", ["GriddedOutputManager.update"], [dict(agg=a, dim=d, bounded="intervals of 40-400 time steps") for a in ("sum", "mean") for d in (2, 3)],
      sym=False)
def long_intervals(env):
    """Sums and means over long intervals are those of the values, up to the rounding of the written field."""
    agg, dim = env.case["agg"], env.case["dim"]
    n = int(env.choice("steps", [40, 150, 400]))
    dates = pd.date_range("2020-01-01", periods=n, freq="3h")
    m = output_model(env, [{"var": VARS[dim], "name": "out", "agg": agg, "dates": [str(dates[-1])]}], steps=n)
    mgr = env.call(GO.GriddedOutputManager, m)
    lay = m.state.meta(VARS[dim]).dim3 or None
    first, scale = env.grid("first", lo=0, hi=1e7, layers=lay), env.grid("scale", lo=0.01, hi=0.5, layers=lay)
    cat, name = VARS[dim].split(".")
    vals = []
    for k, d in enumerate(dates):
        a = first if k == 0 else scale * (1 + k % 7)
        vals.append(a)
        m.state[cat][name] = np.array(a)
        m.date = d
        env.call(mgr.update)
    a = np.stack(vals)
    ref = a.sum(axis=0) if agg == "sum" else a.mean(axis=0)
    got = np.asarray(mgr.data["out"].values[0], dtype=float)
    r = m.grid.roi
    env.ensure(f"{agg} of the values", bool(np.allclose(got[..., r], ref[..., r], rtol=2e-7, atol=0)))


# --------------------------------------------------------------------------- write dates


@unit("C18", ["griddedoutput._freq_write_dates"], sym=False, w=3)
def write_dates(env):
    """Every interval is reported at its first (instantaneous) or last time step, and is complete."""
    step = str(env.choice("step", ["h", "3h", "D", "30min", "2h", "6h"]))
    freq = str(env.choice("freq", ["ME", "MS", "YE", "YS", "D", "h", "3h", "M", "Y", "2D", "12h", "YE-SEP", "d", "24H"]))
    agg = bool(env.choice("agg", [False, True]))
    off = int(env.choice("offset_minutes", [0, 30, 60, 90, 180, 600]))
    day = int(env.scalar("day", 0, 400, integer=True))
    ndays = float(env.scalar("ndays", 0.2, 120))
    td = util.offset_to_timedelta(step)
    start = pd.Timestamp("2019-07-20") + pd.Timedelta(days=day, minutes=off)
    dates = pd.date_range(start, periods=max(1, int(pd.Timedelta(days=ndays) / td)), freq=util.to_offset(step))
    anch = freq[0] in "MY"
    bad = not anch and ((util.offset_to_timedelta(freq) / td) % 1 != 0 or util.offset_to_timedelta(freq) < td)
    w = env.call(GO._freq_write_dates, dates, freq, agg, raises=(ValueError,))
    if bad:
        env.ensure("frequencies that are not multiples of the time step are refused", isinstance(w, ValueError))
        return
    env.ensure("accepted", not isinstance(w, Exception))
    if not anch:
        k = int(util.offset_to_timedelta(freq) / td)
        ref = dates[k - 1::k] if agg else dates[::k]
    else:
        per = "M" if freq[0] == "M" else ("Y-SEP" if "SEP" in freq else "Y")
        p = dates.to_period(per)
        last = np.asarray(p != (dates + td).to_period(per))
        first = np.asarray(p != (dates - td).to_period(per))
        first[0] = (dates[0].normalize() == p[0].start_time)
        ref = dates[last] if agg or freq in ("ME", "YE", "M", "Y", "YE-SEP") else dates[first]
    env.ensure("first/last time steps of the output intervals", list(w) == list(ref))


# --------------------------------------------------------------------------- complete runs

GVARS = [
    dict(var="meteo.temp", name="t_inst"),
    dict(var="meteo.temp", name="t_mean", agg="mean"),
    dict(var="meteo.precip", name="p_sum", agg="sum"),
    dict(var="snow.thickness", name="d_mean", agg="mean"),
    dict(var="snow.thickness", name="d_inst"),
    dict(var="snow.num_layers", name="n_inst"),
    dict(var="snow.num_layers", name="n_mean", agg="mean"),
    dict(var="snow.num_layers", name="n_sum", agg="sum"),
]
FREQS = ["3h", "6h", "12h", "D", "ME"]
FMT = [dict(format=f, layout=la, append=ap, bounded="runs of 9-20 time steps on grids of up to 3x4 pixels")
       for f, la, ap in (("memory", "grid", False), ("memory", "roi_pixel", False), ("netcdf", "grid", False),
                         ("netcdf", "roi_pixel", True), ("netcdf", "grid", True), ("ascii", "grid", False),
                         ("geotiff", "grid", False))]


def reference(dates, freq, agg, step, explicit):
    """[(write date, indices of the time steps it reports, start)]."""
    if explicit is not None:
        idx = [i for i, d in enumerate(dates) if d in explicit]
    elif freq == "ME":
        idx = [i for i, d in enumerate(dates) if (d + step).month != d.month]
    else:
        k = int(pd.Timedelta("24h" if freq == "D" else freq) / step)
        idx = list(range(k - 1, len(dates), k)) if agg else list(range(0, len(dates), k))
    out, prev = [], -1
    for i in idx:
        out.append((dates[i], list(range(prev + 1, i + 1)) if agg else [i], dates[prev + 1]))
        prev = i
    return out


@unit("C18", ["GriddedOutputManager.update", "GriddedOutputManager._create_dataset", "raster.write_raster_file",
              "util.convert_roi_pixel_dataset_to_grid", "OpenAmundsen._process_next_time_step"], FMT, sym=False, w=4)
def gridded_runs(env):
    rng = np.random.default_rng(int(env.scalar("setup_seed", 0, 2**31 - 1, integer=True)))
    n = int(rng.integers(9, 21))
    start = str(rng.choice(["2020-02-28 12:00", "2019-12-30 00:00", "2020-06-29 09:00"]))
    st = e2e.random_setup(rng, nsteps=n, timestep="3h", start=start)
    if rng.random() < 0.3:  # gaps in the station records
        st["data"]["precip"][:, rng.random(n) < 0.2] = np.nan
    dates, step = st["dates"], pd.Timedelta("3h")
    vs, refs = [], {}
    for v in GVARS:
        if rng.random() < 0.25:
            continue
        v = dict(v)
        if rng.random() < 0.2:
            ex = sorted(rng.choice(n, size=int(rng.integers(1, 4)), replace=False))
            v["dates"] = [str(dates[i]) for i in ex]
            r = reference(dates, None, "agg" in v, step, set(dates[ex]))
        else:
            v["freq"] = str(rng.choice(FREQS))
            r = reference(dates, v["freq"], "agg" in v, step, None)
        vs.append(v)
        if r:
            refs[v["name"]] = (v, r)
    fmt, layout = env.case["format"], env.case["layout"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        over = dict(snow=dict(model="multilayer"), output_data=dict(grids=dict(
            format=fmt, layout=layout, append=env.case["append"], compress=bool(rng.random() < 0.5), variables=vs)))
        run = e2e.Run(st, **over)
        try:
            m = env.call(run.__enter__)
            rec = {v["var"]: [] for v in vs}
            for _ in dates:
                env.call(m.run_single)
                for q in rec:
                    rec[q].append(np.array(m.state[q], dtype=float))
            check_fields(env, m, refs, rec, fmt, layout)
        finally:
            run.__exit__()


def expected(v, idx, rec, roi):
    a = np.stack([rec[v["var"]][i] for i in idx])
    if "agg" not in v:
        return a[-1]
    a = a.sum(axis=0) if v["agg"] == "sum" else a.mean(axis=0)
    a[..., ~roi] = np.nan
    return a


def check_fields(env, m, refs, rec, fmt, layout):
    roi = m.grid.roi
    res = str(m.config.results_dir)

    def agree(name, got, want, what=""):
        g, w = np.asarray(got, dtype=float), want
        if name in ("n_inst", "n_sum") and g.shape == w.shape:  # (integer fill value)
            g = np.where(g <= np.iinfo(np.int32).min, np.nan, g)
            if name == "n_inst":
                g, w = g[..., roi], w[..., roi]
        env.ensure(f"output field {what}equals the state of its time steps", bool(
            g.shape == w.shape and np.allclose(g, w, rtol=2e-5 if fmt == "ascii" else 2e-6,
                                               atol=1e-3 if fmt == "ascii" else 1e-4, equal_nan=True)))

    if fmt in ("ascii", "geotiff"):
        files = set(glob.glob(os.path.join(res, "*.asc" if fmt == "ascii" else "*.tif")))
        seen = set()
        for name, (v, r) in refs.items():
            for date, idx, start in r:
                want = expected(v, idx, rec, roi)
                d = f"{start:%Y-%m-%dT%H%M}_{date:%Y-%m-%dT%H%M}" if "agg" in v else f"{date:%Y-%m-%dT%H%M}"
                layers = [(None, want)] if want.ndim == 2 else list(enumerate(want))
                for lay, w in layers:
                    fn = os.path.join(res, f"{name}_{d}." if lay is None else f"{name}_{lay}_{d}.")
                    fn += "asc" if fmt == "ascii" else "tif"
                    env.ensure("a file for every write date and layer", os.path.exists(fn))
                    seen.add(fn)
                    with rasterio.open(fn) as ds:
                        got = ds.read(1).astype(float)
                        t = ds.transform
                        if ds.nodata is not None:
                            got[got == ds.nodata] = np.nan
                    agree(name, got, w)
                    env.ensure("georeferenced", bool(np.allclose(
                        [t.a, t.e, t.c, t.f], [e2e.RES, -e2e.RES, e2e.X0, e2e.Y0])))
        env.ensure("no further files", files == seen)
        return
    if not refs:
        return
    if fmt == "memory":
        ds = m.gridded_output.data
    else:
        with xr.open_dataset(os.path.join(res, "output_grids.nc")) as f:
            ds = f.load()
    if layout == "roi_pixel":
        env.ensure("pixels of the region of interest", bool(np.array_equal(ds.pixel.values, np.flatnonzero(roi))))
        ds = util.convert_roi_pixel_dataset_to_grid(ds)
    env.ensure("coordinates", bool(
        np.allclose(ds.x, e2e.X0 + e2e.RES * (np.arange(roi.shape[1]) + 0.5))
        and np.allclose(ds.y, e2e.Y0 - e2e.RES * (np.arange(roi.shape[0]) + 0.5))))
    env.ensure("all variables", set(ds.data_vars) == set(refs))
    for name, (v, r) in refs.items():
        da = ds[name]
        tv = [d for d in da.dims if d.startswith("time")][0]
        env.ensure("time coordinate: the write dates", list(pd.DatetimeIndex(ds[tv].values)) == [d for d, _, _ in r])
        if "agg" in v:
            b = ds[f"{tv}_bounds"].values
            lo = [m.dates[0]] + [d for d, _, _ in r[:-1]]
            env.ensure("time bounds", bool(
                list(pd.DatetimeIndex(b[:, 0])) == lo and list(pd.DatetimeIndex(b[:, 1])) == [d for d, _, _ in r]))
        for k, (date, idx, _) in enumerate(r):
            want = expected(v, idx, rec, roi)
            if layout == "roi_pixel":
                want[..., ~roi] = np.nan
            agree(name, da.values[k], want)


# --------------------------------------------------------------------------- point outputs


@unit("C19", ["PointOutputManager.update", "PointOutputManager._create_dataset"], conc_cases=[dict(points=p) for p in (1, 2, 3)],
      cases=[dict(points=p, bounded=f"{p} points, grids of 2x2 pixels", pixels=(2, 2)) for p in (1, 2)])
def point_values(env):
    """Each series holds the values of the pixel its point lies in, at the time step of its date."""
    m = output_model(env, [])
    n = env.case["points"]
    rows, cols = env.shape
    mgr = PO.PointOutputManager.__new__(PO.PointOutputManager)
    env.assembled = True
    pts = []
    for k in range(n):
        i, j = int(env.choice(f"row{k}", list(range(rows)))), int(env.choice(f"col{k}", list(range(cols))))
        pts.append(PO.OutputPoint(name=f"p{k}", lon=0.0, lat=0.0, alt=0.0, x=0.0, y=0.0, col=j, row=i))
    mgr.model, mgr.points, mgr.format, mgr.write_dates = m, pts, "memory", []
    mgr.point_rows, mgr.point_cols = [p.row for p in pts], [p.col for p in pts]
    mgr.vars = [PO.PointOutputVariable("meteo.precip", "a"), PO.PointOutputVariable("snow.thickness", "b")]
    a, b = env.grid("a", lo=-1e3, hi=1e3), env.grid("b", lo=-1e3, hi=1e3, layers=2)
    m.state.meteo.precip, m.state.snow.thickness = a, b
    k = int(env.choice("step", [0, 1, 2]))
    m.date = m.dates[k]
    if env.symbolic:
        nd = len(m.dates)
        va, vb = np.full((nd, n), np.nan, dtype=object), np.full((nd, 2, n), np.nan, dtype=object)
        va, vb = env.A.wrap(va), env.A.wrap(vb)
        mgr.data = SimpleNamespace(time=SimpleNamespace(values=m.dates.values),
                                   variables={"a": SimpleNamespace(values=va), "b": SimpleNamespace(values=vb)})
    else:
        mgr.data = None
    env.call(mgr.update)
    if not env.symbolic:
        va, vb = mgr.data["a"].values, mgr.data["b"].values
    for q, p in enumerate(pts):
        env.ensure("value of the pixel", env.eqv(va[k, q], a[p.row, p.col], scale=1.0, rtol=1e-6))
        for lay in (0, 1):
            env.ensure("value of the pixel and layer", env.eqv(vb[k, lay, q], b[lay, p.row, p.col], scale=1.0, rtol=1e-6))
        for t in range(len(m.dates)):
            if t != k:
                env.ensure("nothing written for other time steps", env.isnan(va[t, q]))


PFMT = [dict(format=f, bounded="runs of 9-20 time steps on grids of up to 3x4 pixels") for f in ("memory", "netcdf", "csv")]


@unit("C19", ["PointOutputManager.__init__", "PointOutputManager.update", "PointOutputManager._current_chunk_dates",
              "OpenAmundsen._process_next_time_step"], PFMT, sym=False, w=4)
def point_runs(env):
    rng = np.random.default_rng(int(env.scalar("setup_seed", 0, 2**31 - 1, integer=True)))
    n = int(rng.integers(3, 15))
    start = str(rng.choice(["2020-02-28 12:00", "2019-12-30 00:00", "2020-06-29 09:00"]))
    step = str(rng.choice(["3h", "3h", "h", "5h", "D"]))
    freqs = ["3h", "5h", "6h", "D", "ME", "2D"] if step != "5h" else ["ME", "3h", "D"]
    st = e2e.random_setup(rng, nsteps=n, timestep=step, start=start)
    dates = st["dates"]
    pts = []
    for k in range(int(rng.integers(1, 4))):
        fx, fy = rng.random(2)
        p = dict(x=e2e.X0 + e2e.RES * st["cols"] * fx, y=e2e.Y0 - e2e.RES * st["rows"] * fy)
        if rng.random() < 0.7:
            p["name"] = f"pt{k}"
        pts.append((p, int(st["rows"] * fy), int(st["cols"] * fx), p.get("name", f"point{k + 1}")))
    fmt = env.case["format"]
    default = bool(rng.random() < 0.5)
    ts = dict(format=fmt, write_freq=str(rng.choice(freqs)), add_default_points=default,
              add_default_variables=bool(rng.random() < 0.3), points=[p for p, *_ in pts],
              variables=[dict(var="snow.num_layers", name="nl"), dict(var="meteo.temp", name="tt"),
                         dict(var="snow.thickness", name="dd"), dict(var="snow.swe", name="ss")])
    rec = {"nl": [], "tt": [], "dd": [], "ss": []}
    src = {"nl": "snow.num_layers", "tt": "meteo.temp", "dd": "snow.thickness", "ss": "snow.swe"}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        run = e2e.Run(st, snow=dict(model="multilayer"), output_data=dict(timeseries=ts))
        try:
            m = env.call(run.__enter__)
            if default:  # stations within the region of interest
                for k, (x, y) in enumerate(zip(st["xs"], st["ys"])):
                    i, j = int(np.floor((e2e.Y0 - y) / e2e.RES)), int(np.floor((x - e2e.X0) / e2e.RES))
                    if 0 <= i < st["rows"] and 0 <= j < st["cols"] and m.grid.roi[i, j]:
                        pts.append((None, i, j, f"s{k}"))
            # results are complete up to the last time step processed, whatever was written before
            for _ in dates:
                env.call(m.run_single)
                for q in rec:
                    rec[q].append(np.array(m.state[src[q]], dtype=float))
            res = str(m.config.results_dir)
            data = {}
            if fmt == "csv":
                got = set(os.path.basename(f) for f in glob.glob(os.path.join(res, "*.csv")))
                env.ensure("one file per point", got == {f"point_{p[3]}.csv" for p in pts})
                for _, i, j, name in pts:
                    df = pd.read_csv(os.path.join(res, f"point_{name}.csv"), index_col=0, parse_dates=True)
                    env.ensure("every time step once", list(df.index) == list(dates))
                    for q in rec:
                        c = [q] if q in df else sorted(x for x in df.columns if x[:len(q)] == q and x[len(q):].isdigit())
                        v = df[c].to_numpy(float).T
                        data[name, q] = v[0] if len(c) == 1 and q in df else v
            else:
                if fmt == "memory":
                    ds = m.point_output.data
                else:
                    with xr.open_dataset(os.path.join(res, "output_timeseries.nc")) as f:
                        ds = f.load()
                env.ensure("every time step once", list(ds.indexes["time"]) == list(dates))
                env.ensure("all points", sorted(ds.point.values) == sorted(p[3] for p in pts))
                for _, i, j, name in pts:
                    d = ds.sel(point=name)
                    env.ensure("altitude of the pixel", bool(np.allclose(float(d.alt), st["dem"][i, j], equal_nan=True)))
                    for q in rec:
                        data[name, q] = np.asarray(d[q].transpose(..., "time").values, dtype=float)
            for _, i, j, name in pts:
                for q in rec:
                    want = np.stack([a[..., i, j] for a in rec[q]], axis=-1)
                    got = data[name, q]
                    env.ensure("series holds the values of its pixel", bool(
                        got.shape == want.shape and np.allclose(got, want, rtol=2e-6, atol=1e-6, equal_nan=True)))
        finally:
            run.__exit__()


@unit("C19", ["PointOutputManager.__init__"], sym=False, cases=[dict(bounded="grids of up to 4x5 pixels, up to 3 points")])
def point_positions(env):
    """Points are assigned to the pixel that contains them; points outside the grid and duplicate names are refused."""
    m = output_model(env, [])
    rows, cols = m.grid.rows, m.grid.cols
    m.state.base.dem = env.grid("dem", lo=0, hi=5e3)
    pts, want, ok, names = [], [], True, set()
    for k in range(int(env.choice("points", [1, 2, 3]))):
        fx, fy = env.scalar(f"fx{k}", -0.3, 1.3), env.scalar(f"fy{k}", -0.3, 1.3)
        p = dict(x=50.0 * cols * fx, y=100.0 - 50.0 * rows * fy)
        i, j = int(np.floor((100.0 - p["y"]) / 50.0)), int(np.floor(p["x"] / 50.0))
        if min(abs(p["x"] / 50.0 % 1.0 - 0.5), abs((100.0 - p["y"]) / 50.0 % 1.0 - 0.5)) > 0.4999:
            return  # pixel borders
        ok = ok and 0 <= i < rows and 0 <= j < cols
        name = str(env.choice(f"name{k}", ["", "a", "b"]))
        if name:
            p["name"] = name
        name = name or f"point{k + 1}"
        ok = ok and name not in names
        names.add(name)
        pts.append(p)
        want.append((name, i, j))
    m.config.output_data.timeseries.add_default_points = m.config.output_data.timeseries.add_default_variables = False
    m.config.output_data.timeseries.points = pts
    mgr = env.call(PO.PointOutputManager, m, raises=(errors.ConfigurationError,))
    if not ok:
        env.ensure("points outside the grid or duplicate names are refused", isinstance(mgr, errors.ConfigurationError))
        return
    env.ensure("accepted", not isinstance(mgr, Exception))
    dem = m.state.base.dem
    env.ensure("altitude of the pixel", all(p.alt == dem[i, j] for p, (_, i, j) in zip(mgr.points, want)))
    env.ensure("pixel of every point", [(p.name, p.row, p.col) for p in mgr.points] == want)
