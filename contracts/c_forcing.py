"""
Meteorological forcing (C30): the model is driven by exactly the station records of the
requested stations, period and time step.
"""

import os
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd
import xarray as xr

from openamundsen import errors, forcing, util
from openamundsen.fileio import meteo as M
from pyvc import core
from pyvc.unit import unit

from .e2e import CRS, RES, X0, Y0

DAY = pd.Timedelta("24h")
TD = {"10min": "10min", "30min": "30min", "h": "1h", "60min": "1h", "1h": "1h", "2h": "2h", "3h": "3h", "6h": "6h",
      "H": "1h", "12h": "12h", "D": "24h", "24h": "24h", "1D": "24h", "d": "24h", "90min": "90min", "5h": "5h"}
ALL = ["temp", "precip", "rel_hum", "wind_speed", "wind_dir", "wind_speed_gust"]


# --------------------------------------------------------------------------- value filters


class Series:
    """A time series in the role of an xarray.DataArray: one generic record."""

    def __init__(self, env, arr):
        self.env, self.arr = env, arr

    def copy(self, deep=False):
        return Series(self.env, self.arr.copy())

    def __lt__(self, o):
        return self.arr < o

    def __gt__(self, o):
        return self.arr > o

    def __le__(self, o):
        return self.arr <= o

    def __ge__(self, o):
        return self.arr >= o

    def __setitem__(self, k, v):
        self.arr[k] = v

    def where(self, cond, other=np.nan):
        out = self.arr.copy()
        out[~cond] = other
        return Series(self.env, out)

    def __getattr__(self, name):
        raise core.EngineError(f"time series: {name}")


@unit("C30", ["meteo._apply_filter", "meteo._apply_filters"],
      [dict(which=w, in_roi=True) for w in ("min", "max", "both", "none")])
def range_filter(env):
    """Records outside the range are discarded, all others are unchanged; the input is not modified."""
    a = env.grid("record", lo=-1e4, hi=1e4, nan=True)
    lo, hi = env.scalar("min", -1e3, 1e3), env.scalar("max", -1e3, 1e3)
    f = dict(filter="range", var="temp")
    w = env.case["which"]
    if w in ("min", "both"):
        f["min"] = lo
    if w in ("max", "both"):
        f["max"] = hi
    if env.symbolic:
        s = Series(env, a.copy())
        out = env.call(M._apply_filter, s, f).arr
        src = s.arr
    else:
        ds = xr.Dataset({"temp": ("time", a.ravel().copy()), "precip": ("time", a.ravel().copy())})
        r = env.call(M._apply_filters, ds, [f, dict(filter="range", var="rel_hum", min=0)])
        out, src = r["temp"].values.reshape(a.shape), ds["temp"].values.reshape(a.shape)
        env.ensure("other variables unchanged", bool(np.array_equal(r["precip"].values, a.ravel(), equal_nan=True)))
    bad = env.lt(a, -1e9)
    if "min" in f:
        bad = env.or_(bad, env.lt(a, lo))
    if "max" in f:
        bad = env.or_(bad, env.gt(a, hi))
    env.ensure("out of range: discarded", env.implies(bad, env.isnan(out)))
    env.ensure("otherwise unchanged", env.implies(env.not_(bad), env.eqv(out, a)))
    env.ensure("input not modified", env.eqv(src, a))


# --------------------------------------------------------------------------- stations


@unit("C30", ["meteo._apply_station_rules"], sym=False,
      cases=[dict(bounded="up to 6 stations")])
def station_rules(env):
    rng = np.random.default_rng(int(env.scalar("seed", 0, 2**31 - 1, integer=True)))
    n = int(rng.integers(1, 7))
    ids = [f"s{k}" for k in range(n)]
    x, y = rng.integers(0, 5, n).astype(float), rng.integers(0, 5, n).astype(float)
    meta = pd.DataFrame(dict(name=[i.upper() for i in ids], x=x, y=y, alt=rng.random(n)), index=ids)
    b = None
    if rng.random() < 0.7:
        p, q = np.sort(rng.integers(0, 6, (2, 2)).astype(float), axis=0)
        b = (p[0], p[1], q[0], q[1])
    pick = lambda: [str(i) for i in rng.choice(ids + (["zz"] if rng.random() < 0.2 else []), size=int(rng.integers(0, n + 1)))]
    exc = pick() if rng.random() < 0.6 else None
    inc = pick() if rng.random() < 0.6 else None
    ref = meta.copy()
    got = env.call(M._apply_station_rules, meta, b, None if exc is None else list(exc), None if inc is None else list(inc),
                   raises=(errors.MeteoDataError,))
    env.ensure("station list not modified", meta.equals(ref))
    if inc is not None and "zz" in inc:
        env.ensure("unknown stations to include are refused", isinstance(got, errors.MeteoDataError))
        return
    want = []
    for k, i in enumerate(ids):
        ok = b is None or (b[0] <= x[k] < b[2] and b[1] <= y[k] < b[3])
        ok = ok and not (exc is not None and i in exc)
        if ok or (inc is not None and i in inc):
            want.append(i)
    env.ensure("stations within the bounds, not excluded, or included", sorted(got.index) == want)
    env.ensure("each once, with its own metadata", got.loc[want].equals(ref.loc[want]))


# --------------------------------------------------------------------------- slicing and resampling


def vecdir(g):
    """Direction of the mean wind vector of the records g."""
    if "wind_speed" not in g:
        return np.nan
    ws, wd = g["wind_speed"].to_numpy(), np.radians(g["wind_dir"].to_numpy())
    u, v = -ws * np.sin(wd), -ws * np.cos(wd)
    if np.all(np.isnan(u)):
        return np.nan
    u, v = np.nanmean(u), np.nanmean(v)
    return np.degrees(np.arctan2(-u, -v)) % 360.0


def resampled(df, start, end, td, agg):
    """
    Reference: the time steps d of the requested period that lie within the records, each with the
    records it stands for: those of (d - td, d] for sub-daily steps, those of (d, d + 24 h] for
    daily steps made of sub-daily records.  None: not a subset of the record times.
    """
    rec = df.index[1] - df.index[0]
    daily = td == DAY and rec < td
    if rec == td:
        return df.loc[start:end]
    lim = end + DAY if daily else end
    df = df.loc[start - DAY:lim]
    if len(df) == 0:
        return df
    dates = pd.date_range(start, end, freq=td)
    dates = dates[(dates >= df.index[0]) & ((dates < df.index[-1]) if daily else (dates <= df.index[-1]))]
    if not dates.isin(df.index).all():
        return None
    rows = []
    for d in dates:
        g = df[(df.index > d) & (df.index <= d + td)] if daily else df[(df.index > d - td) & (df.index <= d)]
        r = {}
        for v in df.columns:
            if v == "precip":
                r[v] = g[v].sum(skipna=False) if len(g) else np.nan
            elif v == "wind_speed_gust":
                r[v] = g[v].max() if len(g) else np.nan
            elif not (agg or daily):
                r[v] = df.loc[d, v]
            elif v == "wind_dir":
                r[v] = vecdir(g) if len(g) else np.nan
            else:
                r[v] = g[v].mean() if len(g) else np.nan
        rows.append(r)
    return pd.DataFrame(rows, index=dates, columns=df.columns, dtype=float)


def same(a, b, angle=False):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape or not np.array_equal(np.isnan(a), np.isnan(b)):
        return False
    d = np.abs(a - b)
    if angle:
        d = np.minimum(d, 360.0 - d)
    return bool(np.all(np.isnan(d) | (d <= 1e-6 * (1.0 + np.abs(b)))))


def records(rng, start, f0, n, variables=None, gaps=True):
    idx = pd.date_range(start, periods=n, freq=TD[f0])
    if variables is None:
        variables = [v for v in ALL if rng.random() < 0.8] or ["temp"]
    df = pd.DataFrame({v: rng.random(n) * 10.0 for v in variables}, index=idx)
    if "wind_dir" in df:
        df["wind_dir"] = rng.integers(0, 72, n) * 5.0
    if "wind_speed" in df:
        df["wind_speed"] += 0.5
    if gaps and rng.random() < 0.4:
        df = df.mask(rng.random(df.shape) < rng.choice([0.05, 0.5]))
    return df


def request(rng):
    f0 = str(rng.choice(["10min", "30min", "h", "2h", "3h", "D"]))
    fr = str(rng.choice(["30min", "h", "1h", "60min", "2h", "3h", "6h", "12h", "D", "D", "24h", "1D", "d", "90min", "5h"]))
    td, rec = pd.Timedelta(TD[fr]), pd.Timedelta(TD[f0])
    start = pd.Timestamp(str(rng.choice(["2020-01-03", "2019-12-31", "2020-02-28"]))) + pd.Timedelta(
        hours=int(rng.choice([0, 0, 0, 0, 3, 6, 7])))
    end = start + int(rng.integers(0, min(30, pd.Timedelta("6D") // td))) * td
    return f0, fr, rec, td, start, end


@unit("C30", ["meteo._slice_and_resample_dataset", "meteo._resample_dataset", "meteo._aggregate_wind_dir"], sym=False, w=4,
      cases=[dict(bounded="records of up to 400 time steps, requests of up to 30")])
def resample(env):
    rng = np.random.default_rng(int(env.scalar("seed", 0, 2**31 - 1, integer=True)))
    f0, fr, rec, td, start, end = request(rng)
    agg = bool(rng.random() < 0.5)
    off = rec * int(rng.integers(-60, 20)) if rng.random() < 0.8 else pd.Timedelta("24h") * int(rng.integers(-4, 2))
    first = (start if rec < DAY else start.normalize()) + off
    if rng.random() < 0.1:
        first += rec / 2
    df = records(rng, first, f0, int(rng.integers(3, 400)))
    ds = forcing.make_point_dataset(df, point_id="a", name="b", lon=11.0, lat=47.0, alt=1500.0)
    ds0 = ds.copy(deep=True)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = env.call(M._slice_and_resample_dataset, ds, start, end, fr, aggregate=agg, raises=(errors.MeteoDataError,))
    want = resampled(df, start, end, td, agg)
    if want is None:
        env.ensure("frequencies that are not a subset of the records are refused", isinstance(got, errors.MeteoDataError))
        return
    env.ensure("accepted", not isinstance(got, Exception))
    n = len(want)
    t = got.indexes["time"]
    sel = (t >= start) & (t <= end)
    env.ensure("time steps of the period within the records", bool(sel.all()) and list(t) == list(want.index))
    if n == 0:
        return
    for v in df.columns:
        env.ensure(f"{v}: sums, means, maxima or instantaneous values of the right records",
                   same(got[v].values, want[v].to_numpy(), angle=(v == "wind_dir")))
    env.ensure("station metadata kept", float(got.lon) == 11.0 and float(got.lat) == 47.0 and float(got.alt) == 1500.0
               and got.attrs.get("station_id") == "a" and got.attrs.get("station_name") == "b")
    env.ensure("records not modified", ds.equals(ds0))


@unit("C30", ["meteo._slice_and_resample_dataset"], sym=False, cases=[dict(bounded="records of up to 60 time steps")])
def irregular(env):
    """Records with missing or irregular time steps are refused."""
    rng = np.random.default_rng(int(env.scalar("seed", 0, 2**31 - 1, integer=True)))
    f0, fr, rec, td, start, end = request(rng)
    df = records(rng, start, f0, int(rng.integers(5, 60)))
    k = int(rng.integers(1, len(df) - 1))
    if rng.random() < 0.5:
        df = df.drop(df.index[k])
    else:
        df.index = df.index[:k].append(df.index[k:] + rec / 2)
    ds = forcing.make_point_dataset(df, point_id="a", name="b", lon=11.0, lat=47.0, alt=1500.0)
    got = env.call(M._slice_and_resample_dataset, ds, start, end, fr, aggregate=bool(rng.random() < 0.5),
                   raises=(errors.MeteoDataError,))
    env.ensure("refused", isinstance(got, errors.MeteoDataError))


# --------------------------------------------------------------------------- single stations


@unit("C30", ["forcing.make_point_dataset", "forcing.make_empty_point_dataset"], sym=False,
      cases=[dict(bounded="records of up to 40 time steps")])
def units(env):
    """Values are taken over unchanged in the expected units; rates and fractions are converted."""
    rng = np.random.default_rng(int(env.scalar("seed", 0, 2**31 - 1, integer=True)))
    f0 = str(rng.choice(["10min", "h", "3h", "D"]))
    n = int(rng.integers(3, 40))
    df = records(rng, "2020-02-27", f0, n)
    cf = rng.choice(["no", "percent", "fraction", "small percent"])
    if cf != "no":
        df["cloud_fraction"] = rng.random(n) * (100.0 if cf == "percent" else 1.0)
        df.loc[df.index[0], "cloud_fraction"] = 100.0 if cf == "percent" else 1.0
    df["unknown"] = 1.0
    kind = str(rng.choice(["frame", "dataset"]))
    attrs = {}
    bad = False
    src = df.copy()
    if kind == "dataset":
        d = df.copy()
        d.index.name = "time"
        src = d.to_xarray()
        src["lon"], src["lat"], src["alt"] = 11.0, 47.0, 1234.0
        ref = {"temp": "K", "precip": "kg m-2", "rel_hum": "%", "wind_speed": "m s-1", "wind_dir": "degree",
               "wind_speed_gust": "m s-1", "cloud_fraction": "%"}
        for v in df.columns:
            if v in ref and rng.random() < 0.5:
                u = ref[v]
                if v == "precip" and rng.random() < 0.5:
                    u = "kg m-2 s-1"
                elif v == "cloud_fraction":
                    u = "1" if cf == "fraction" else "%"
                elif rng.random() < 0.1:
                    u, bad = "furlong", True
                src[v].attrs["units"] = attrs[v] = u
    kw = dict(lon=11.0, lat=47.0, alt=1234.0) if kind == "frame" else {}
    if rng.random() < 0.5:
        kw["name"] = "N"
    before = src.copy(deep=True)
    got = env.call(forcing.make_point_dataset, data=src, point_id="p", raises=(errors.MeteoDataError,), **kw)
    if bad:
        env.ensure("unexpected units are refused", isinstance(got, errors.MeteoDataError))
        return
    env.ensure("accepted", not isinstance(got, Exception))
    env.ensure("records not modified", bool(src.equals(before)))
    env.ensure("times", list(got.indexes["time"]) == list(df.index))
    env.ensure("known variables only", set(got.data_vars) - {"lon", "lat", "alt"} == set(df.columns) - {"unknown"})
    env.ensure("metadata", (float(got.lon), float(got.lat), float(got.alt)) == (11.0, 47.0, 1234.0)
               and got.attrs["station_id"] == "p" and got.attrs["station_name"] == kw.get("name", "p"))
    for v in df.columns:
        if v == "unknown":
            continue
        f = 1.0
        if v == "precip" and attrs.get(v) == "kg m-2 s-1":
            f = pd.Timedelta(TD[f0]).total_seconds()
        if v == "cloud_fraction" and (attrs.get(v) == "1" or (v not in attrs and n > 10 and cf in ("fraction", "small percent"))):
            f = 100.0
        env.ensure(f"{v} in the expected units", same(got[v].values, df[v].to_numpy() * f))


@unit("C30", ["forcing.combine_point_datasets"], sym=False, cases=[dict(bounded="up to 4 stations, 30 time steps")])
def combine(env):
    """Every station keeps its own values at its own times; all other entries are no data."""
    rng = np.random.default_rng(int(env.scalar("seed", 0, 2**31 - 1, integer=True)))
    dss, dfs = [], []
    for k in range(int(rng.integers(1, 5))):
        df = records(rng, pd.Timestamp("2020-02-28") + pd.Timedelta(hours=int(rng.integers(0, 12))), "h", int(rng.integers(3, 30)))
        dfs.append(df)
        dss.append(forcing.make_point_dataset(df, point_id=f"s{k}", name=f"n{k}", lon=11.0 + k, lat=47.0, alt=1000.0 * k))
    c = env.call(forcing.combine_point_datasets, dss)
    check_stations(env, c, {f"s{k}": (dfs[k], f"n{k}", 1000.0 * k) for k in range(len(dfs))})
    t = pd.DatetimeIndex([])
    for df in dfs:
        t = t.union(df.index)
    env.ensure("all times, in order", list(c.indexes["time"]) == list(t))
    env.ensure("valid", bool(env.call(forcing.is_valid_point_dataset, c, dates=t)) is True)
    env.ensure("other dates are not valid", bool(env.call(forcing.is_valid_point_dataset, c, dates=t[1:])) is False)
    env.ensure("missing variables are not valid",
               bool(env.call(forcing.is_valid_point_dataset, c.drop_vars(str(rng.choice(["temp", "precip", "alt"]))))) is False)


def check_stations(env, c, want):
    env.ensure("all stations", sorted(c.station.values) == sorted(want))
    allv = {"temp", "precip", "rel_hum", "sw_in", "wind_speed"} | {v for df, *_ in want.values() for v in df.columns}
    for s, (df, name, alt) in want.items():
        d = c.sel(station=s)
        env.ensure("name and altitude of the station", str(d.station_name.values) == name and abs(float(d.alt) - alt) < 1e-9)
        env.ensure("all variables", all(v in d for v in allv))
        for v in sorted(allv):
            r = df[v] if v in df else pd.Series(np.nan, index=df.index)
            env.ensure(f"{v} of the station at its own times",
                       same(d[v].values, r.reindex(c.indexes["time"]).to_numpy(dtype=float), angle=(v == "wind_dir")))


# --------------------------------------------------------------------------- reading files


@unit("C30", ["meteo.read_meteo_data", "meteo._read_meteo_metadata", "meteo.read_csv_meteo_file", "meteo.read_netcdf_meteo_file",
              "util.transform_coords"],
      [dict(format=f, bounded="up to 3 stations, records of up to 200 time steps") for f in ("csv", "netcdf")], sym=False, w=4)
def read(env):
    rng = np.random.default_rng(int(env.scalar("seed", 0, 2**31 - 1, integer=True)))
    fmt = env.case["format"]
    while True:
        f0, fr, rec, td, start, end = request(rng)
        if td >= rec and (td / rec) % 1 == 0 and not (rec == DAY and start.hour):
            break
    agg = bool(rng.random() < 0.5)
    n = int(rng.integers(1, 4))
    full = (end - start) // rec + 1 + 2 * (DAY // rec + 1)
    xs, ys = X0 + RES * rng.integers(-20, 20, n), Y0 + RES * rng.integers(-20, 20, n)
    alts = np.round(1000.0 + 500.0 * rng.random(n), 1)
    missing = bool(rng.random() < 0.5)
    lack = ""
    scratch = tempfile.mkdtemp(prefix="oaforcing-")
    try:
        dfs, want = [], {}
        crs = "epsg:4326" if fmt == "csv" and rng.random() < 0.3 else CRS
        lon, lat = util.transform_coords(xs, ys, CRS, "epsg:4326")
        for k in range(n):
            before = DAY // rec + 1
            first = start - before * rec
            cnt = int(full)
            if rng.random() < 0.3:  # late start or early end
                cut = int(rng.integers(0, cnt))
                if rng.random() < 0.5:
                    first, cnt = first + cut * rec, cnt - cut
                else:
                    cnt -= cut
            df = records(rng, first, f0, max(3, cnt))
            dfs.append(df)
            if fmt == "csv":
                df.round(9).to_csv(os.path.join(scratch, f"st{k}.csv"), index_label="time")
                dfs[k] = df.round(9)
            else:
                d = df.copy()
                d.index.name = "time"
                ds = d.to_xarray()
                rate = bool(rng.random() < 0.5)
                if "precip" in ds and rate:
                    ds["precip"] = ds["precip"] / rec.total_seconds()
                    ds["precip"].attrs["units"] = "kg m-2 s-1"
                if "temp" in ds:
                    ds["temp"].attrs["units"] = "K"
                ds["lon"], ds["lat"], ds["alt"] = float(lon[k]), float(lat[k]), float(alts[k])
                ds.attrs["station_name"] = f"n{k}"
                ren = dict(temp="tas", precip="pr", rel_hum="hurs", wind_speed="wss")
                ds.rename({a: b for a, b in ren.items() if a in ds}).to_netcdf(os.path.join(scratch, f"st{k}.nc"))
        if fmt == "csv":
            px, py = (xs, ys) if crs == CRS else (lon, lat)
            meta = pd.DataFrame(dict(id=[f"st{k}" for k in range(n)], name=[f"n{k}" for k in range(n)], x=px, y=py, alt=alts))
            lack = str(rng.choice(["", "", "", "", "", "", "file", "name", "x", "y", "alt"]))
            if lack in meta:
                meta = meta.drop(columns=lack)
            if lack != "file":
                meta.to_csv(os.path.join(scratch, "stations.csv"), index=False)
        b = None
        if rng.random() < 0.4:
            b = (X0 - RES * 10.5, Y0 - RES * 10.5, X0 + RES * 12.5, Y0 + RES * 12.5)
        flt = [dict(filter="range", var="temp", min=2.0, max=8.0)] if rng.random() < 0.3 else None
        exc = ["st0"] if rng.random() < 0.2 else None
        inc = ["st0"] if rng.random() < 0.1 else None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = env.call(M.read_meteo_data, fmt, scratch, start, end, meteo_crs=crs, grid_crs=CRS, bounds=b, exclude=exc,
                           include=inc, filters=flt, freq=fr, aggregate=agg, raise_on_missing_data=not missing,
                           raises=(errors.MeteoDataError,))
        if lack:
            env.ensure("missing station metadata are reported", isinstance(got, errors.MeteoDataError))
            return
        dates = pd.date_range(start, end, freq=td)
        keep = [k for k in range(n) if (inc and k == 0) or ((b is None or (b[0] <= xs[k] < b[2] and b[1] <= ys[k] < b[3]))
                                                            and not (exc and k == 0))]
        times = pd.DatetimeIndex([])
        refused = not keep
        for k in keep:
            df = dfs[k]
            if flt and "temp" in df:
                df = df.copy()
                df["temp"] = df["temp"].where((df["temp"] >= 2.0) & (df["temp"] <= 8.0))
            r = resampled(df, start, end, td, agg)
            if r is None:
                refused = True
            elif len(r):
                want[f"st{k}"] = (r, f"n{k}", alts[k])
                times = times.union(r.index)
        covered = dates.isin(times).all()
        if refused or (not covered and not missing):
            env.ensure("missing stations, records or periods are reported", isinstance(got, errors.MeteoDataError))
            return
        env.ensure("accepted", not isinstance(got, Exception))
        env.ensure("exactly the time steps of the model run", list(got.indexes["time"]) == list(dates))
        check_stations(env, got, want)
        for s in want:
            k = int(s[2:])
            d = got.sel(station=s)
            env.ensure("coordinates of the station", abs(float(d.lon) - lon[k]) < 1e-6 and abs(float(d.lat) - lat[k]) < 1e-6)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
