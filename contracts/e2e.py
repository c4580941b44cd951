"""Small complete model runs of the real code (runtime contract checks of whole runs)."""

import os
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd
import rasterio
import xarray as xr

import openamundsen as oa
from openamundsen import conf, constants, forcing, util
from pyvc import core

from .common import _merge

X0, Y0, RES = 640000.0, 5190000.0, 50.0
CRS = "epsg:32632"


def write_grid(dirname, kind, arr, domain="test"):
    """ESRI ASCII grid (written here, independently of the code under check)."""
    arr = np.asarray(arr)
    isint = np.issubdtype(arr.dtype, np.integer) or arr.dtype == bool
    a = arr.astype(int) if isint else np.where(np.isnan(arr), -9999.0, arr)
    with open(os.path.join(dirname, f"{kind}_{domain}_50.asc"), "w") as fh:
        fh.write(f"ncols {a.shape[1]}\nnrows {a.shape[0]}\nxllcorner {X0}\n"
                 f"yllcorner {Y0 - a.shape[0] * RES}\ncellsize 50\nNODATA_value -9999\n")
        for row in a:
            fh.write(" ".join(str(v) if isint else repr(float(v)) for v in row) + "\n")


def stations(dates, xs, ys, zs, data):
    """Point forcing dataset; data: var -> (station, time) array."""
    dss = []
    lon, lat = util.transform_coords(np.array(xs), np.array(ys), CRS, "epsg:4326")
    for k in range(len(xs)):
        df = pd.DataFrame({v: data[v][k] for v in data}, index=dates)
        dss.append(forcing.make_point_dataset(df, point_id=f"s{k}", name=f"s{k}", lon=float(lon[k]),
                                              lat=float(lat[k]), alt=float(zs[k])))
    return forcing.combine_point_datasets(dss)


def random_setup(rng, rows=None, cols=None, nsteps=4, timestep="3h", start="2020-02-29", winter=True):
    rows = rows or int(rng.integers(2, 4))
    cols = cols or int(rng.integers(2, 5))
    dem = 2000.0 + 400.0 * rng.random((rows, cols))
    if rng.random() < 0.3:
        dem[rng.random((rows, cols)) < 0.2] = np.nan
    roi = rng.random((rows, cols)) < 0.8
    dem[0, 0] = 2100.0
    roi[0, 0] = True
    dates = pd.date_range(start, periods=nsteps, freq=timestep)
    ns = int(rng.integers(1, 4))
    xs = X0 + RES * cols * (rng.random(ns) * 1.4 - 0.2)
    ys = Y0 - RES * rows * (rng.random(ns) * 1.4 - 0.2)
    # distinct elevations: the vertical gradients of the station data stay in a physical range
    zs = 1900.0 + 250.0 * rng.permutation(ns) + 100.0 * rng.random(ns)
    t0 = 268.0 if winter else 284.0
    shp = (ns, nsteps)
    data = dict(
        temp=t0 + 6.0 * rng.standard_normal(nsteps) - 0.006 * (zs[:, None] - 2000.0) + 0.5 * rng.random(shp),
        precip=np.where(rng.random(nsteps) < 0.4, 0.0, 20.0 * rng.random(nsteps) * (1 + 0.2 * rng.random(shp))),
        rel_hum=np.clip(rng.uniform(20, 100, nsteps) + 5 * rng.random(shp), 0, 100),
        wind_speed=rng.uniform(0, 12, nsteps) * (1 + 0.3 * rng.random(shp)),
        sw_in=rng.uniform(0, 500, nsteps) * (1 + 0.1 * rng.random(shp)),
        wind_dir=rng.uniform(0, 360, shp),
    )
    return dict(rows=rows, cols=cols, dem=dem, roi=roi, dates=dates, xs=xs, ys=ys, zs=zs, data=data,
                timestep=timestep,
                lc=rng.choice([1, 4, 5, 0], size=(rows, cols)) if rows else None,
                soil=rng.integers(1, 13, size=(rows, cols)),
                glac=rng.integers(0, 3, size=(rows, cols)))


class Run:
    """Context manager: an initialised model of the real code in a scratch directory."""

    def __init__(self, setup, **over):
        self.setup, self.over = setup, over

    def __enter__(self):
        s = self.setup
        self.dir = tempfile.mkdtemp(prefix="oae2e-")
        write_grid(self.dir, "dem", s["dem"])
        write_grid(self.dir, "roi", s["roi"])
        write_grid(self.dir, "svf", np.where(np.isnan(s["dem"]), np.nan, 0.9))
        write_grid(self.dir, "lc", s["lc"])
        write_grid(self.dir, "soil", s["soil"])
        write_grid(self.dir, "glaciers", s["glac"])
        base = dict(
            domain="test", start_date=str(s["dates"][0]), end_date=str(s["dates"][-1]), resolution=50,
            timestep=s["timestep"], crs=CRS, timezone=1, results_dir=os.path.join(self.dir, "results"),
            input_data=dict(grids=dict(dir=self.dir), meteo=dict(format="memory")),
            output_data=dict(timeseries=dict(format="memory", add_default_points=False),
                             grids=dict(format="memory")),
            enable_default_logging=False,
        )
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cfg = _merge(base, self.over)
            self.model = oa.OpenAmundsen(conf.Configuration.fromDict(cfg))
            self.model.initialize(meteo=stations(s["dates"], s["xs"], s["ys"], s["zs"], s["data"]))
        return self.model

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def state_arrays(m):
    return {f"{c}.{n}": np.array(m.state[c][n]) for c in m.state.categories for n in m.state[c]._meta}
