"""Terrain parameters and shadows (C24)."""

import os
import subprocess
import sys

import numpy as np

from openamundsen import terrain
from openamundsen.modules.radiation import shadows as shadow_mod
from openamundsen.modules.radiation import sunparams  # noqa: F401
from pyvc.unit import unit

try:
    shadows = shadow_mod.shadows
except AttributeError:  # the package re-exports the function under the module's name
    shadows = shadow_mod

SYM = [dict(pixels=p, bounded=f"{p[0]}x{p[1]} grid") for p in ((3, 3),)]
WE = {(0, 0): -1, (0, 1): 0, (0, 2): 1, (1, 0): -2, (1, 2): 2, (2, 0): -1, (2, 1): 0, (2, 2): 1}
WN = {(0, 0): 1, (0, 1): 2, (0, 2): 1, (1, 0): 0, (1, 2): 0, (2, 0): -1, (2, 1): -2, (2, 2): -1}
RES = [dict(pixels=(3, 3), cells=c, bounded="3x3 window, resolution 50 m, two cells varying")
       for c in (((0, 1), (0, 2)), ((2, 1), (2, 0)), ((1, 0), (0, 0)), ((1, 2), (2, 2)))]
CONC = [dict(pixels=p) for p in ((3, 3), (3, 4), (5, 4), (6, 7))]


def dem_of(env, name="dem", lo=0, hi=4000):
    def gen(rng, n):
        k = rng.integers(5)
        r, cc = np.divmod(np.arange(n), env.shape[1])
        if k == 0:  # plane
            return 1000 + rng.integers(-20, 21) * r * 5.0 + rng.integers(-20, 21) * cc * 5.0
        if k == 1:  # a single peak or pit
            z = np.full(n, 1500.0)
            z[rng.integers(n)] += rng.choice([-1, 1]) * rng.uniform(1, 800)
            return z
        if k == 2:
            return np.full(n, 2000.0)
        if k == 3:
            return rng.integers(0, 4, size=n) * 100.0
        return 1500 + rng.uniform(-300, 300, size=n)

    return env.grid(name, lo=lo, hi=hi, gen=gen)


def gradient(env, z, res, i, j):
    """Horn's finite differences of the 3x3 window around an interior pixel: d/deast, d/dnorth."""
    w = lambda a, b: z[i + a, j + b]  # noqa: E731
    east = ((w(-1, 1) + 2 * w(0, 1) + w(1, 1)) - (w(-1, -1) + 2 * w(0, -1) + w(1, -1))) / (8 * res)
    north = ((w(-1, -1) + 2 * w(-1, 0) + w(-1, 1)) - (w(1, -1) + 2 * w(1, 0) + w(1, 1))) / (8 * res)
    return east, north


@unit("C24", ["terrain.slope_aspect"], RES, conc_cases=CONC, goal_ms=30000, max_s=300)
def slope_aspect(env):
    z = dem_of(env)
    res = 50.0 if env.symbolic else env.scalar("res", 1, 1000, gen=[10.0, 50.0, 100.0])
    if env.symbolic:
        # any gradient at the centre, made by moving two cells of the window
        ge, gn = env.scalar("east", -10, 10), env.scalar("north", -10, 10)
        for k, v in np.ndenumerate(np.array([[900.0, 1000.0, 1100.0], [1050.0, 1000.0, 950.0], [870.0, 910.0, 1200.0]])):
            z[k] = v
        cells = env.case["cells"]
        for k in cells:
            z[k] = 0.0
        e0, n0 = gradient(env, z, res, 1, 1)
        (we, wn), (ve, vn) = [(WE[k], WN[k]) for k in cells]
        be, bn = 8 * res * (ge - e0), 8 * res * (gn - n0)
        det = we * vn - ve * wn
        z[cells[0]] = (be * vn - ve * bn) / det
        z[cells[1]] = (we * bn - wn * be) / det
    z0 = env.old(z)
    slope, aspect = env.call(terrain.slope_aspect, z, res)
    env.ensure("the elevation model is not modified", env.same(z, z0))
    rows, cols = env.shape
    d2r = np.deg2rad
    border = 1 if env.symbolic else 0  # the terrain is continued beyond its border (evaluated at run time only)
    zp = None if border else np.pad(z0, 1, mode="edge")
    for i in range(border, rows - border):
        for j in range(border, cols - border):
            e, n = gradient(env, z0, res, i, j) if border else gradient(env, zp, res, i + 1, j + 1)
            s, a = slope[i, j], aspect[i, j]
            env.ensure("slope between 0 and 90 degrees", env.and_(env.ge(s, 0), env.lt(s, 90)))
            t = np.tan(d2r(s))
            env.ensure("tangent of the slope == magnitude of the elevation gradient",
                       env.eqv(t * t, e * e + n * n, scale=1e-9, rtol=1e-6))
            env.ensure("aspect is an azimuth", env.and_(env.ge(a, 0), env.le(a, 360)))
            r = d2r(a)
            sa, ca = np.sin(r), np.cos(r)
            # unit vector towards the aspect points down the gradient
            env.ensure("aspect is parallel to the gradient", env.eqv(sa * n, ca * e, scale=1.0))
            env.ensure("aspect points downhill", env.le(sa * e + ca * n, 1e-9 if not env.symbolic else 0))


@unit("C24", ["terrain.slope_aspect", "terrain.normal_vector"], [dict(pixels=p) for p in ((1, 1), (1, 4), (2, 2), (2, 5))])
def small_grids(env):
    z, res = dem_of(env), env.scalar("res", 1, 1000)
    slope, aspect = env.call(terrain.slope_aspect, z, res)
    nv = env.call(terrain.normal_vector, z, res)
    env.ensure("grids too small for finite differences are flat", env.and_(
        env.eq(slope, 0), env.eq(nv[0], 0), env.eq(nv[1], 0), env.eq(nv[2], 1)))
    env.ensure("no aspect", env.isnan(aspect))


@unit("C24", ["terrain.normal_vector"], SYM, conc_cases=CONC, goal_ms=30000, max_s=200)
def normal_vector(env):
    z, res = dem_of(env), env.scalar("res", 1, 1000, gen=[10.0, 50.0])
    z0 = env.old(z)
    nv = env.call(terrain.normal_vector, z, res)
    rows, cols = env.shape
    env.ensure("the elevation model is not modified", env.same(z, z0))
    for i in range(rows):
        for j in range(cols):
            x, y, w = nv[0, i, j], nv[1, i, j], nv[2, i, j]
            env.ensure("unit length", env.eqv(x * x + y * y + w * w, 1.0))
            env.ensure("points upwards", env.gt(w, 0))
            if 1 <= i < rows and j < cols - 1:
                e = 0.5 * (z0[i, j + 1] - z0[i, j] + z0[i - 1, j + 1] - z0[i - 1, j]) / res
                n = 0.5 * (z0[i - 1, j] - z0[i, j] + z0[i - 1, j + 1] - z0[i, j + 1]) / res
                env.ensure("perpendicular to the surface",
                           env.and_(env.eqv(x, -e * w, scale=1.0), env.eqv(y, -n * w, scale=1.0)))


SHC = [dict(pixels=p, bounded=f"{p[0]}x{p[1]} grid") for p in ((1, 3), (3, 1), (2, 2))]
DIRS = {"n": (0, -1), "e": (1, 0), "s": (0, 1), "w": (-1, 0),
        "ne": (1, -1), "se": (1, 1), "sw": (-1, 1), "nw": (-1, -1)}  # x east, y south


@unit("C24", ["shadows.shadows"], lambda tier: SHC if tier == "quick" else SHC + [dict(pixels=(2, 3), bounded="2x3 grid")],
      conc_cases=CONC + SHC, goal_ms=20000, max_s=200)
def shadow_geometry(env):
    """A pixel is shaded exactly if the terrain towards the sun rises above the ray to the sun."""
    z, res = dem_of(env), env.scalar("res", 1, 1000, gen=[10.0, 50.0])
    d = env.choice("sun", list(DIRS)) if not env.symbolic else env.choice("sun", ["n", "e", "sw"])
    dx, dy = DIRS[d]
    tan = env.scalar("tan_elev", 0, 10, lo_open=True, gen=[0.01, 0.1, 1.0])
    h = float(np.hypot(dx, dy))
    if env.symbolic:
        vec = env.A.wrap(np.array([dx / h, dy / h, tan], dtype=object))
    else:
        vec = env.scalar("scale", 0.01, 1) * np.array([dx / h, dy / h, tan])  # the length does not matter
    sweeps = env.choice("num_sweeps", [1, -1])
    z0 = env.old(z)
    ill = env.call(shadows, z, res, vec, num_sweeps=sweeps)
    rows, cols = env.shape
    env.ensure("the elevation model is not modified", env.same(z, z0))
    for i in range(rows):
        for j in range(cols):
            conds = []
            k = 1
            while 0 <= i + k * dy < rows and 0 <= j + k * dx < cols:
                conds.append((z0[i + k * dy, j + k * dx], k))
                k += 1
            v = ill[i, j]
            env.ensure("illumination is 0 or 1", env.or_(env.eq(v, 0), env.eq(v, 1)))
            up = [q - (z0[i, j] + kk * res * h * tan) for q, kk in conds]
            # decided up to rounding of the diagonal distance
            tol = (1e-9 * (1 + res * tan * len(up)) if dx and dy else 0) if env.symbolic else 1e-6
            if not up:
                env.ensure("pixels at the sunward edge are illuminated", env.eq(v, 1))
                continue
            env.ensure("shaded by higher terrain towards the sun", env.or_(env.eq(v, 0), *[env.le(q, tol) for q in up][:1])
                       if len(up) == 1 else env.or_(env.eq(v, 0), env.and_(*[env.le(q, tol) for q in up])))
            env.ensure("illuminated otherwise", env.or_(env.eq(v, 1), *[env.gt(q, -tol) for q in up]))


@unit("C24", ["shadows.shadows"], sym=False, cases=CONC, w=2)
def shadow_monotone(env):
    """Any azimuth: a higher sun, an elevation offset, more sweeps and lower surroundings."""
    z, res = dem_of(env), env.scalar("res", 1, 1000, gen=[10.0, 50.0])
    az = env.scalar("azimuth", 0, 2 * np.pi)
    el = env.scalar("elev", 0.01, 1.5)
    el2 = env.scalar("elev2", 0.01, 1.5)
    lo, hi = min(el, el2), max(el, el2)
    sun = lambda e: np.array([np.sin(az) * np.cos(e), -np.cos(az) * np.cos(e), np.sin(e)])  # noqa: E731
    f = lambda q, e, n=1: env.call(shadows, q, res, sun(e), num_sweeps=n)  # noqa: E731
    a, b = f(z, lo), f(z, hi)
    env.ensure("a higher sun shades no further pixel", env.le(a, b))
    env.ensure("the highest pixel is illuminated", bool(a[np.unravel_index(np.argmax(z), z.shape)] == 1))
    env.ensure("flat terrain is illuminated", bool((f(np.full(z.shape, 1234.0), lo) == 1).all()))
    env.ensure("more sweeps find all shadows of fewer sweeps", env.le(f(z, lo, -1), a))
    shaded = np.argwhere(a == 0)
    s = sun(lo)
    t = s[2] / np.hypot(s[0], s[1])
    rr, cc = np.indices(z.shape)
    for i, j in shaded:
        along = ((cc - j) * s[0] + (rr - i) * s[1]) / np.hypot(s[0], s[1])
        off = abs((cc - j) * s[1] - (rr - i) * s[0]) / np.hypot(s[0], s[1])
        cand = (along > -1e-9) & (off <= 1.5) & ((rr != i) | (cc != j))
        ok = (z[cand] - z[i, j] > t * res * np.maximum(along[cand] - 1.5, 0) - 1e-6) & (z[cand] - z[i, j] > -1e-6)
        env.ensure("only terrain towards the sun casts shadows", bool(ok.any()))


@unit("C24", ["terrain.sky_view_factor"], sym=False, cases=[dict(pixels=(3, 3)), dict(pixels=(1, 1)), dict(pixels=(2, 3)), dict(pixels=(3, 4))], w=2)
def sky_view(env):
    z, res = dem_of(env), env.scalar("res", 1, 1000, gen=[10.0, 50.0])
    z0 = z.copy()
    svf = env.call(terrain.sky_view_factor, z, res)
    env.ensure("the elevation model is not modified", env.same(z, z0))
    env.ensure("sky view factor in [0, 1]", env.and_(env.geq(svf, 0), env.leq(svf, 1)))
    env.ensure("flat terrain sees the whole sky", env.ge(
        env.call(terrain.sky_view_factor, np.full(z.shape, 700.0), res), 0.999))
    top = svf[np.unravel_index(np.argmax(z), z.shape)]
    env.ensure("the highest pixel sees at least as much sky as any other", env.geq(top, svf, rtol=1e-9))
    # definition: mean over the azimuths of cos^2 of the lowest elevation angle (in degrees) from which the pixel is lit
    if z.size > 1:
        slope, _ = terrain.slope_aspect(z0, res)
        mx = max(int(np.ceil(np.nanmax(slope))), 1)
        tot = np.zeros(z.shape)
        az = np.arange(0, 360, 10)
        for a in np.deg2rad(az):
            hor = np.full(z.shape, float(mx))
            for e in range(mx, 0, -1):
                er = np.deg2rad(e)
                ill = shadows(z0, res, np.array([np.sin(a) * np.cos(er), -np.cos(a) * np.cos(er), np.sin(er)]), num_sweeps=1)
                hor[ill == 1] = e
            tot += np.cos(np.deg2rad(hor)) ** 2
        env.ensure("mean of the squared cosine of the horizon angles", env.eqv(svf, tot / len(az)))


@unit("C24", ["terrain.curvature"], SYM, conc_cases=CONC, goal_ms=20000)
def curvature(env):
    z, res = dem_of(env), env.scalar("res", 1, 1000, gen=[10.0, 50.0])
    k = 1 if env.symbolic else env.choice("px", [1, 2])
    # length scales between two multiples of the resolution are rounded up to whole pixels
    L = res * k if env.symbolic else res * (k - env.choice("part", [0.0, 0.4]))
    z0 = env.old(z)
    cv = env.call(terrain.curvature, z, res, "liston", L=L)
    env.ensure("the elevation model is not modified", env.same(z, z0))
    rows, cols = env.shape
    c = lambda i, n: min(max(i, 0), n - 1)  # noqa: E731
    q = float(np.sqrt(2))
    for i in range(rows):
        for j in range(cols):
            w = lambda a, b: z0[c(i + a * k, rows), c(j + b * k, cols)]  # noqa: E731, B023
            p = z0[i, j]
            ref = (p - (w(0, -1) + w(0, 1)) / 2 + p - (w(-1, 0) + w(1, 0)) / 2) / (2 * L) + (
                p - (w(1, -1) + w(-1, 1)) / 2 + p - (w(-1, -1) + w(1, 1)) / 2) / (2 * q * L)
            env.ensure("mean elevation above the eight neighbours at the length scale",
                       env.eqv(cv[i, j] * 4, ref, scale=1.0, rtol=1e-7))


@unit("C24", ["terrain.openness", "terrain._openness_dir", "terrain._shift_arr_retain"], sym=False, cases=CONC)
def openness(env):
    z, res = dem_of(env), env.scalar("res", 1, 1000, gen=[10.0, 50.0])
    k = env.choice("px", [1, 2, 3])
    rows, cols = z.shape
    for neg in (False, True):
        o = env.call(terrain.openness, z, res, (k - 0.5) * res, negative=neg, mean=False)
        env.ensure("openness angle", env.and_(env.gt(o, 0), env.lt(o, np.pi)))
        q = -z if neg else z
        got = {}
        for i in range(rows):
            for j in range(cols):
                for n, (a, b) in enumerate([(1, 0), (1, -1), (0, -1), (-1, -1), (-1, 0), (-1, 1), (0, 1), (1, 1)]):
                    best = np.inf
                    for s in range(1, k + 1):
                        y, x = i + a * s, j + b * s
                        o_ = q[y, x] if 0 <= y < rows and 0 <= x < cols else q[i, j]
                        best = min(best, np.pi / 2 - np.arctan2(o_ - q[i, j], res * s * np.hypot(a, b)))
                    got[n, i, j] = best
        ref = np.array([[[got[n, i, j] for j in range(cols)] for i in range(rows)] for n in range(8)])
        env.ensure("openness == smallest zenith angle of the profile", env.eqv(np.sort(o, 0), np.sort(ref, 0), rtol=1e-9))
        m = env.call(terrain.openness, z, res, (k - 0.5) * res, negative=neg)
        env.ensure("mean over the eight directions", env.eqv(m, ref.mean(axis=0), rtol=1e-9))


PARALLEL = r"""
import numpy as np
from openamundsen import terrain
from openamundsen.modules import radiation

rng = np.random.default_rng(%d)
z = rng.uniform(0, 500, (120, 150))
res, k = 10.0, 20
bad = []
for d in range(8):
    ref = np.full(z.shape, np.inf)
    dist = np.hypot(*[(1, 0), (1, 1)][d %% 2]) * res
    for i in range(k):
        q = z.copy()
        n = i + 1
        a, b = [(1, 0), (1, -1), (0, -1), (-1, -1), (-1, 0), (-1, 1), (0, 1), (1, 1)][d]
        rr, cc = np.indices(z.shape)
        ok = (rr + a * n >= 0) & (rr + a * n < z.shape[0]) & (cc + b * n >= 0) & (cc + b * n < z.shape[1])
        q[ok] = z[(rr + a * n)[ok], (cc + b * n)[ok]]
        ref = np.minimum(ref, np.pi / 2 - np.arctan2(q - z, dist * n))
    for _ in range(3):
        o = terrain.openness(z, res, (k - 0.5) * res, mean=False)
        if abs(np.sort(o, 0)[0] - o.min(axis=0)).max() > 0 or min(abs(o[j] - ref).max() for j in range(8)) > 1e-9:
            bad.append("openness")
for t in range(20):
    az, el = rng.uniform(0, 2 * np.pi), rng.uniform(0.05, 1.2)
    v = np.array([np.sin(az) * np.cos(el), -np.cos(az) * np.cos(el), np.sin(el)])
    a = radiation.shadows(z, res, v)
    b = getattr(radiation.shadows, "py_func", radiation.shadows)(z[:40, :40], res, v)
    if (a != radiation.shadows(z, res, v)).any() or (radiation.shadows(z[:40, :40].copy(), res, v) != b).any():
        bad.append("shadows")
print("BAD" if bad else "GOOD", sorted(set(bad)))
"""


@unit("C24", ["terrain._openness_dir", "shadows.shadows"], sym=False, cases=[dict(pixels=(1, 1))])
def parallel(env):
    """The compiled, multi-threaded kernels give the sequential result (120x150 pixels)."""
    import openamundsen

    seed = env.scalar("seed", 0, 1000, integer=True)
    e = dict(os.environ, NUMBA_DISABLE_JIT="0", PYTHONDONTWRITEBYTECODE="1",
             PYTHONPATH=os.path.dirname(os.path.dirname(openamundsen.__file__)))
    p = subprocess.run([sys.executable, "-c", PARALLEL % int(seed)], env=e, capture_output=True, text=True, timeout=300)
    if "GOOD" not in p.stdout and "BAD" not in p.stdout:
        return  # could not run: decided elsewhere
    env.ensure("compiled kernels are free of races", "GOOD" in p.stdout)
