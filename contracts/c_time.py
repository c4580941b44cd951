"""Run life cycle (C21) and calendar properties of a time step (C22)."""

import contextlib
from types import SimpleNamespace

import numpy as np
import pandas as pd
from munch import Munch

from openamundsen import errors
from openamundsen import model as oamodel
from openamundsen.model import OpenAmundsen
from pyvc import core
from pyvc.unit import unit

from .common import config

# --------------------------------------------------------------------------- C22


def month_length(env, month, leap):
    """Length of a month of the Gregorian calendar."""
    feb = env.ite(leap, 29, 28)
    long = env.or_(*[env.eq(month, k) for k in (1, 3, 5, 7, 8, 10, 12)])
    return env.ite(env.eq(month, 2), feb, env.ite(long, 31, 30))


class SymDelta:
    def __init__(self, seconds):
        self.seconds_ = seconds

    def total_seconds(self):
        return self.seconds_

    def __neg__(self):
        return SymDelta(-self.seconds_)

    def __mul__(self, k):
        return SymDelta(self.seconds_ * k)

    __rmul__ = __mul__

    def __getattr__(self, k):
        raise core.EngineError(f"no symbolic semantics for Timedelta.{k}")


class SymDate:
    """
    A point in time of the Gregorian calendar: calendar day and second of the day.  Shifting by at
    most one day either way is the calendar axiom used (assumed contract of pandas.Timestamp).
    """

    def __init__(self, env, year, month, day, sec, leap):
        self.env, self.year, self.month, self.day, self.sec, self.leap = env, year, month, day, sec, leap

    @property
    def dayofyear(self):
        e = self.env
        n = self.day
        for k in range(1, 12):
            n = n + e.ite(e.gt(self.month, k), month_length(e, k, self.leap), 0)
        return n

    day_of_year = dayofyear

    @property
    def quarter(self):
        raise core.EngineError("no symbolic semantics for Timestamp.quarter")

    def __getattr__(self, k):
        raise core.EngineError(f"no symbolic semantics for Timestamp.{k}")

    def date(self):
        return (self.year, self.month, self.day)

    def __add__(self, d):
        if not isinstance(d, SymDelta):
            raise core.EngineError("unsupported date arithmetic")
        e, ts = self.env, d.seconds_
        s = self.sec + ts
        nleap = self.env.fresh_leap()
        if s < 0:
            if self.day > 1:
                return SymDate(e, self.year, self.month, self.day - 1, s + 86400, self.leap)
            if self.month > 1:
                m = self.month - 1
                return SymDate(e, self.year, m, month_length(e, m, self.leap), s + 86400, self.leap)
            return SymDate(e, self.year - 1, e.const(12), e.const(31), s + 86400, nleap)
        if s >= 86400:
            if self.day < month_length(e, self.month, self.leap):
                return SymDate(e, self.year, self.month, self.day + 1, s - 86400, self.leap)
            if self.month < 12:
                return SymDate(e, self.year, self.month + 1, e.const(1), s - 86400, self.leap)
            return SymDate(e, self.year + 1, e.const(1), e.const(1), s - 86400, nleap)
        return SymDate(e, self.year, self.month, self.day, s, self.leap)

    def __sub__(self, d):
        return self + (-d)

    def __format__(self, spec):
        return "date"


class SymPandas:
    def __getattr__(self, k):
        return getattr(pd, k)

    @staticmethod
    def Timedelta(*a, **k):
        if not a and set(k) == {"seconds"} and isinstance(k["seconds"], core.S):
            return SymDelta(k["seconds"])
        if any(isinstance(x, core.S) for x in (*a, *k.values())):
            raise core.EngineError("unsupported Timedelta")
        return pd.Timedelta(*a, **k)


class SymDates:
    """The time axis of a run: n >= 1 dates."""

    def __init__(self, n, item=None):
        self.n, self.item = n, item

    def __vc_len__(self):
        return self.n

    def __getitem__(self, i):
        if not isinstance(i, (core.S, int)):
            raise core.EngineError("unsupported index of the time axis")
        if (i < 0) is True or isinstance(i, int) and i < 0:
            i = self.n + i
        return self.item(i)

    def __iter__(self):
        from pyvc.symloop import iterate

        return iterate(self.n, self.item)

    def __getattr__(self, k):
        raise core.EngineError(f"no symbolic semantics for dates.{k}")


def bare(env, n=None, item=None):
    m = OpenAmundsen.__new__(OpenAmundsen)
    env.assembled = True
    m.state = m.date = m.date_idx = m._run_method = m._numba_threads = m._logger_configured_pid = None
    return m


@unit("C22", ["OpenAmundsen.timestep_props"])
def timestep_properties(env):
    m = bare(env)
    if env.symbolic:
        env.const = lambda k: core.S(core.numval(k))
        env.fresh_leap = lambda: env.c.choose("leap")
        leap = env.c.choose("leap")
        env.c.pins["leap"] = float(leap)
        year = env.scalar("year", 1900, 2200, integer=True)
        month = env.scalar("month", 1, 12, integer=True)
        day = env.scalar("day", 1, 31, integer=True)
        sec = env.scalar("sec", 0, 86400, hi_open=True)
        ts = env.scalar("timestep", 1, 86400)
        env.assume(env.le(day, month_length(env, month, leap)))
        m.date = SymDate(env, year, month, day, sec, leap)
    else:
        leap = bool(env.scalar("leap", 0, 1, integer=True))
        month = env.scalar("month", 1, 12, integer=True, gen=[1, 12, 2])
        if env.values is None:
            month = int(env.rng.choice([1, 2, 12, month]))
        year = 2020 if leap else 2021
        # the solver's years are arbitrary; any year with the right length shows the failure
        ml = int(month_length(env, month, leap))
        day = min(env.scalar("day", 1, 31, integer=True), ml)
        if env.values is None:
            day = int(env.rng.choice([1, ml, day]))
        sec = env.scalar("sec", 0, 86399, integer=True)
        ts = env.scalar("timestep", 1, 86400, integer=True)
        if env.values is None:
            ts = int(env.rng.choice([600, 900, 3600, 10800, 21600, 43200, 86400]))
            sec = int(env.rng.integers(0, 86400 // ts)) * ts
        m.date = pd.Timestamp(year, month, day) + pd.Timedelta(seconds=sec)
    m.timestep = ts
    n = env.scalar("n", 1, 10**6 if env.symbolic else 4, integer=True)
    i = env.scalar("idx", 0, 10**6 if env.symbolic else 3, integer=True)
    env.assume(env.lt(i, n))
    m.date_idx = i
    m.dates = SymDates(n) if env.symbolic else [m.date] * n
    with env.by_contract(oamodel, "pd", SymPandas()):
        tp = env.call(lambda: m.timestep_props)
    first, last = env.eq(i, 0), env.eq(i, n - 1)
    day_start = env.lt(sec, ts)  # the previous point of the time axis lies before midnight
    day_end = env.ge(sec + ts, 86400)  # the next one lies after midnight
    ml = month_length(env, month, leap)
    sfd, sld = day_start, day_end
    sfm, slm = env.and_(day_start, env.eq(day, 1)), env.and_(day_end, env.eq(day, ml))
    sfy, sly = env.and_(sfm, env.eq(month, 1)), env.and_(slm, env.eq(month, 12))

    def iff(a, b):
        return env.and_(env.or_(env.not_(a), b), env.or_(a, env.not_(b)))

    for name, want in (
        ("first_of_run", first), ("last_of_run", last),
        ("strict_first_of_day", sfd), ("strict_last_of_day", sld),
        ("strict_first_of_month", sfm), ("strict_last_of_month", slm),
        ("strict_first_of_year", sfy), ("strict_last_of_year", sly),
        ("first_of_day", env.or_(sfd, first)), ("last_of_day", env.or_(sld, last)),
        ("first_of_month", env.or_(sfm, first)), ("last_of_month", env.or_(slm, last)),
        ("first_of_year", env.or_(sfy, first)), ("last_of_year", env.or_(sly, last)),
    ):
        env.ensure(name, iff(getattr(tp, name), want))


# --------------------------------------------------------------------------- C21


class Numba:
    """Stand-in for numba's thread settings (ghost state: the process-wide thread count)."""

    def __init__(self, current, maximum=8):
        self.current = current
        self.config = Munch(NUMBA_NUM_THREADS=maximum)

    def get_num_threads(self):
        return self.current

    def set_num_threads(self, n):
        self.current = n

    def __getattr__(self, k):
        import numba

        return getattr(numba, k)


class Boom(Exception):
    pass


class Fin(Exception):
    pass


class Ghost:
    """Records what a time step does, and (optionally) lets one of its stages fail."""

    def __init__(self, m, numba, fail=None):
        self.m, self.numba, self.fail, self.log = m, numba, fail, []

    def stage(self, name):
        def f(*a, **k):
            self.log.append((name, self.m.date_idx, self.m.date, self.numba.current))
            if self.fail == name:
                raise Boom(name)

        return f


STAGES = ("reset", "interpolate", "callback", "process_meteo", "model_interface", "point_output",
          "gridded_output")


@contextlib.contextmanager
def staged(env, m, nb, cb, reset, fail=None):
    g = Ghost(m, nb, fail)
    m.config = config(reset_state_variables=reset)
    m.config.input_data.meteo.format = "callback" if cb else "netcdf"
    m._require_interpolation = not cb
    m.state = SimpleNamespace(reset=g.stage("reset"))
    m._meteo_callback = g.stage("callback")
    m._process_meteo_data = g.stage("process_meteo")
    m._model_interface = g.stage("model_interface")
    m.point_output = SimpleNamespace(update=g.stage("point_output"))
    m.gridded_output = SimpleNamespace(update=g.stage("gridded_output"))
    m._ensure_logger_configured = lambda: None
    saved = oamodel.numba, oamodel.oameteo.interpolate_station_data
    oamodel.numba = nb
    oamodel.oameteo.interpolate_station_data = g.stage("interpolate")
    try:
        yield g
    finally:
        oamodel.numba, oamodel.oameteo.interpolate_station_data = saved


def expected(cb, reset):
    return (["reset"] if reset else []) + (["callback"] if cb else ["interpolate"]) + [
        "process_meteo", "model_interface", "point_output", "gridded_output"]


class Day:
    """dates[i]"""

    def __init__(self, i):
        self.i = i

    def __format__(self, spec):
        return "date"


RS = [dict(cb=c, reset=r, started=s, method=me)
      for c in (False, True) for r in (False, True) for s in (False, True) for me in ("run", "run_single")]


def same(a, b):
    return a is b or (type(a) is type(b) and bool(np.all(a == b)))


@unit("C21", ["OpenAmundsen.run_single"], RS)
def run_single(env):
    """One call processes exactly the next date, once, all stages in order."""
    cb, reset = env.case["cb"], env.case["reset"]
    m = bare(env)
    n = env.scalar("n", 1, None if env.symbolic else 5, integer=True)
    threads, cur = env.choice("threads", [None, 1, 3]), env.choice("current", [1, 2, 8])
    m._numba_threads = threads
    m._run_method = env.choice("method", [None, env.case["method"]])
    old_method = m._run_method
    m.dates = SymDates(n, Day) if env.symbolic else [Day(k) for k in range(n)]
    if env.case["started"]:
        i = env.scalar("i", 0, None if env.symbolic else 4, integer=True)
        env.assume(env.lt(i, n))
        m.date_idx, m.date = i, m.dates[i]
        at_end = env.eq(i, n - 1)
    else:
        i, at_end = -1, False
    before = m.date
    nb = Numba(cur)
    fail = env.choice("fails", [None, *expected(cb, reset)])
    with staged(env, m, nb, cb, reset, fail) as g:
        e = env.call(m.run_single, raises=(Boom, errors.OpenAmundsenRuntimeError))
    finished = isinstance(e, errors.OpenAmundsenRuntimeError)
    env.ensure("thread count of the process is restored", nb.current == cur)
    env.ensure("the way the run was started is remembered", m._run_method == (old_method or "run_single"))
    if finished:
        env.ensure("refused only after the last date", at_end)
        env.ensure("refused: date index unchanged", env.eq(m.date_idx, i))
        env.ensure("refused: date unchanged", m.date is before)
        env.ensure("refused: nothing is processed", not g.log)
        return
    env.ensure("no step after the last date", env.not_(at_end))
    env.ensure("next date index", env.eq(m.date_idx, i + 1))
    env.ensure("date of the time axis at the date index", env.eq(m.date.i, m.date_idx))
    want = expected(cb, reset)
    if fail is not None:
        want = want[:want.index(fail) + 1]
    env.ensure("stages, each exactly once and in order", [x[0] for x in g.log] == want)
    for name, idx, date, thr in g.log:
        env.ensure(f"{name} sees the current date", env.and_(env.eq(idx, i + 1), date is m.date))
        env.ensure(f"{name} runs with the configured number of threads", thr == (threads or cur))


@unit("C21", ["OpenAmundsen.run"], [dict(method=me) for me in (None, "run", "run_single")],
      fallback=[dict(method=me, n=n, bounded=f"{n} dates") for me in (None, "run", "run_single") for n in (1, 2, 3)])
def run(env):
    """
    run(): over the contract of run_single (date index k-1 -> k, refused after the last date),
    every date is processed exactly once and in order; it refuses to be called on a started run.
    """
    m = bare(env)
    n = env.case.get("n") or env.scalar("n", 1, None if env.symbolic else 6, integer=True)
    m._ensure_logger_configured = lambda: None
    m.dates = SymDates(n, Day) if env.symbolic and "n" not in env.case else [Day(k) for k in range(n)]
    m._run_method = env.case["method"]
    ghost = Munch(done=0, ok=True)
    if env.case["method"] is not None:
        i0 = env.scalar("i0", 0, None if env.symbolic else 5, integer=True)
        env.assume(env.lt(i0, n))
        m.date_idx = i0

    def single():
        m._run_method = m._run_method or "run_single"
        if m.date_idx is not None and m.date_idx == n - 1:
            raise errors.OpenAmundsenRuntimeError("Model run already finished")
        m.date_idx = 0 if m.date_idx is None else m.date_idx + 1
        env.ensure("dates are processed in order, none skipped or repeated", env.eq(m.date_idx, ghost.done))
        ghost.done = ghost.done + 1

    m.run_single = single
    if env.symbolic and "n" not in env.case:
        def havoc(k):
            started = k > 0
            m.date_idx = (k - 1) if started else None
            ghost.done = k

        def inv(k):
            idx = -1 if m.date_idx is None else m.date_idx
            return env.and_(env.eq(ghost.done, k), env.eq(idx, k - 1))

        env.loop(inv, havoc)
    e = env.call(m.run, raises=(errors.OpenAmundsenRuntimeError,))
    if env.case["method"] is not None:
        env.ensure("a started run is refused", isinstance(e, errors.OpenAmundsenRuntimeError))
        env.ensure("refused: nothing is processed", env.and_(env.eq(ghost.done, 0), env.eq(m.date_idx, i0)))
        return
    env.ensure("accepted", not isinstance(e, errors.OpenAmundsenRuntimeError))
    env.ensure("all dates are processed", env.eq(ghost.done, n))
    env.ensure("run at its end", env.eq(m.date_idx, n - 1))
    env.ensure("marked as run", m._run_method == "run")


@unit("C21", ["OpenAmundsen.run", "OpenAmundsen.run_single"], sym=False)
def run_history(env):
    """Random histories of run/run_single calls (bodies of both)."""
    m = bare(env)
    n = env.scalar("n", 1, 6, integer=True)
    m.dates = [Day(k) for k in range(n)]
    nb = Numba(2)
    m._numba_threads = env.choice("threads", [None, 4])
    calls = env.vec("calls", 8, 0, 1, integer=True)
    if env.values is None and env.rng.random() < 0.5:
        calls[0] = 1
    processed = []
    started = None
    with staged(env, m, nb, False, False) as g:
        for c in calls:
            g.log.clear()
            e = env.call(m.run if c else m.run_single, raises=(errors.OpenAmundsenRuntimeError,))
            refused = isinstance(e, errors.OpenAmundsenRuntimeError)
            new = [x[1] for x in g.log if x[0] == "model_interface"]
            if c:
                want = list(range(n)) if started is None else []
                env.ensure("run() refused iff a run has been started", refused == (started is not None))
            else:
                want = [len(processed)] if len(processed) < n else []
                env.ensure("run_single() refused iff the run is finished", refused == (len(processed) == n))
            env.ensure("every date exactly once, in order", new == want)
            processed += new
            started = started or ("run" if c else "run_single")
            env.ensure("thread count restored", nb.current == 2)
    env.ensure("history has no gaps", processed == list(range(len(processed))))


@unit("C21", ["OpenAmundsen._resolve_numba_threads"], [dict(t=t, e=e) for t in (None, "auto", 1, 3, 64) for e in (0, 1)])
def threads(env):
    import os

    m = bare(env)
    rows, cols = env.scalar("rows", 1, 400, integer=True), env.scalar("cols", 1, 400, integer=True)
    mx = env.choice("max", [1, 2, 3, 8])
    m.grid = Munch(rows=rows, cols=cols)
    m.config = config()
    m.config.numba_threads = env.case["t"]
    nb = Numba(mx, mx)
    saved, oamodel.numba = oamodel.numba, nb
    ev = os.environ.pop("NUMBA_NUM_THREADS", None)
    if env.case["e"]:
        os.environ["NUMBA_NUM_THREADS"] = "2"
    try:
        env.call(m._resolve_numba_threads)
    finally:
        oamodel.numba = saved
        os.environ.pop("NUMBA_NUM_THREADS", None)
        if ev is not None:
            os.environ["NUMBA_NUM_THREADS"] = ev
    t = m._numba_threads
    env.ensure("process-wide setting not touched", nb.current == mx)
    if env.case["t"] is None or (env.case["t"] == "auto" and env.case["e"]):
        env.ensure("left to numba", t is None)
        return
    env.ensure("at least one thread, not more than available", t is not None and env.and_(env.ge(t, 1), env.le(t, mx)))
    if env.case["t"] != "auto":
        env.ensure("as configured up to the number available", env.eq(t, min(env.case["t"], mx)))


@unit("C21", ["OpenAmundsen._prepare_time_steps"], sym=False)
def time_axis(env):
    """Time axis: start, start + timestep, ... up to the last one not after the end."""
    ts = env.choice("ts", ["10min", "30min", "h", "2h", "3h", "6h", "12h", "D", "24h"])
    d0 = pd.Timestamp("2019-12-30") + pd.Timedelta(hours=int(env.scalar("h0", 0, 100, integer=True)))
    d1 = d0 + pd.Timedelta(hours=int(env.scalar("len", 24, 24 * 400, integer=True, gen=[24, 48, 100])))
    m = bare(env)
    m.config = config(timestep=ts)
    m.config.start_date, m.config.end_date = d0, d1
    tz, stz = env.choice("tz", [0, 1, -5]), env.choice("stz", [None, 0, 1, 3])
    m.config.timezone, m.config.simulation_timezone = tz, stz
    env.call(m._prepare_time_steps)
    sec = pd.Timedelta(pd.tseries.frequencies.to_offset(ts).nanos, "ns").total_seconds()
    env.ensure("time step in seconds", m.timestep == sec)
    env.ensure("starts at the start date", m.dates[0] == d0)
    st = pd.Timedelta(seconds=sec)
    env.ensure("equidistant", bool(((m.dates[1:] - m.dates[:-1]) == st).all()))
    env.ensure("up to the end date", m.dates[-1] <= d1 < m.dates[-1] + st)
    env.ensure("simulation time zone shift", m._simulation_timezone_shift
               == pd.Timedelta(hours=0 if stz is None else tz - stz))
