"""
Specification environments.

A contract is a Python function `unit(env)` that declares the inputs, states
the requires clauses, calls the real code and states the ensures clauses.  The
same contract is read in two ways:

 * SymEnv: inputs are symbolic, `assume` adds hypotheses, `ensure` generates a
   proof obligation for each path (this decides the property);
 * ConcEnv: inputs are concrete numpy arrays on a small multi-pixel grid,
   `assume` rejects the sample, `ensure` evaluates the clause on the outputs of
   the real code (replay of counterexamples, runtime validation of the
   contract under machine arithmetic).
"""

import contextlib
import math

import numpy as np

from . import core


class Reject(Exception):
    pass


class Mismatch(Exception):
    """The code no longer has the interface the contract is written against."""


def check_signature(fn, a, k):
    import inspect

    f = getattr(fn, "py_func", fn)
    try:
        sig = inspect.signature(f)
    except (TypeError, ValueError):
        return
    try:
        sig.bind(*a, **k)
    except TypeError as e:
        raise Mismatch(f"{getattr(f, '__name__', f)}: {e}")


def interface_changed(env, e):
    """
    Objects assembled by a contract (not by the model's own constructors) lack attributes that a changed
    constructor may add: such an exception says nothing about the code.
    """
    return getattr(env, "assembled", False) and isinstance(e, AttributeError)


class Violation(Exception):
    def __init__(self, clause, detail=""):
        super().__init__(f"{clause}: {detail}")
        self.clause, self.detail = clause, detail


# ---------------------------------------------------------------------------


class SymEnv:
    symbolic = True

    def __init__(self, c, case):
        from . import arrays

        self.c = c
        c.env = self
        self.case = case
        self.A = arrays
        # generic pixel (stands for every pixel of every grid), or, for clauses that relate pixels
        # to each other, a small explicit grid (bounded instance)
        self.pixels = case.get("pixels")
        self.in_roi = case.get("in_roi", True)
        self.shape = (1, 1) if self.pixels is None else tuple(self.pixels)
        self.rows, self.cols = self.shape
        self._ax2 = ("R", "C") if self.pixels is None else None
        if self.pixels is not None:
            c.grid_mode = False
            self._roi = np.array(case.get("roi", np.ones(self.shape)), dtype=bool).reshape(self.shape)

    # -- grid
    @property
    def roi(self):
        if self.pixels is not None:
            return self.A.wrap(self._roi.copy())
        r = self.A.wrap(np.array([[bool(self.in_roi)]]), ("R", "C"))
        r.is_roi = True
        return r

    @property
    def roi_plain(self):
        if self.pixels is not None:
            return self._roi.copy()
        return np.array([[bool(self.in_roi)]])

    @property
    def roi_idxs(self):
        A = self.A
        if self.pixels is not None:
            return np.array(np.where(self._roi)).T.copy()
        if not self.in_roi:
            return A.wrap(np.empty((0, 2), dtype=object))
        r = np.empty((1, 2), dtype=object)
        r[0, 0], r[0, 1] = A.PixIndex("R"), A.PixIndex("C")
        return A.wrap(r)

    # -- inputs
    def _one(self, name, lo, hi, lo_open, hi_open, nan, integer, values):
        c = self.c
        if nan and c.choose(f"nan:{name}"):
            c.pins[name] = math.nan
            return math.nan
        v = c.input(name, "I" if integer else "R")
        if values is not None:
            import z3

            c.assume(z3.Or(*[v == core.term(x) for x in values]))
        if lo is not None:
            t = core.term(lo)
            c.assume(v > t if lo_open else v >= t)
        if hi is not None:
            t = core.term(hi)
            c.assume(v < t if hi_open else v <= t)
        return core.S(v)

    def scalar(
        self, name, lo=None, hi=None, lo_open=False, hi_open=False, nan=False, integer=False,
        values=None, gen=None,
    ):
        return self._one(name, lo, hi, lo_open, hi_open, nan, integer, values)

    def grid(
        self, name, lo=None, hi=None, lo_open=False, hi_open=False, nan=False, integer=False,
        values=None, gen=None, layers=None, boolean=False,
    ):
        shp = self.shape if layers is None else (layers, *self.shape)
        if boolean:
            r = np.empty(shp, dtype=bool)
            for idx in np.ndindex(*shp):
                r[idx] = self.c.choose(f"{name}{list(idx)}")
                self.c.pins[f"{name}{list(idx)}"] = float(r[idx])
            return self.A.wrap(r, self._axes(shp))
        r = np.empty(shp, dtype=object)
        for idx in np.ndindex(*shp):
            r[idx] = self._one(
                f"{name}{list(idx)}", lo, hi, lo_open, hi_open, nan, integer, values
            )
        return self.A.wrap(r, self._axes(shp))

    def _axes(self, shp):
        if self.pixels is not None:
            return None
        return ("L",) * (len(shp) - 2) + ("R", "C")

    def vec(
        self, name, n, lo=None, hi=None, lo_open=False, hi_open=False, nan=False, integer=False,
        values=None, gen=None,
    ):
        r = np.empty((n,), dtype=object)
        for k in range(n):
            r[k] = self._one(f"{name}[{k}]", lo, hi, lo_open, hi_open, nan, integer, values)
        return self.A.wrap(r, ("L",))

    def const_grid(self, value, layers=None):
        shp = self.shape if layers is None else (layers, *self.shape)
        r = np.empty(shp, dtype=object)
        r[...] = value
        return self.A.wrap(r, self._axes(shp))

    def choice(self, name, options):
        """Enumerated input (forks over the options)."""
        for o in options[:-1]:
            if self.c.choose(f"choice:{name}"):
                self.c.pins[name] = o
                return o
        self.c.pins[name] = options[-1]
        return options[-1]

    def _w(self, r, *src):
        if not isinstance(r, np.ndarray):
            return r
        ax = None
        for q in src:
            x = getattr(q, "ax", None)
            if x is not None and np.shape(q) == r.shape:
                ax = x
                break
        return self.A.wrap(r, ax)

    # -- conditions (never fork)
    def _f2(self, f, a, b):
        r = np.frompyfunc(f, 2, 1)(self.A._obj(a), self.A._obj(b))
        return self._w(r, a, b)

    def le(self, a, b, **k):
        return self._f2(core.le, a, b)

    def lt(self, a, b, **k):
        return self._f2(core.lt, a, b)

    def ge(self, a, b, **k):
        return self._f2(core.le, b, a)

    def gt(self, a, b, **k):
        return self._f2(core.lt, b, a)

    def eq(self, a, b, **k):
        def f(x, y):
            if core.isnan(x) or core.isnan(y):
                return core.isnan(x) and core.isnan(y)
            return core.eq(x, y)

        return self._f2(f, a, b)

    same = eq
    # clause comparisons (tolerant in ConcEnv)
    leq, geq, eqv = le, ge, eq

    def isnan(self, a):
        r = np.frompyfunc(core.isnan, 1, 1)(self.A._obj(a))
        return self._w(r, a)

    def isfinite(self, a):
        r = np.frompyfunc(core.isfinite, 1, 1)(self.A._obj(a))
        return self._w(r, a)

    def and_(self, *a):
        import z3

        def f(x, y):
            return core.mkb(z3.And(core.bterm(x), core.bterm(y)))

        r = a[0]
        for b in a[1:]:
            r = self._f2(f, r, b)
        return r

    def or_(self, *a):
        import z3

        def f(x, y):
            return core.mkb(z3.Or(core.bterm(x), core.bterm(y)))

        r = a[0]
        for b in a[1:]:
            r = self._f2(f, r, b)
        return r

    def not_(self, a):
        import z3

        r = np.frompyfunc(lambda x: core.mkb(z3.Not(core.bterm(x))), 1, 1)(self.A._obj(a))
        return self._w(r, a)

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def ite(self, c, a, b):
        r = np.frompyfunc(core.ite, 3, 1)(self.A._obj(c), self.A._obj(a), self.A._obj(b))
        return self._w(r, c, a, b)

    # -- clauses
    def assume(self, cond):
        for x in self._elems(cond):
            self.c.assume(x if isinstance(x, core.SB) else bool(x))

    def _elems(self, cond):
        if isinstance(cond, np.ndarray):
            return list(np.asarray(self.A.raw(cond)).ravel())
        return [cond]

    def ensure(self, name, cond):
        self.c.reached = True
        es = self._elems(cond)
        for i, x in enumerate(es):
            self.c.prove(name if len(es) == 1 else f"{name}[{i}]", x)

    def lemma(self, name, cond):
        """Intermediate assertion: discharged here, then available to later obligations."""
        import z3

        for e in self._elems(cond):
            e = core.scalar(e)
            if isinstance(e, (bool, np.bool_)):
                self.c.prove("lemma: " + name, e)
                continue
            g = z3.simplify(core.bterm(e))
            n = len(self.c.x.obs)
            self.c._prove("lemma: " + name, g)
            if self.c.x.obs[n].status == "discharged":
                self.c.assume(g)

    def old(self, x):
        return x.copy() if hasattr(x, "copy") else x

    def fail(self, name, detail=""):
        self.c.reached = True
        self.c._refuted_concretely(f"{name}: {detail}")

    def call(self, fn, *a, raises=(), **k):
        """Call the code under contract; an exception it may not raise is a
        failed obligation."""
        try:
            check_signature(fn, a, k)
        except Mismatch as e:
            raise core.EngineError(f"interface changed: {e}")
        self.c.in_code += 1
        try:
            r = fn(*a, **k)
        except raises as e:
            return e
        except (core.EngineError, core.PathAbort, core.Budget):
            raise
        except core.LocalityViolation as e:
            self.fail("locality", str(e))
            raise core.PathAbort()
        except Exception as e:
            if interface_changed(self, e):
                raise core.EngineError(f"interface changed: {e}")
            self.c.x.errors.append(
                f"exception {type(e).__name__}: {str(e)[:200]}{core._where(e)}"
            )
            self.c.x.exc_models.append(self._model())
            raise core.PathAbort()
        finally:
            self.c.in_code -= 1
        return r

    def _model(self):
        r, m = core.z3_check(self.c.conds, self.c.x.goal_ms, want_model=True)
        return self.c.input_values(m) if m is not None else None

    @contextlib.contextmanager
    def by_contract(self, obj, name, fn):
        """The caller is checked against the callee's contract, not its body."""
        old = getattr(obj, name)
        setattr(obj, name, fn)
        try:
            yield
        finally:
            setattr(obj, name, old)

    def loop_contract(self, function, number, spec):
        """Contract of a loop over a symbolic number of layers (see loops.py)."""
        if not hasattr(self.c, "loop_specs"):
            self.c.loop_specs = {}
        self.c.loop_specs[f"{function}:{number}"] = spec
        return spec

    def count(self, name, lo=0, hi=None):
        """Arbitrary number (of layers, say)."""
        v = self.c.input(name, "I")
        self.c.assume(v >= core.term(lo))
        if hi is not None:
            self.c.assume(v <= core.term(hi))
        return core.S(v)

    def symvec(self, name, n, lo=None, hi=None, lo_open=False, facts=None, pixel=False):
        """Arbitrary vector of symbolic length; facts(l, v): what is required of every element."""
        from .loops import Base, SymVec

        def req(v):
            if lo is not None:
                self.assume(core.gt(v, lo) if lo_open else core.ge(v, lo))
            if hi is not None:
                self.assume(core.le(v, hi))

        g = None if facts is None else lambda t, v: self.assume(facts(core.S(t), v))
        return SymVec(n, Base(name, req, g), pixel, name)

    def index(self, name, n):
        """An arbitrary valid index."""
        k = core.S(self.c.fresh(name, "I"))
        self.assume(core.ge(k, 0))
        self.assume(core.lt(k, n))
        return k

    def loop(self, inv, havoc):
        """Contract of the next loop with a symbolic number of iterations (see symloop.py)."""
        from .symloop import LoopSpec

        self.c.loop_spec = LoopSpec(self, inv, havoc)

    def fresh(self, name, shape=(), ax=None):
        """Unconstrained values (results of a callee known by contract only)."""
        if shape == ():
            return core.S(self.c.fresh(name))
        r = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            r[idx] = core.S(self.c.fresh(name))
        return self.A.wrap(r, ax)

    def f(self, name, x):
        """Elementary function of a scalar or an array."""
        from . import trans

        g = getattr(trans, name)
        if isinstance(x, np.ndarray):
            return self._w(np.frompyfunc(g, 1, 1)(self.A._obj(x)), x)
        return g(x)

    def pow_hints(self, *xs):
        """Points at which chords and tangents of the power functions are made known."""
        self.c.pow_hints = tuple(sorted(float(x) for x in xs))

    def anchor(self, name, *xs):
        from . import trans

        for x in xs:
            trans.anchor(name, x)

    # cells of interest: the whole (one-pixel) grid
    def sel(self, a):
        if self.pixels is not None:
            return a[..., self._roi]
        return a

    def nsum(self, a, axis=0):
        """Sum over a layer axis."""
        return a.sum(axis=axis)


# ---------------------------------------------------------------------------

RTOL = 1e-7
ATOL = 1e-9


class ConcEnv:
    symbolic = False

    def __init__(self, rng, case, values=None, shape=None):
        self.rng = rng
        self.case = case
        self.values = values
        self.log = {}
        self.in_roi = case.get("in_roi", True)
        if case.get("pixels"):
            self.shape = tuple(case["pixels"])
            self._roi = np.array(case.get("roi", np.ones(self.shape)), dtype=bool).reshape(self.shape)
        elif values is not None:
            self.shape = (1, 1)
            self._roi = np.array([[bool(self.in_roi)]])
        else:
            if shape is None:
                shape = (int(rng.integers(1, 4)), int(rng.integers(1, 5)))
            self.shape = shape
            self._roi = rng.random(shape) < 0.8
            if not self._roi.any():
                self._roi[0, 0] = True
            if self.in_roi is True and case.get("full_roi"):
                self._roi[:] = True
        self.rows, self.cols = self.shape
        self.log["__shape__"] = list(self.shape)
        self.log["__roi__"] = self._roi.tolist()
        self.clauses = 0

    @property
    def roi(self):
        return self._roi

    roi_plain = roi

    @property
    def roi_idxs(self):
        return np.array(np.where(self._roi)).T.copy()

    # -- sampling
    def _sample(self, n, lo, hi, lo_open, hi_open, nan, integer, values, gen):
        rng = self.rng
        if values is not None:
            return rng.choice(np.array(values, dtype=float), size=n)
        l = -1e3 if lo is None else float(lo)
        h = (max(l, 0.0) + 1e3) if hi is None else float(hi)
        if lo is None and hi is not None:
            l = min(h, 0.0) - 1e3
        if integer:
            out = rng.integers(int(l), int(h) + 1, size=n).astype(float)
        else:
            mode = rng.integers(0, 8)
            out = rng.uniform(l, h, size=n)
            if mode == 0:  # cluster near the lower bound
                out = l + (h - l) * 10 ** rng.uniform(-9, 0, size=n)
            elif mode == 1:
                out = h - (h - l) * 10 ** rng.uniform(-9, 0, size=n)
            elif mode == 2:
                out[:] = rng.uniform(l, h)
            sp = []
            if lo is not None and not lo_open:
                sp.append(l)
            if hi is not None and not hi_open:
                sp.append(h)
            if l < 0 < h or (l == 0 and not lo_open):
                sp.append(0.0)
            if sp and rng.random() < 0.5:
                m = rng.random(n) < 0.3
                out[m] = rng.choice(sp, size=int(m.sum()))
            if gen is not None and rng.random() < 0.8:
                gg = gen(rng, n) if callable(gen) else rng.choice(np.array(gen, float), size=n)
                m = rng.random(n) < (1.0 if callable(gen) else 0.4)
                out[m] = np.asarray(gg, dtype=float)[m]
            if lo_open:
                out = np.where(out <= l, l + (h - l) * 1e-3, out)
            if hi_open:
                out = np.where(out >= h, h - (h - l) * 1e-3, out)
        if nan and rng.random() < 0.5:
            out[rng.random(n) < 0.2] = np.nan
        return out

    def _given(self, name):
        v = self.values.get(name)
        if v is None:
            raise Reject(f"no value for {name}")
        return v

    def scalar(
        self, name, lo=None, hi=None, lo_open=False, hi_open=False, nan=False, integer=False,
        values=None, gen=None,
    ):
        if self.values is not None:
            v = self._given(name)
        else:
            v = float(self._sample(1, lo, hi, lo_open, hi_open, nan, integer, values, gen)[0])
        if integer:
            v = int(round(v))
        self.log[name] = v
        return v

    def _arr(self, name, shp, integer, args):
        if self.values is not None:
            r = np.empty(shp)
            for idx in np.ndindex(*shp):
                r[idx] = self._given(f"{name}{list(idx)}")
        else:
            n = int(np.prod(shp))
            r = self._sample(n, *args).reshape(shp)
        if integer:
            r = np.round(r).astype(int)
        self.log[name] = r.tolist()
        return r

    def grid(
        self, name, lo=None, hi=None, lo_open=False, hi_open=False, nan=False, integer=False,
        values=None, gen=None, layers=None, boolean=False,
    ):
        shp = self.shape if layers is None else (layers, *self.shape)
        if boolean:
            r = self._arr(name, shp, False, (0, 1, False, False, False, True, None, None))
            return r.astype(bool)
        return self._arr(
            name, shp, integer, (lo, hi, lo_open, hi_open, nan, integer, values, gen)
        )

    def vec(
        self, name, n, lo=None, hi=None, lo_open=False, hi_open=False, nan=False, integer=False,
        values=None, gen=None,
    ):
        return self._arr(
            name, (n,), integer, (lo, hi, lo_open, hi_open, nan, integer, values, gen)
        )

    def const_grid(self, value, layers=None):
        shp = self.shape if layers is None else (layers, *self.shape)
        return np.full(shp, value)

    def choice(self, name, options):
        if self.values is not None:
            v = self.values.get(name, options[-1])
        else:
            v = options[int(self.rng.integers(len(options)))]
        self.log[name] = v
        return v

    # -- conditions, with tolerance for machine rounding
    @staticmethod
    def _tol(a, b, scale, rtol):
        with np.errstate(all="ignore"):
            s = np.maximum(np.abs(a), np.abs(b))
            s = np.where(np.isfinite(s), s, 0.0)
            return ATOL + (rtol or RTOL) * np.maximum(s, scale)

    def leq(self, a, b, scale=0.0, rtol=None):
        a, b = np.asarray(a, float), np.asarray(b, float)
        with np.errstate(all="ignore"):
            return (a <= b) | (a - b <= self._tol(a, b, scale, rtol))

    def geq(self, a, b, **k):
        return self.leq(b, a, **k)

    def eqv(self, a, b, scale=0.0, rtol=None):
        a, b = np.asarray(a, float), np.asarray(b, float)
        with np.errstate(all="ignore"):
            return (
                (a == b)
                | (np.abs(a - b) <= self._tol(a, b, scale, rtol))
                | (np.isnan(a) & np.isnan(b))
            )

    # exact comparisons (requires clauses and guards)
    def le(self, a, b):
        return np.asarray(a) <= np.asarray(b)

    def lt(self, a, b):
        return np.asarray(a) < np.asarray(b)

    def ge(self, a, b):
        return np.asarray(a) >= np.asarray(b)

    def gt(self, a, b):
        return np.asarray(a) > np.asarray(b)

    def eq(self, a, b):
        return self.same(a, b)

    def same(self, a, b):
        """Bitwise equality (frame conditions)."""
        a, b = np.asarray(a, float), np.asarray(b, float)
        return (a == b) | (np.isnan(a) & np.isnan(b))

    def isnan(self, a):
        return np.isnan(a)

    def isfinite(self, a):
        return np.isfinite(a)

    def and_(self, *a):
        r = a[0]
        for b in a[1:]:
            r = np.logical_and(r, b)
        return r

    def or_(self, *a):
        r = a[0]
        for b in a[1:]:
            r = np.logical_or(r, b)
        return r

    def not_(self, a):
        return np.logical_not(a)

    def implies(self, a, b):
        return np.logical_or(np.logical_not(a), b)

    def ite(self, c, a, b):
        return np.where(c, a, b)

    def assume(self, cond):
        if not np.all(cond):
            raise Reject("requires")

    def ensure(self, name, cond):
        self.clauses += 1
        if not np.all(cond):
            raise Violation(name, "clause is false on the outputs of the real code")

    def fail(self, name, detail=""):
        raise Violation(name, detail)

    def old(self, x):
        return x.copy() if isinstance(x, np.ndarray) else x

    def call(self, fn, *a, raises=(), **k):
        check_signature(fn, a, k)
        try:
            with np.errstate(all="ignore"):
                return fn(*a, **k)
        except raises as e:
            return e
        except (Reject, Violation, Mismatch):
            raise
        except Exception as e:
            if interface_changed(self, e):
                raise Mismatch(f"{type(e).__name__}: {e}")
            raise Violation("no exception", f"{type(e).__name__}: {str(e)[:200]}")

    def sel(self, a):
        """Restrict to the pixels the clause speaks about."""
        a = np.asarray(a)
        return a[..., self._roi] if self.in_roi else a[..., ~self._roi]

    def nsum(self, a, axis=0):
        return np.sum(a, axis=axis)

    def f(self, name, x):
        return getattr(np, name)(x)

    def lemma(self, name, cond):
        self.ensure('lemma: ' + name, cond)

    def pow_hints(self, *xs):
        pass

    def anchor(self, name, *xs):
        pass

    @contextlib.contextmanager
    def by_contract(self, obj, name, fn):
        yield

    def loop(self, inv, havoc):
        pass
