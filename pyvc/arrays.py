"""
Symbolic arrays.

`SArr` is a numpy object array whose elements are symbolic numbers or concrete
numbers; numpy itself does the indexing, broadcasting and masking.  A grid is
represented by ONE generic pixel p (arrays of shape (1, 1) or (layers, 1, 1)):
all element-wise operations commute with restriction to a pixel, so a run on
the generic pixel is a run on any grid seen at p.  Operations that do not
commute (reductions over the pixel axes, access to another pixel's cell) are
intercepted: reductions return a nondeterministic value consistent with p,
foreign accesses raise LocalityViolation.
"""

import numpy as np
import z3

from . import core, trans
from .core import NAN, SB, EngineError, LocalityViolation, S, ctx, is_sym


class PixIndex(int):
    """Row/column index of the generic pixel."""

    def __new__(cls, kind):
        o = int.__new__(cls, 0)
        o.kind = kind
        return o

    def __repr__(self):
        return f"<pixel {self.kind}>"

    def _foreign(self, o):
        if isinstance(o, (int, np.integer, float)):
            return ForeignIndex()
        return NotImplemented

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _foreign
    __neg__ = lambda self: ForeignIndex()  # noqa: E731


class ParIndex(int):
    """Counter of a parallel loop (arithmetic on it gives a plain index)."""


class ForeignIndex(int):
    def __new__(cls):
        return int.__new__(cls, 0)


# elementwise scalar semantics ------------------------------------------------

UF = {
    np.add: core.add,
    np.subtract: core.sub,
    np.multiply: core.mul,
    np.divide: core.div,
    np.true_divide: core.div,
    np.floor_divide: core.floordiv,
    np.remainder: core.mod,
    np.power: trans.power,
    np.float_power: trans.power,
    np.negative: lambda a: core.sub(0.0, a) if is_sym(a) else -a,
    np.positive: lambda a: a,
    np.absolute: core.absval,
    np.fabs: core.absval,
    np.minimum: core.np_minimum,
    np.maximum: core.np_maximum,
    np.fmin: lambda a, b: b if core.isnan(a) else (a if core.isnan(b) else core.np_minimum(a, b)),
    np.fmax: lambda a, b: b if core.isnan(a) else (a if core.isnan(b) else core.np_maximum(a, b)),
    np.exp: trans.exp,
    np.log: trans.log,
    np.log10: trans.log10,
    np.sqrt: trans.sqrt,
    np.square: lambda a: core.mul(a, a),
    np.tanh: trans.tanh,
    np.sin: trans.sin,
    np.cos: trans.cos,
    np.tan: trans.tan,
    np.arctan: trans.arctan,
    np.arccos: trans.arccos,
    np.arcsin: trans.arcsin,
    np.arctan2: trans.arctan2,
    np.deg2rad: lambda a: core.div(core.mul(a, np.pi), 180) if is_sym(a) else np.deg2rad(a),
    np.radians: lambda a: core.div(core.mul(a, np.pi), 180) if is_sym(a) else np.deg2rad(a),
    np.rad2deg: lambda a: core.div(core.mul(a, 180), np.pi) if is_sym(a) else np.rad2deg(a),
    np.degrees: lambda a: core.div(core.mul(a, 180), np.pi) if is_sym(a) else np.rad2deg(a),
    np.floor: core.floor,
    np.sign: lambda a: float(core._sign(a)) if is_sym(a) else float(np.sign(a)),
    np.reciprocal: lambda a: core.div(1.0, a),
    np.exp2: lambda a: trans.power(2.0, a),
    np.expm1: lambda a: core.sub(trans.exp(a), 1.0),
    np.log1p: lambda a: trans.log(core.add(a, 1.0)),
    np.hypot: lambda a, b: trans.sqrt(core.add(core.mul(a, a), core.mul(b, b))),
}
UF_BOOL = {
    np.less: core.lt,
    np.less_equal: core.le,
    np.greater: core.gt,
    np.greater_equal: core.ge,
    np.equal: core.eq,
    np.not_equal: core.ne,
    np.isnan: core.isnan,
    np.isinf: core.isinf,
    np.isfinite: core.isfinite,
    np.logical_and: lambda a, b: bool(a) and bool(b),
    np.logical_or: lambda a, b: bool(a) or bool(b),
    np.logical_not: lambda a: not bool(a),
    np.logical_xor: lambda a, b: bool(a) != bool(b),
}


def _wrapb(f):
    def g(*a):
        return bool(f(*a))

    return g


_PY = {}


def _pyfunc(u, nin):
    r = _PY.get(u)
    if r is None:
        if u in UF:
            r = np.frompyfunc(UF[u], nin, 1)
        else:
            r = np.frompyfunc(_wrapb(UF_BOOL[u]), nin, 1)
        _PY[u] = r
    return r


def raw(x):
    """View SArr as plain object ndarray."""
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    return x


def wrap(x, ax=None):
    if isinstance(x, np.ndarray):
        r = x.view(SArr)
        r.ax = ax
        return r
    return x


def _bcast_ax(inputs, ndim):
    """Axis kinds of an elementwise result."""
    out = None
    for x in inputs:
        if isinstance(x, SArr) and x.ax is not None:
            if len(x.ax) == ndim:
                if out is None or len(out) != ndim:
                    out = x.ax
            elif out is None:
                out = x.ax
    if out is None:
        return None
    if len(out) < ndim:
        return ("?",) * (ndim - len(out)) + tuple(out)
    return tuple(out) if len(out) == ndim else None


def dispatch_ufunc(ufunc, method, inputs, kwargs):
    out = kwargs.get("out")
    if method == "__call__":
        where = kwargs.get("where", True)
        ins = []
        for x in inputs:
            if isinstance(x, SArr):
                ins.append(x.view(np.ndarray))
            elif isinstance(x, (S, SB)):
                a = np.empty((), dtype=object)
                a[()] = x
                ins.append(a)
            else:
                ins.append(x)
        allconc = not any(isinstance(x, (SArr, S, SB)) for x in inputs)
        if allconc:
            return getattr(ufunc, method)(*inputs, **kwargs)
        bitwise = ufunc in (np.bitwise_and, np.bitwise_or, np.bitwise_xor, np.invert)
        if bitwise:
            ins2 = []
            for x in ins:
                if isinstance(x, np.ndarray) and x.dtype == object:
                    x = np.frompyfunc(bool, 1, 1)(x)
                    x = np.asarray(x).astype(bool)
                ins2.append(x)
            res = ufunc(*ins2)
            kind = bool
        elif ufunc in UF:
            res = _pyfunc(ufunc, ufunc.nin)(*ins)
            kind = object
        elif ufunc in UF_BOOL:
            res = _pyfunc(ufunc, ufunc.nin)(*ins)
            kind = bool
        else:
            raise EngineError(f"no symbolic semantics for ufunc {ufunc.__name__}")
        ndim = getattr(res, "ndim", 0)
        ax = _bcast_ax(inputs, ndim)
        if isinstance(res, np.ndarray):
            if kind is bool:
                res = res.astype(bool)
        elif kind is bool:
            res = bool(res)
        if where is not True:
            w = np.asarray(raw(where)).astype(bool)
            base = raw(out[0]) if out else np.empty(np.shape(res), dtype=object)
            res = np.where(w, res, base)
        if out:
            o = out[0]
            if isinstance(o, SArr):
                raw(o)[...] = raw(res) if isinstance(res, np.ndarray) else res
                return o
            o[...] = res
            return o
        if isinstance(res, np.ndarray):
            if res.ndim == 0 and not any(
                isinstance(x, np.ndarray) and x.ndim == 0 and isinstance(x, SArr) for x in inputs
            ):
                return res[()]
            return wrap(res, ax)
        return res
    if method == "reduce":
        x = inputs[0]
        axis = kwargs.get("axis", 0)
        kd = kwargs.get("keepdims", False)
        return reduce_(ufunc, x, axis, kd)
    if method == "accumulate":
        x = inputs[0]
        axis = kwargs.get("axis", 0)
        r = np.asarray(raw(x), dtype=object)
        r = np.moveaxis(r, axis, 0).copy()
        f = UF[ufunc]
        fu = np.frompyfunc(f, 2, 1)
        for k in range(1, r.shape[0]):
            r[k] = fu(r[k - 1], r[k]) if r.ndim > 1 else f(r[k - 1], r[k])
        return wrap(np.moveaxis(r, 0, axis), getattr(x, "ax", None))
    if method == "at":
        raise EngineError("ufunc.at")
    raise EngineError(f"ufunc method {method}")


PIXK = ("R", "C", "P")


def reduce_(ufunc, x, axis, keepdims=False, where=True):
    """Reduction; pixel axes give a nondeterministic result consistent with p."""
    a = np.asarray(raw(x))
    axes = tuple(range(a.ndim)) if axis is None else (axis if isinstance(axis, tuple) else (axis,))
    axes = tuple(k % a.ndim if a.ndim else 0 for k in axes)
    ax = getattr(x, "ax", None)
    pix = ax is not None and any(ax[k] in PIXK for k in axes)
    if pix:
        return pixel_reduce(ufunc, x, a, axes, ax)
    if ufunc in (np.logical_or, np.logical_and):
        b = np.frompyfunc(bool, 1, 1)(a) if a.dtype == object else a
        b = np.asarray(b).astype(bool)
        r = ufunc.reduce(b, axis=axes if axis is not None else None, keepdims=keepdims)
        return wrap(r) if isinstance(r, np.ndarray) else bool(r)
    if a.dtype == bool and ufunc is np.add:
        r = a.sum(axis=axes, keepdims=keepdims)
        return wrap(r) if isinstance(r, np.ndarray) else r
    f = UF.get(ufunc)
    if f is None:
        raise EngineError(f"reduce {ufunc.__name__}")
    ident = {np.add: 0.0, np.multiply: 1.0}.get(ufunc)
    keep = [k for k in range(a.ndim) if k not in axes]
    b = a.transpose(keep + list(axes)).reshape(
        [a.shape[k] for k in keep] + [int(np.prod([a.shape[k] for k in axes], dtype=int))]
    )
    res = np.empty(b.shape[:-1], dtype=object)
    for idx in np.ndindex(*b.shape[:-1]):
        v = b[idx]
        if len(v) == 0:
            if ident is None:
                raise ValueError("zero-size array to reduction operation")
            acc = ident
        else:
            acc = v[0]
            for y in v[1:]:
                acc = f(acc, y)
        res[idx] = acc
    rax = tuple(ax[k] for k in keep) if ax is not None else None
    if keepdims:
        res = res.reshape([1 if k in axes else a.shape[k] for k in range(a.ndim)])
        rax = ax
    if res.ndim == 0:
        return res[()]
    return wrap(res, rax)


class Count(int):
    """Number of selected pixels as seen at the generic pixel (0 or 1).

    Usable as an array length; comparing it with a number is nondeterministic
    where other pixels could matter."""

    kind = None  # "P": pixels of a subset of the region of interest, "roi": of the region of interest

    @classmethod
    def of(cls, v, kind):
        r = cls(v)
        r.kind = kind
        return r

    def _n(self):
        """The true count over all pixels: n >= self."""
        c = ctx()
        c.exact = False
        n = c.fresh("count", "I")
        c.assume(n >= (max(int(self), 1) if self.kind == "roi" else int(self)))
        return n

    def _c(self, o, f):
        n = self._n()
        return bool(core.mkb(f(n, o._n() if isinstance(o, Count) else int(o))))

    def _a(self, o, f, swap=False):
        a = S(self._n())
        b = S(o._n()) if isinstance(o, Count) else o
        return f(b, a) if swap else f(a, b)

    def __add__(self, o):
        return self._a(o, core.add)

    def __radd__(self, o):
        return self._a(o, core.add, True)

    def __sub__(self, o):
        return self._a(o, core.sub)

    def __rsub__(self, o):
        return self._a(o, core.sub, True)

    def __mul__(self, o):
        return self._a(o, core.mul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if self.kind == "P" and isinstance(o, Count) and o.kind == "roi":
            c = ctx()
            c.exact = False
            r = S(c.fresh("fraction"))
            c.assume(core.ge(r, 0))
            c.assume(core.le(r, 1))
            return r
        return self._a(o, core.div)

    def __rtruediv__(self, o):
        return self._a(o, core.div, True)

    def __gt__(self, o):
        return self._c(o, lambda n, k: n > k)

    def __ge__(self, o):
        return self._c(o, lambda n, k: n >= k)

    def __lt__(self, o):
        return self._c(o, lambda n, k: n < k)

    def __le__(self, o):
        return self._c(o, lambda n, k: n <= k)

    def __eq__(self, o):
        if isinstance(o, Count):
            return int(self) == int(o)
        return self._c(o, lambda n, k: n == k)

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        return self > 0

    __hash__ = int.__hash__


def mean_agg():
    """Mean over all pixels: arbitrary, or in the range the contract states for every pixel."""
    c = ctx()
    c.exact = False
    r = S(c.fresh("agg"))
    rng = getattr(c, "agg_range", None)
    c.notes.append("mean over all pixels abstracted" + (f" (in {rng}, the range of the averaged values)" if rng else ""))
    if rng:
        c.assume(core.ge(r, rng[0]))
        c.assume(core.le(r, rng[1]))
    return r


def pixel_reduce(ufunc, x, a, axes, ax):
    c = ctx()
    keep = [k for k in range(a.ndim) if k not in axes]
    if keep:
        if all(ax[k] not in PIXK for k in keep):
            res = np.empty([a.shape[k] for k in keep], dtype=object)
            b = a.transpose(keep + list(axes)).reshape(
        [a.shape[k] for k in keep] + [int(np.prod([a.shape[k] for k in axes], dtype=int))]
    )
            for idx in np.ndindex(*res.shape):
                res[idx] = pixel_reduce(ufunc, x, b[idx], (0,), ("P",))
            return wrap(res, tuple(ax[k] for k in keep))
        if ufunc in (np.logical_or, np.logical_and):
            # any/all over one of the pixel axes: other cells of the line are arbitrary
            b = a.transpose(keep + list(axes)).reshape([a.shape[k] for k in keep] + [-1])
            res = np.empty(b.shape[:-1], dtype=bool)
            for idx in np.ndindex(*res.shape):
                res[idx] = pixel_reduce(ufunc, x, b[idx], (0,), ("P",))
            return wrap(res, tuple(ax[k] for k in keep))
        raise EngineError("partial reduction over pixel axes")
    vals = [v for v in a.ravel()]
    if ufunc is np.logical_or:
        for v in vals:
            if bool(v):
                return True
        return c.choose("any")
    if ufunc is np.logical_and:
        for v in vals:
            if not bool(v):
                return False
        return c.choose("all")
    if a.dtype == bool and ufunc is np.add:
        kind = "roi" if getattr(x, "is_roi", False) else ("P" if ax == ("P",) else None)
        return Count.of(sum(bool(v) for v in vals), kind)
    if ufunc in (np.minimum, np.fmin, np.maximum, np.fmax):
        c.notes.append("min/max over all pixels abstracted")
        c.exact = False
        n = S(c.fresh("agg"))
        for v in vals:
            if not core.isfinite(v):
                if core.isnan(v) and ufunc in (np.fmin, np.fmax):
                    continue
                return v
            c.assume(core.le(n, v) if ufunc in (np.minimum, np.fmin) else core.le(v, n))
        return n
    if ufunc is np.add:
        c.notes.append("sum over all pixels abstracted")
        c.exact = False
        n = S(c.fresh("agg"))
        return n
    raise EngineError(f"reduction {ufunc.__name__} over pixels")


def _own_cell(arr, key):
    k = key if isinstance(key, tuple) else (key,)
    if any(isinstance(q, ParIndex) for q in k):  # own element of an array over the iterations
        return True
    if arr.ax is None or arr.ax[-2:] != ("R", "C"):
        return False
    return len(k) >= 2 and isinstance(k[-1], PixIndex) and isinstance(k[-2], PixIndex)


class SArr(np.ndarray):
    """Object (or bool/int) ndarray carrying symbolic numbers and axis kinds."""

    __array_priority__ = 1000

    def __new__(cls, data, ax=None):
        o = np.asarray(data, dtype=object).view(cls)
        o.ax = ax
        return o

    def __array_finalize__(self, obj):
        ax = getattr(obj, "ax", None)
        self.ax = ax if (ax is not None and len(ax) == self.ndim) else None
        self.born = core.CTX.epoch if core.CTX is not None else 0

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return dispatch_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return dispatch_function(func, args, kwargs)

    # -- indexing
    def _index_ax(self, key):
        """Axis kinds of self[key], with locality check."""
        if self.ax is None:
            return None
        k = key if isinstance(key, tuple) else (key,)
        # expand Ellipsis
        nd = 0
        for q in k:
            if q is None or q is Ellipsis:
                continue
            if isinstance(q, np.ndarray) and q.dtype == bool:
                nd += q.ndim
            elif isinstance(q, list) and q and isinstance(q[0], (bool, np.bool_)):
                nd += 1
            else:
                nd += 1
        full = []
        seen = False
        for q in k:
            if q is Ellipsis and not seen:
                full += [slice(None)] * (self.ndim - nd)
                seen = True
            else:
                full.append(q)
        if not seen:
            full += [slice(None)] * (self.ndim - nd)
        out = []
        i = 0
        adv = False
        for q in full:
            if q is None:
                out.append("?")
                continue
            kind = self.ax[i] if i < len(self.ax) else "?"
            if isinstance(q, (int, np.integer)) and not isinstance(q, (bool, np.bool_)):
                if kind in ("R", "C"):
                    if core.CTX is not None and core.CTX.in_code:
                        if isinstance(q, (PixIndex, ForeignIndex)):
                            if not (isinstance(q, PixIndex) and q.kind == kind):
                                raise LocalityViolation(
                                    f"access to a cell not addressed by the pixel's own {kind} index"
                                )
                        else:
                            raise EngineError("plain integer index into a pixel axis")
                elif isinstance(q, (PixIndex, ForeignIndex)):
                    raise LocalityViolation("pixel index used on a non-pixel axis")
                elif kind == "P":
                    raise EngineError("integer index into a pixel selection")
                i += 1
            elif isinstance(q, slice):
                if kind in PIXK and (q.start is not None or q.stop is not None or q.step is not None):
                    raise EngineError("slice of a pixel axis")
                out.append(kind)
                i += 1
            elif isinstance(q, np.ndarray) and q.dtype == bool:
                ks = self.ax[i : i + q.ndim]
                if any(x in PIXK for x in ks):
                    out.append("P" if all(x in PIXK for x in ks) else "LP")
                else:
                    out.append(kind)
                i += q.ndim
                adv = True
            elif isinstance(q, (np.ndarray, list)):
                qa = np.asarray(q)
                out += [kind if qa.ndim == 1 else "?"] * max(qa.ndim, 0)
                i += 1
                adv = True
            elif isinstance(q, S):
                i += 1
            else:
                return None
        return tuple(out)

    def _key(self, key):
        def conv(q):
            if isinstance(q, S):
                return q.__index__()
            if isinstance(q, SArr):
                r = q.view(np.ndarray)
                if r.dtype == object:
                    if r.size and all(isinstance(v, (bool, np.bool_, SB)) for v in r.ravel()):
                        return np.frompyfunc(bool, 1, 1)(r).astype(bool)
                    return r.astype(int)
                return r
            if isinstance(q, slice):
                return slice(*[conv(v) for v in (q.start, q.stop, q.step)])
            return q

        if isinstance(key, tuple):
            return tuple(conv(q) for q in key)
        return conv(key)

    def __getitem__(self, key):
        key = self._key(key)
        ax = self._index_ax(key)
        r = self.view(np.ndarray)[key]
        if isinstance(r, np.ndarray):
            r = r.view(SArr)
            r.ax = ax if (ax is not None and len(ax) == r.ndim) else None
        return r

    def __setitem__(self, key, val):
        key = self._key(key)
        self._index_ax(key)
        c = core.CTX
        if c is not None and c.parallel and self.born != c.epoch:
            # array from outside the parallel loop: only the pixel's own cell
            if c.grid_mode and not _own_cell(self, key):
                raise LocalityViolation("write to shared data inside a parallel loop")
        self.view(np.ndarray)[key] = raw(val)

    # -- methods numpy implements in C without dispatch
    def _red(self, u, axis=None, keepdims=False):
        return reduce_(u, self, axis, keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return self._red(np.add, axis, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return self._red(np.multiply, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return self._red(np.minimum, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return self._red(np.maximum, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return self._red(np.logical_or, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return self._red(np.logical_and, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        a = np.asarray(raw(self))
        axes = tuple(range(a.ndim)) if axis is None else (axis if isinstance(axis, tuple) else (axis,))
        axes = tuple(q % a.ndim for q in axes)
        if self.ax is not None and any(self.ax[q] in PIXK for q in axes):
            return mean_agg()
        n = 1
        for q in axes:
            n *= a.shape[q]
        return self.sum(axis=axis, keepdims=keepdims) / n

    def clip(self, min=None, max=None, out=None, **k):  # noqa: A002
        r = clip(self, min, max)
        if out is not None:
            out[...] = r
            return out
        return r

    def cumsum(self, axis=None, **k):
        return np.add.accumulate(self if axis is not None else self.ravel(), axis=axis or 0)

    def astype(self, dtype, **k):
        dt = np.dtype(dtype)
        if dt == bool:
            return wrap(np.frompyfunc(bool, 1, 1)(raw(self)).astype(bool), self.ax)
        if dt.kind in "iu":
            return wrap(np.frompyfunc(core.trunc, 1, 1)(raw(self)), self.ax)
        return self.copy()

    def copy(self, order="C"):
        r = self.view(np.ndarray).copy().view(SArr)
        r.ax = self.ax
        return r

    def fill(self, v):
        raw(self)[...] = v

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def argmax(self, axis=None, **k):
        return argext(self, axis, core.lt)

    def argmin(self, axis=None, **k):
        return argext(self, axis, core.gt)

    def round(self, *a, **k):
        raise EngineError("round")

    def std(self, *a, **k):
        raise EngineError("std")

    def argsort(self, *a, **k):
        return _argsort(self, *a, **k)

    def sort(self, *a, **k):
        raise EngineError("sort")


def argext(x, axis, worse):
    a = np.asarray(raw(x))
    if a.ndim != 1 or (getattr(x, "ax", None) and x.ax[0] in PIXK):
        raise EngineError("argmin/argmax")
    best = 0
    for k in range(1, len(a)):
        if bool(worse(a[best], a[k])):
            best = k
    return best


def clip(x, lo=None, hi=None):
    r = x
    if lo is not None:
        r = np.maximum(r, lo)
    if hi is not None:
        r = np.minimum(r, hi)
    return r


HANDLED = {}


def implements(*fs):
    def deco(g):
        for f in fs:
            HANDLED[f] = g
        return g

    return deco


def _has_sym(x):
    if isinstance(x, (S, SB, SArr)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(y) for y in x)
    return False


def dispatch_function(func, args, kwargs):
    h = HANDLED.get(func)
    if h is not None:
        return h(*args, **kwargs)
    if func in GENERIC:
        a = _unwrap(args)
        k = _unwrap(kwargs)
        r = func(*a, **k)
        return _rewrap(r)
    raise EngineError(f"no symbolic semantics for numpy.{func.__name__}")


def _unwrap(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, (S, SB)):
        return _obj(x)
    if isinstance(x, tuple):
        return tuple(_unwrap(y) for y in x)
    if isinstance(x, list):
        return [_unwrap(y) for y in x]
    if isinstance(x, dict):
        return {k: _unwrap(v) for k, v in x.items()}
    return x


def _rewrap(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return wrap(x)
    if isinstance(x, tuple):
        return tuple(_rewrap(y) for y in x)
    if isinstance(x, list):
        return [_rewrap(y) for y in x]
    return x


# functions that only move elements around (axis kinds are lost)
GENERIC = {
    np.reshape,
    np.ravel,
    np.transpose,
    np.moveaxis,
    np.swapaxes,
    np.squeeze,
    np.expand_dims,
    np.concatenate,
    np.stack,
    np.vstack,
    np.hstack,
    np.dstack,
    np.column_stack,
    np.broadcast_to,
    np.broadcast_arrays,
    np.tile,
    np.repeat,
    np.roll,
    np.rot90,
    np.pad,
    np.ix_,
    np.flip,
    np.flipud,
    np.fliplr,
    np.atleast_1d,
    np.atleast_2d,
    np.append,
    np.take,
    np.ndim,
    np.shape,
    np.size,
    np.meshgrid,
    np.insert,
    np.delete,
    np.split,
    np.array_split,
}


@implements(np.where)
def _where(cond, a=None, b=None):
    if a is None:
        c = np.asarray(raw(cond))
        if c.dtype == object:
            c = np.frompyfunc(bool, 1, 1)(c).astype(bool)
        return np.where(c)
    ax = _bcast_ax([cond, a, b], max(np.ndim(cond), np.ndim(a), np.ndim(b)))
    f = np.frompyfunc(lambda c, x, y: core.ite(c if isinstance(c, SB) else bool(c), x, y), 3, 1)
    r = f(_obj(cond), _obj(a), _obj(b))
    return wrap(r, ax) if isinstance(r, np.ndarray) else r


def _obj(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, (S, SB)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return x


@implements(np.nan_to_num)
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        if core.isnan(v):
            return nan
        if core.isinf(v):
            big = 1.7976931348623157e308
            if v > 0:
                return big if posinf is None else posinf
            return -big if neginf is None else neginf
        return v

    r = np.frompyfunc(f, 1, 1)(_obj(x))
    if isinstance(x, SArr):
        r = wrap(r, x.ax)
        if not copy:
            raw(x)[...] = raw(r)
            return x
        return r
    return r


@implements(np.clip)
def _clip(x, a_min=None, a_max=None, out=None, *, min=None, max=None, **k):  # noqa: A002
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = clip(x, lo, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def _mkred(u):
    def g(x, axis=None, dtype=None, out=None, keepdims=False, **k):
        if k.get("where", True) is not True:
            raise EngineError("where= in reduction")
        if isinstance(x, (list, tuple)):
            x = SArr(np.array([_s(v) for v in x], dtype=object))
        if isinstance(x, (S, SB)):
            return x
        return reduce_(u, x, axis, keepdims is True)

    return g


def _s(v):
    return v


HANDLED[np.sum] = _mkred(np.add)
HANDLED[np.prod] = _mkred(np.multiply)
HANDLED[np.min] = HANDLED[np.amin] = _mkred(np.minimum)
HANDLED[np.max] = HANDLED[np.amax] = _mkred(np.maximum)
HANDLED[np.any] = _mkred(np.logical_or)
HANDLED[np.all] = _mkred(np.logical_and)
HANDLED[np.nanmin] = _mkred(np.fmin)
HANDLED[np.nanmax] = _mkred(np.fmax)


@implements(np.nansum)
def _nansum(x, axis=None, **k):
    y = np.frompyfunc(lambda v: 0.0 if core.isnan(v) else v, 1, 1)(_obj(x))
    y = wrap(y, getattr(x, "ax", None))
    return reduce_(np.add, y, axis, k.get("keepdims", False) is True)


@implements(np.mean)
def _mean(x, axis=None, **k):
    return x.mean(axis=axis, keepdims=k.get("keepdims", False) is True)


@implements(np.average)
def _average(x, axis=None, weights=None, **k):
    if weights is None:
        return x.mean(axis=axis) if isinstance(x, SArr) else _mean(x, axis=axis)
    x = x if isinstance(x, SArr) else SArr(x)
    w = np.asarray(_obj(weights))
    if w.ndim == 1 and x.ndim > 1:
        sh = [1] * x.ndim
        sh[axis] = -1
        w = w.reshape(sh)
    w = wrap(w.astype(object))
    num = (x * w).sum(axis=axis)
    den = (wrap(np.ones(x.shape).astype(object), x.ax) * w).sum(axis=axis)
    return num / den


@implements(np.zeros_like, np.ones_like, np.full_like, np.empty_like)
def _like(*a, **k):
    raise EngineError("*_like without proxy")


@implements(np.copyto)
def _copyto(dst, src, where=True, **k):
    if where is True:
        dst[...] = src
    else:
        w = np.asarray(raw(where)).astype(bool)
        s = np.broadcast_to(np.asarray(raw(src), dtype=object), w.shape)
        dst[w] = s[w]


@implements(np.putmask)
def _putmask(a, mask, values):
    _copyto(a, values, where=mask)


@implements(np.diff)
def _diff(x, n=1, axis=-1, **k):
    if n != 1:
        raise EngineError("diff n")
    r = raw(x)
    if axis not in (-1, r.ndim - 1) and r.ndim > 1:
        r = np.moveaxis(r, axis, -1)
        d = wrap(r[..., 1:]) - wrap(r[..., :-1])
        return wrap(np.moveaxis(raw(d), -1, axis))
    return wrap(r[..., 1:]) - wrap(r[..., :-1])


@implements(np.cumsum)
def _cumsum(x, axis=None, **k):
    return x.cumsum(axis=axis)


@implements(np.flatnonzero)
def _flatnonzero(x):
    return np.flatnonzero(np.asarray(raw(x)).astype(bool))


@implements(np.nonzero, np.argwhere)
def _nonzero(x):
    return np.nonzero(np.asarray(raw(x)).astype(bool))


@implements(np.count_nonzero)
def _count_nonzero(x, axis=None, **k):
    return wrap(np.asarray(raw(x)).astype(bool), getattr(x, "ax", None)).sum(axis=axis)


@implements(np.array_equal)
def _array_equal(a, b, **k):
    a, b = np.asarray(raw(a)), np.asarray(raw(b))
    return a.shape == b.shape and all(bool(core.eq(x, y)) for x, y in zip(a.ravel(), b.ravel()))


@implements(np.isclose)
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np.abs(a - b) <= atol + rtol * np.abs(b)


@implements(np.iscomplexobj)
def _iscomplexobj(x):
    return False


@implements(np.copy)
def _copy(x, **k):
    return x.copy() if isinstance(x, SArr) else x


@implements(np.searchsorted)
def _searchsorted(a, v, side="left", sorter=None):
    if sorter is not None:
        raise EngineError("searchsorted sorter")
    xs = list(np.asarray(raw(a)))

    def f(q):
        for i, x in enumerate(xs):  # a is sorted: first position not below (left) / above (right) q
            if bool(core.le(q, x) if side == "left" else core.lt(q, x)):
                return i
        return len(xs)

    if isinstance(v, np.ndarray) and v.ndim:
        return np.array([f(q) for q in np.asarray(raw(v))])
    return f(v[()] if isinstance(v, np.ndarray) else v)


@implements(np.interp)
def _interp(x, xp, fp, left=None, right=None, **k):
    xp = list(np.asarray(raw(xp)))
    fp = list(np.asarray(raw(fp)))

    def f(v):
        if core.isnan(v):
            return NAN
        if bool(core.le(v, xp[0])):
            return fp[0] if (left is None or bool(core.eq(v, xp[0]))) else left
        for i in range(1, len(xp)):
            if bool(core.le(v, xp[i])):
                s = core.div(core.sub(fp[i], fp[i - 1]), core.sub(xp[i], xp[i - 1]))
                return core.add(fp[i - 1], core.mul(s, core.sub(v, xp[i - 1])))
        return fp[-1] if right is None else right

    r = np.frompyfunc(f, 1, 1)(_obj(x))
    return wrap(r, getattr(x, "ax", None)) if isinstance(r, np.ndarray) else r


def _nanmean1(vals):
    v = [q for q in vals if not core.isnan(q)]
    if not v:
        return NAN
    r = v[0]
    for q in v[1:]:
        r = core.add(r, q)
    return core.div(r, float(len(v)))


@implements(np.nanmean)
def _nanmean(x, axis=None, **k):
    if k.get("keepdims") or k.get("where") is not None:
        raise EngineError("nanmean options")
    a = np.asarray(raw(x))
    axes = tuple(range(a.ndim)) if axis is None else (axis if isinstance(axis, tuple) else (axis,))
    axes = tuple(q % a.ndim for q in axes)
    ax = getattr(x, "ax", None)
    if ax and any(ax[q] in PIXK for q in axes):
        if len(axes) == a.ndim:
            return mean_agg()
        raise EngineError("nanmean over pixels")
    keep = [q for q in range(a.ndim) if q not in axes]
    b = a.transpose(keep + list(axes)).reshape([a.shape[q] for q in keep] + [-1])
    if not keep:
        return _nanmean1(list(b))
    res = np.empty(b.shape[:-1], dtype=object)
    for idx in np.ndindex(*res.shape):
        res[idx] = _nanmean1(list(b[idx]))
    return wrap(res, tuple(ax[q] for q in keep) if ax else None)


@implements(np.polyfit)
def _polyfit(x, y, deg, **k):
    """Assumed contract of the dependency: least squares line (normal equations), n >= 2 and x not all equal."""
    if deg != 1 or k:
        raise EngineError("polyfit")
    c = ctx()
    xs, ys = list(np.asarray(raw(x))), list(np.asarray(raw(y)))
    if len(xs) < 2 or any(core.isnan(v) for v in xs + ys):
        raise EngineError("polyfit of degenerate data")
    c.notes.append("numpy.polyfit(deg=1): assumed to solve the normal equations")
    s, i = S(c.fresh("slope")), S(c.fresh("intercept"))
    r = [y_ - (i + s * x_) for x_, y_ in zip(xs, ys)]
    sr, sx = r[0], r[0] * xs[0]
    for q, x_ in zip(r[1:], xs[1:]):
        sr, sx = sr + q, sx + q * x_
    c.assume(core.eq(sr, 0.0))
    c.assume(core.eq(sx, 0.0))
    o = np.empty(2, dtype=object)
    o[0], o[1] = s, i
    return wrap(o)


def _order(vals):
    """Indices of an ascending, stable order (forks on the comparisons); NaN last."""
    out = []
    for i, v in enumerate(vals):
        j = len(out)
        if not core.isnan(v):
            while j > 0 and (core.isnan(vals[out[j - 1]]) or bool(core.lt(v, vals[out[j - 1]]))):
                j -= 1
        out.insert(j, i)
    return out


@implements(np.argsort)
def _argsort(x, axis=-1, **k):
    x = np.asarray(raw(x))
    if x.ndim != 1 or x.size > 6 or axis not in (-1, 0):
        raise EngineError("argsort on symbolic data")
    ctx().notes.append("numpy.argsort: the order of equal elements is taken to be stable")
    return np.array(_order(list(x)), dtype=int)


@implements(np.sort)
def _sort(x, axis=-1, **k):
    x = np.asarray(raw(x))
    if x.ndim != 1 or x.size > 6 or axis not in (-1, 0):
        raise EngineError("sort on symbolic data")
    o = np.empty(x.shape, dtype=object)
    for i, j in enumerate(_order(list(x))):
        o[i] = x[j]
    return wrap(o)


@implements(np.round, np.around)
def _round(x, decimals=0, out=None):
    def f(v):
        v = core.scalar(v)
        if core.is_sym(v):
            k = core._const_of(core.z3.simplify(core.real(core.term(v))))
            if k is None:
                raise EngineError("round of a symbolic number")
            v = float(k)
        return float(np.round(v, decimals))

    if np.ndim(x) == 0:
        return f(_s(x))
    r = np.frompyfunc(f, 1, 1)(_obj(x))
    return wrap(r, getattr(x, "ax", None))


@implements(np.dot, np.inner, np.vdot)
def _dot(a, b, out=None):
    a, b = _obj(a), _obj(b)
    if np.ndim(a) == 0 or np.ndim(b) == 0:
        return wrap(a, None) * wrap(b, None) if np.ndim(a) or np.ndim(b) else core.mul(_s(a), _s(b))
    if np.ndim(a) == 1 and np.ndim(b) == 1:
        if len(a) != len(b):
            raise ValueError("shapes not aligned")
        t = 0.0
        for x, y in zip(a, b):
            t = core.add(t, core.mul(core.scalar(x), core.scalar(y)))
        return t
    raise EngineError("dot of matrices")


@implements(np.median, np.percentile, np.std)
def _unsupported(*a, **k):
    raise EngineError("unsupported numpy function on symbolic data")


# ---------------------------------------------------------------------------
# numpy stand-in placed into the modules under verification
# ---------------------------------------------------------------------------


class NpProxy:
    """Delegates to numpy; array constructors yield arrays able to hold
    symbolic numbers while a symbolic run is active."""

    def __init__(self, real_np=np):
        object.__setattr__(self, "_np", real_np)

    def __getattr__(self, name):
        f = PROXY.get(name)
        if f is not None and core.CTX is not None:
            return f
        return getattr(self._np, name)


def _ax_for(shape):
    shp = shape if isinstance(shape, tuple) else (shape,)
    if len(shp) >= 2 and tuple(int(s) for s in shp[-2:]) == (1, 1) and core.CTX.grid_mode:
        return ("L",) * (len(shp) - 2) + ("R", "C")
    if len(shp) == 1 and isinstance(shp[0], Count):
        return ("P",)
    return None


def _shape(shape):
    if isinstance(shape, (list, tuple)):
        return tuple(int(s) for s in shape)
    return int(shape)


def _symbolic_length(n):
    if type(n).__name__ == "ColShape":
        n = n[0]
    return isinstance(n, S) and bool(getattr(core.CTX, "loop_specs", None)) and core._const_of(z3.simplify(n.e)) is None


def symvec(shape, v):
    from .loops import SymVec

    cols = isinstance(shape, tuple)
    return SymVec(shape[0] if cols else shape, lambda t: v, "cols" if cols else False)


def _ctor(fill):
    def g(shape, dtype=float, order="C", **k):
        if _symbolic_length(shape):
            return symvec(shape, float(fill))
        if dtype is not None and np.dtype(dtype) == bool:
            return wrap(np.full(_shape(shape), bool(fill), dtype=bool), _ax_for(shape))
        r = np.empty(_shape(shape), dtype=object)
        kind = np.dtype(dtype).kind if dtype is not None else "f"
        r[...] = int(fill) if kind in "iu" and fill == fill else float(fill)
        return wrap(r, _ax_for(shape))

    return g


def p_full(shape, fill_value, dtype=None, order="C", **k):
    if _symbolic_length(shape):
        return symvec(shape, fill_value)
    if dtype is not None and np.dtype(dtype) == bool:
        return wrap(np.full(_shape(shape), bool(fill_value), dtype=bool), _ax_for(shape))
    r = np.empty(_shape(shape), dtype=object)
    r[...] = raw(fill_value)
    return wrap(r, _ax_for(shape))


def _p_like(fill):
    def g(a, dtype=None, order="K", subok=True, shape=None, **k):
        if not isinstance(a, (SArr, S)):
            a = np.asarray(a)
        shp = np.shape(raw(a)) if shape is None else shape
        if (dtype is not None and np.dtype(dtype) == bool) or (
            dtype is None and getattr(a, "dtype", None) == bool
        ):
            return wrap(np.full(shp, bool(fill), dtype=bool), getattr(a, "ax", None))
        r = np.empty(shp, dtype=object)
        r[...] = fill
        return wrap(r, getattr(a, "ax", None) if shape is None else None)

    return g


def p_full_like(a, fill_value, dtype=None, **k):
    r = np.empty(np.shape(raw(a)), dtype=object)
    r[...] = raw(fill_value)
    if dtype is not None and np.dtype(dtype) == bool:
        r = r.astype(bool)
    return wrap(r, getattr(a, "ax", None))


def _flatten_sym(x):
    return isinstance(x, (list, tuple)) and _has_sym(x)


def p_array(x, dtype=None, copy=True, **k):
    if isinstance(x, SArr):
        r = x.copy()
        if dtype is not None and np.dtype(dtype) == bool:
            return r.astype(bool)
        return r
    if isinstance(x, (S, SB)):
        a = np.empty((), dtype=object)
        a[()] = x
        return wrap(a)
    if _flatten_sym(x):
        return wrap(np.array(_unwrap(x), dtype=object))
    if dtype is not None and np.dtype(dtype) == bool:
        return np.array(x, dtype=bool)
    r = np.array(x, dtype=dtype, **k)
    if r.dtype.kind == "f" and core.CTX is not None:
        return wrap(r.astype(object))
    return r


def p_asarray(x, dtype=None, **k):
    if isinstance(x, SArr):
        return x
    return p_array(x, dtype=dtype)


def p_linspace(*a, **k):
    if _has_sym(a):
        raise EngineError("linspace")
    return np.linspace(*a, **k)


def p_errstate(*a, **k):
    return np.errstate(*a, **k)


def p_isscalar(x):
    return isinstance(x, (S, SB)) or np.isscalar(x)


def _p1(ufunc):
    return ufunc


PROXY = {
    "zeros": _ctor(0.0),
    "ones": _ctor(1.0),
    "empty": _ctor(float("nan")),
    "full": p_full,
    "zeros_like": _p_like(0.0),
    "ones_like": _p_like(1.0),
    "empty_like": _p_like(float("nan")),
    "full_like": p_full_like,
    "array": p_array,
    "asarray": p_asarray,
    "ascontiguousarray": p_asarray,
    "linspace": p_linspace,
    "isscalar": p_isscalar,
}
