"""
Symbolic scalars, path exploration and proof obligations.

A symbolic number `S` stands for an arbitrary *finite* real (or integer) and
wraps a z3 term.  NaN and the infinities are ordinary Python floats: whenever
an operation on symbolic numbers may produce one (division by zero, logarithm
of a non-positive number, ...) the execution forks, so that on each path the
value is either a finite term or a concrete special value.  Machine arithmetic
is thus modelled as IEEE 754 without rounding and without overflow.

The code under verification is executed by CPython itself; each `bool()` of a
symbolic condition is a branch of the VC generator.  All feasible paths are
enumerated by re-execution.
"""

import math
import os
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

import numpy as np  # noqa: E402
import z3  # noqa: E402

NAN = float("nan")
INF = float("inf")


class EngineError(Exception):
    """The engine met something it has no symbolic semantics for."""


class PathAbort(BaseException):
    """Path infeasible / cut (not an error of the code under verification)."""


class Budget(BaseException):
    """Path or time budget exhausted."""


class LocalityViolation(Exception):
    """Code touched a pixel other than its own."""


# ---------------------------------------------------------------------------
# current context
# ---------------------------------------------------------------------------

CTX = None


def ctx():
    if CTX is None:
        raise EngineError("no symbolic context active")
    return CTX


_num_cache = {}


def numval(x):
    """z3 numeral of a finite Python number (decimal reading of floats)."""
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    x = float(x)
    r = _num_cache.get(x)
    if r is None:
        if x == int(x) and abs(x) < 1e15:
            r = z3.RealVal(int(x))
        else:
            r = z3.RealVal(str(Fraction(repr(x))))
        _num_cache[x] = r
    return r


def is_special(x):
    return isinstance(x, (float, np.floating)) and (x != x or x in (INF, -INF))


def is_sym(x):
    return isinstance(x, (S, SB))


def scalar(x):
    """Unwrap 0-d arrays."""
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.item() if x.dtype != object else x[()]
    return x


def term(x):
    """z3 term of a finite symbolic or concrete number."""
    x = scalar(x)
    if isinstance(x, S):
        return x.e
    if isinstance(x, SB):
        return z3.If(x.b, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, (int, float, np.number, np.bool_, Fraction)):
        if is_special(x):
            raise EngineError("special float where a finite term is needed")
        return numval(x)
    raise EngineError(f"cannot lift {type(x).__name__} to a term")


def real(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def _const_of(e):
    """Return the Fraction value of a numeral term, or None."""
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


def mk(e):
    """Wrap a term; numerals become Python floats/ints again."""
    if z3.is_rational_value(e) or z3.is_int_value(e):
        return S(e)
    return S(e)


class SB:
    """Symbolic Boolean."""

    __slots__ = ("b",)
    __array_priority__ = 1000

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return ctx().decide(self.b)

    def __and__(self, o):
        return mkb(z3.And(self.b, bterm(o)))

    def __or__(self, o):
        return mkb(z3.Or(self.b, bterm(o)))

    def __invert__(self):
        return mkb(z3.Not(self.b))

    def __xor__(self, o):
        return mkb(z3.Xor(self.b, bterm(o)))

    __rand__ = __and__
    __ror__ = __or__
    __rxor__ = __xor__

    def __repr__(self):
        return f"SB({self.b})"

    __hash__ = None

    # arithmetic on a condition: decide it
    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __eq__(self, o):
        return mkb(self.b == bterm(o))

    def __ne__(self, o):
        return mkb(self.b != bterm(o))


def bterm(x):
    x = scalar(x)
    if isinstance(x, SB):
        return x.b
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (int, np.integer)) and x in (0, 1):
        return z3.BoolVal(bool(x))
    raise EngineError(f"not a Boolean: {x!r}")


def mkb(b):
    b = z3.simplify(b)
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return SB(b)


def _num(o):
    return isinstance(o, (int, float, np.number, np.bool_, S, SB))


class S:
    """Symbolic finite number."""

    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    # numpy dispatch for `np.float64 op S`, `np.exp(S)`, ...
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import arrays

        return arrays.dispatch_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import arrays

        return arrays.dispatch_function(func, args, kwargs)

    # numpy-scalar look-alikes
    ndim = 0
    shape = ()
    size = 1
    dtype = np.dtype(float)

    def copy(self):
        return self

    def item(self):
        return self

    def astype(self, dt):
        if np.dtype(dt) == np.dtype(float) or np.dtype(dt) == object:
            return self
        if np.dtype(dt).kind in "iu":
            return trunc(self)
        raise EngineError("astype")

    @property
    def real(self):
        return self

    def sum(self, *a, **k):
        return self

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        raise EngineError("indexing a symbolic scalar")

    def __repr__(self):
        t = str(self.e)
        return f"S({t if len(t) < 80 else t[:77] + '...'})"

    # -- arithmetic
    def __add__(self, o):
        return add(self, o) if _num(o) else NotImplemented

    def __radd__(self, o):
        return add(o, self) if _num(o) else NotImplemented

    def __sub__(self, o):
        return sub(self, o) if _num(o) else NotImplemented

    def __rsub__(self, o):
        return sub(o, self) if _num(o) else NotImplemented

    def __mul__(self, o):
        return mul(self, o) if _num(o) else NotImplemented

    def __rmul__(self, o):
        return mul(o, self) if _num(o) else NotImplemented

    def __truediv__(self, o):
        return div(self, o) if _num(o) else NotImplemented

    def __rtruediv__(self, o):
        return div(o, self) if _num(o) else NotImplemented

    def __pow__(self, o):
        from . import trans

        return trans.power(self, o) if _num(o) else NotImplemented

    def __rpow__(self, o):
        from . import trans

        return trans.power(o, self) if _num(o) else NotImplemented

    def __floordiv__(self, o):
        return floordiv(self, o) if _num(o) else NotImplemented

    def __rfloordiv__(self, o):
        return floordiv(o, self) if _num(o) else NotImplemented

    def __mod__(self, o):
        return mod(self, o) if _num(o) else NotImplemented

    def __rmod__(self, o):
        return mod(o, self) if _num(o) else NotImplemented

    def __neg__(self):
        return mk(z3.simplify(-self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return absval(self)

    # -- comparisons
    def __lt__(self, o):
        return lt(self, o) if _num(o) else NotImplemented

    def __le__(self, o):
        return le(self, o) if _num(o) else NotImplemented

    def __gt__(self, o):
        return lt(o, self) if _num(o) else NotImplemented

    def __ge__(self, o):
        return le(o, self) if _num(o) else NotImplemented

    def __eq__(self, o):
        return eq(self, o) if _num(o) else NotImplemented

    def __ne__(self, o):
        return ne(self, o) if _num(o) else NotImplemented

    def __hash__(self):
        return hash(self.e)

    def __bool__(self):
        return bool(ne(self, 0))

    # -- concretisation
    def __index__(self):
        return ctx().concretize_int(self.e)

    def __int__(self):
        return ctx().concretize_int(trunc(self).e)

    def __float__(self):
        c = _const_of(z3.simplify(self.e))
        if c is not None:
            return float(c)
        raise EngineError("float() of a symbolic number")

    def __round__(self, n=None):
        raise EngineError("round of a symbolic number")

    def __floor__(self):
        return floor(self)

    # methods numpy's object loops look for
    def exp(self):
        from . import trans

        return trans.exp(self)

    def sqrt(self):
        from . import trans

        return trans.sqrt(self)

    def conjugate(self):
        return self

    # numpy scalars have these array methods
    def clip(self, min=None, max=None, **k):  # noqa: A002
        r = self
        if min is not None:
            r = np_maximum(r, min)
        if max is not None:
            r = np_minimum(r, max)
        return r

    def copy(self):
        return self


def add(a, b):
    a, b = scalar(a), scalar(b)
    if is_special(a) or is_special(b):
        return _special2(a, b, lambda x, y: x + y, additive=True)
    if not is_sym(a) and not is_sym(b):
        return a + b
    if not is_sym(a) and a == 0:
        return b
    if not is_sym(b) and b == 0:
        return a
    return mk(real(term(a)) + real(term(b)))


def sub(a, b):
    a, b = scalar(a), scalar(b)
    if is_special(a) or is_special(b):
        return _special2(a, b, lambda x, y: x - y, additive=True)
    if not is_sym(a) and not is_sym(b):
        return a - b
    if not is_sym(b) and b == 0:
        return a
    if isinstance(a, S) and isinstance(b, S) and a.e.eq(b.e):
        return 0.0
    return mk(real(term(a)) - real(term(b)))


def _special2(a, b, f, additive):
    if (is_special(a) and a != a) or (is_special(b) and b != b):
        return NAN
    # at least one infinity
    if additive:
        x = 0.0 if is_sym(a) else float(a)
        y = 0.0 if is_sym(b) else float(b)
        return f(x, y)
    raise EngineError("special")


def _sign(x):
    """Fork on the sign of a symbolic number: returns -1, 0 or 1."""
    if not is_sym(x):
        x = float(x)
        return 0 if x == 0 else (1 if x > 0 else -1)
    if bool(lt(0, x)):
        return 1
    if bool(lt(x, 0)):
        return -1
    return 0


def mul(a, b):
    a, b = scalar(a), scalar(b)
    if is_special(a) or is_special(b):
        if (is_special(a) and a != a) or (is_special(b) and b != b):
            return NAN
        s = _sign(a) * _sign(b)
        return NAN if s == 0 else s * INF
    if not is_sym(a) and not is_sym(b):
        return a * b
    if not is_sym(a):
        if a == 0:
            return 0.0
        if a == 1:
            return b
    if not is_sym(b):
        if b == 0:
            return 0.0
        if b == 1:
            return a
    return mk(real(term(a)) * real(term(b)))


def div(a, b):
    a, b = scalar(a), scalar(b)
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all="ignore"):
            return float(np.float64(a) / np.float64(b))
    if is_special(a) or is_special(b):
        if (is_special(a) and a != a) or (is_special(b) and b != b):
            return NAN
        if is_special(b):
            return 0.0  # finite / inf (a is symbolic, hence finite)
        s = _sign(b)
        return float(a) if s >= 0 else -float(a)
    if is_sym(b):
        if bool(eq(b, 0)):
            s = _sign(a)
            return NAN if s == 0 else s * INF
        if not is_sym(a) and a == 0:
            return 0.0
        if isinstance(a, S) and a.e.eq(b.e):
            return 1.0
        return ctx().divide(a, b)
    if b == 0:
        s = _sign(a)
        return NAN if s == 0 else s * INF
    if b == 1:
        return a
    return mk(real(term(a)) / numval(b))


def floordiv(a, b):
    return floor(div(a, b))


def mod(a, b):
    a, b = scalar(a), scalar(b)
    if not is_sym(a) and not is_sym(b):
        return a % b
    if is_sym(b):
        if isinstance(a, (int, np.integer)) or True:
            raise EngineError("modulo by a symbolic number")
    if is_special(a) or is_special(b):
        return NAN
    # python/numpy modulo with concrete positive divisor: result in [0, b)
    if b <= 0:
        raise EngineError("modulo by a non-positive number")
    if term(a).sort() == z3.IntSort() and float(b).is_integer():
        return mk(term(a) % z3.IntVal(int(b)))
    q = z3.ToReal(z3.ToInt(real(term(a)) / numval(b)))
    return mk(real(term(a)) - q * numval(b))


def floor(a):
    a = scalar(a)
    if not is_sym(a):
        return a if is_special(a) else float(math.floor(a))
    e = term(a)
    if e.sort() == z3.IntSort():
        return a
    return mk(z3.ToInt(e))


def trunc(a):
    a = scalar(a)
    if not is_sym(a):
        return int(a)
    e = term(a)
    if e.sort() == z3.IntSort():
        return a
    return mk(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))


def _cmp(a, b, op, zop):
    a, b = scalar(a), scalar(b)
    if is_special(a) or is_special(b):
        x = 0.0 if is_sym(a) else float(a)
        y = 0.0 if is_sym(b) else float(b)
        return bool(op(x, y))
    if not is_sym(a) and not is_sym(b):
        return bool(op(a, b))
    return mkb(zop(term(a), term(b)))


def lt(a, b):
    return _cmp(a, b, lambda x, y: x < y, lambda x, y: x < y)


def le(a, b):
    return _cmp(a, b, lambda x, y: x <= y, lambda x, y: x <= y)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    return _cmp(a, b, lambda x, y: x == y, lambda x, y: x == y)


def ne(a, b):
    return _cmp(a, b, lambda x, y: x != y, lambda x, y: x != y)


def ite(c, a, b):
    """Merge two numbers under a condition without forking where possible."""
    c = scalar(c)
    a, b = scalar(a), scalar(b)
    if not isinstance(c, SB):
        return a if c else b
    if is_special(a) or is_special(b):
        return a if bool(c) else b
    ta, tb = term(a), term(b)
    if ta.sort() != tb.sort():
        ta, tb = real(ta), real(tb)
    if ta.eq(tb):
        return a
    return mk(z3.If(c.b, ta, tb))


def absval(a):
    a = scalar(a)
    if not is_sym(a):
        return abs(a)
    return ite(lt(a, 0), sub(0, a), a)


def np_minimum(a, b):
    a, b = scalar(a), scalar(b)
    if not is_sym(a) and not is_sym(b):
        return float(np.minimum(a, b))
    if is_special(a) and a != a or is_special(b) and b != b:
        return NAN
    if is_special(a):
        return b if a > 0 else a
    if is_special(b):
        return a if b > 0 else b
    return ite(le(a, b), a, b)


def np_maximum(a, b):
    a, b = scalar(a), scalar(b)
    if not is_sym(a) and not is_sym(b):
        return float(np.maximum(a, b))
    if is_special(a) and a != a or is_special(b) and b != b:
        return NAN
    if is_special(a):
        return a if a > 0 else b
    if is_special(b):
        return b if b > 0 else a
    return ite(le(a, b), b, a)


def isnan(a):
    a = scalar(a)
    return (not is_sym(a)) and a != a


def isinf(a):
    a = scalar(a)
    return (not is_sym(a)) and a in (INF, -INF)


def isfinite(a):
    return not isnan(a) and not isinf(a)


# ---------------------------------------------------------------------------
# solving
# ---------------------------------------------------------------------------


class Stats:
    def __init__(self):
        self.solver_s = 0.0
        self.queries = 0
        self.by_backend = {}


STATS = Stats()


def z3_check(conds, timeout_ms, want_model=False, logic=None):
    """Fresh-solver check of a list of z3 conditions: 'sat'/'unsat'/'unknown'."""
    t = time.time()
    s = z3.Solver() if logic is None else z3.SolverFor(logic)
    s.set("timeout", int(timeout_ms))
    for c in conds:
        s.add(c)
    r = s.check()
    STATS.solver_s += time.time() - t
    STATS.queries += 1
    m = s.model() if (want_model and r == z3.sat) else None
    return str(r), m


def cvc5_check(conds, timeout_ms):
    import subprocess
    import tempfile

    s = z3.Solver()
    for c in conds:
        s.add(c)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    t = time.time()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
        fh.write(txt)
        name = fh.name
    try:
        r = subprocess.run(
            ["cvc5", f"--tlimit={int(timeout_ms)}", "--nl-ext-tplanes", name],
            capture_output=True,
            text=True,
            timeout=timeout_ms / 1000 + 10,
        )
        out = r.stdout.strip().splitlines()
        res = out[0] if out and out[0] in ("sat", "unsat", "unknown") else "unknown"
    except Exception:
        res = "unknown"
    finally:
        os.unlink(name)
    STATS.solver_s += time.time() - t
    STATS.queries += 1
    return res


def model_float(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    c = _const_of(v)
    if c is None:
        return None
    return float(c)


def free_vars(e, acc=None, seen=None):
    """Uninterpreted constants occurring in a term."""
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc[x.decl().name()] = x
        else:
            stack.extend(x.children())
    return acc


class Obligation:
    __slots__ = ("name", "status", "backend", "model", "detail", "secs", "decisions")

    def __init__(self, name, status, backend="", model=None, detail="", secs=0.0, decisions=None):
        self.name, self.status, self.backend = name, status, backend
        self.model, self.detail, self.secs = model, detail, secs
        self.decisions = decisions

    def as_dict(self):
        return {k: getattr(self, k) for k in self.__slots__}


class Context:
    """One symbolic execution (one path) of a unit."""

    def __init__(self, explorer, prefix):
        self.x = explorer
        self.prefix = prefix
        self.trace = []  # decisions taken
        self.conds = []  # path condition (requires + branch conditions + axioms)
        self.inputs = {}  # input name -> z3 const
        self.pins = {}  # concrete choices made for inputs (nan etc.)
        self.model = None
        self.fresh_n = 0
        self.div_cache = {}
        self._int_cache = {}
        self.trans = []  # transcendental applications (trans.py)
        self.exact = True  # False once an abstraction was used on this path
        self.notes = []
        self.reached = False
        self.grid_mode = True
        self.parallel = 0  # >0 while inside the body of a parallel loop
        self.epoch = 0
        self.pending = []
        self.in_code = 0  # >0 while the code under contract runs
        from .interval import Bounds

        self.bounds = Bounds(self)

    # -- symbols
    def fresh(self, name, sort="R"):
        self.fresh_n += 1
        n = f"{name}!{self.fresh_n}"
        return {"R": z3.Real, "I": z3.Int, "B": z3.Bool}.get(sort, z3.Int)(n)

    def input(self, name, sort="R"):
        if name in self.inputs:
            raise EngineError(f"duplicate input {name}")
        v = z3.Real(name) if sort == "R" else z3.Int(name)
        self.inputs[name] = v
        return v

    # -- assumptions
    def assume(self, c):
        """Add a hypothesis (requires clause, axiom)."""
        if isinstance(c, SB):
            c = c.b
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise PathAbort()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathAbort()
        self.conds.append(c)
        if self.model is not None and not self._eval(self.model, c):
            self.model = None

    def _eval(self, m, c):
        try:
            return z3.is_true(m.eval(c, model_completion=True))
        except z3.Z3Exception:
            return False

    def feasible(self, extra):
        r, m = z3_check(self.conds + [extra], self.x.feas_ms, want_model=True)
        if r == "sat":
            return True, m
        return r != "unsat", None

    def int_conds(self):
        """The conditions about integers only."""
        n, out = getattr(self, "_ints", (0, []))
        if n > len(self.conds):
            n, out = 0, []
        for e in self.conds[n:]:
            if all(z3.is_int(v) for v in free_vars(e).values()):
                out.append(e)
        self._ints = (len(self.conds), out)
        return out

    def int_implied(self, c):
        known = self.int_conds()
        key = (len(known), c.get_id())
        r = self._int_cache.get(key)
        if r is None:
            r = self._int_cache[key] = (z3_check(known + [z3.Not(c)], 2000)[0] == "unsat", c)
        return r[0]

    def decide_int(self, c):
        """Branch on a condition about indices: feasibility is judged by what is known of integers."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.trace)
        nc = z3.Not(c)
        if self.int_implied(c):
            return True
        if self.int_implied(nc):
            return False
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            self.x.tick()
            self.x.push(self.trace + [False])
            d = True
        self.trace.append(d)
        self.conds.append(c if d else nc)
        self.model = None
        return d

    # -- branching
    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.bounds.sync()
        d = self.bounds.truth(c)
        if d is not None:  # entailed: no branching, nothing to add to the path condition
            return d
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.conds.append(c if d else z3.Not(c))
            self.model = None
            return d
        self.x.tick()
        nc = z3.Not(c)
        t_ok = f_ok = None
        tm = fm = None
        if self.model is not None:
            if self._eval(self.model, c):
                t_ok, tm = True, self.model
            elif self._eval(self.model, nc):
                f_ok, fm = True, self.model
        if t_ok is None:
            t_ok, tm = self.feasible(c)
        if f_ok is None:
            # not both can be infeasible unless the path itself is
            f_ok, fm = self.feasible(nc)
        if not t_ok and not f_ok:
            raise PathAbort()
        if t_ok and f_ok:
            self.x.push(self.trace + [False])
            d = True
        else:
            d = bool(t_ok)
        self.trace.append(d)
        self.conds.append(c if d else nc)
        self.model = tm if d else fm
        return d

    def choose(self, name):
        """Unconstrained Boolean choice (forks)."""
        self.fresh_n += 1
        return self.decide(z3.Bool(f"{name}!{self.fresh_n}"))

    def implied(self, c):
        """Cheap entailment test (no forking)."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.bounds.sync()
        d = self.bounds.truth(c)
        if d is not None:
            return d
        if self.model is not None and not self._eval(self.model, c):
            return False
        r, m = z3_check(self.conds + [z3.Not(c)], self.x.feas_ms, want_model=True)
        if r == "sat":
            self.model = m
        return r == "unsat"

    def concretize_int(self, e):
        e = z3.simplify(e)
        c = _const_of(e)
        if c is not None:
            if c.denominator != 1:
                raise EngineError("non-integer index")
            return int(c)
        for v in range(0, 65):
            if self.decide(e == v):
                return v
        raise EngineError("unbounded symbolic integer concretised")

    # -- defined operations
    def divide(self, a, b):
        """a / b with b != 0 on this path.  Introduces q with q*b == a."""
        ta, tb = real(term(a)), real(term(b))
        c = _const_of(z3.simplify(tb))
        if c is not None:
            return mk(ta / tb)
        key = (ta.get_id(), tb.get_id())
        q = self.div_cache.get(key)
        if q is None:
            qv = self.fresh("q")
            self.conds.append(qv * tb == ta)
            if self.model is not None:
                self.model = None
            # keep the terms alive so that ids stay unique
            self.div_cache[key] = (qv, ta, tb)
            q = self.div_cache[key]
        return S(q[0])

    # -- obligations
    def prove(self, name, goal, hint=()):
        """Discharge: path condition => goal."""
        goal = scalar(goal)
        if isinstance(goal, (bool, np.bool_)):
            if goal:
                self.x.record(Obligation(name, "discharged", "eval"))
            else:
                self._refuted_concretely(name)
            return
        g = z3.simplify(bterm(goal))
        if z3.is_true(g):
            self.x.record(Obligation(name, "discharged", "simplify"))
            return
        self.pending.append((name, g))

    def flush(self):
        """Discharge the pending obligations of this path (all at once if possible)."""
        todo, self.pending = self.pending, []
        if len(todo) > 1:
            t0 = time.time()
            conj = z3.Not(z3.And(*[g for _, g in todo]))
            r, _ = z3_check(
                slice_conds(self.conds, conj) + [conj], min(1500, self.x.goal_ms), want_model=False
            )
            if r == "unsat":
                dt = (time.time() - t0) / len(todo)
                for name, _ in todo:
                    self.x.record(Obligation(name, "discharged", "z3", secs=dt))
                return
        for name, g in todo:
            self._prove(name, g)

    def _prove(self, name, g):
        t0 = time.time()
        self.bounds.sync()
        if self.bounds.truth(g) is True:
            self.x.record(Obligation(name, "discharged", "interval", secs=time.time() - t0))
            return
        status, backend, m = self.x.solve(self.conds, g)
        model = None
        if status == "refuted" and m is not None:
            model = self.input_values(m)
        self.x.record(
            Obligation(
                name,
                status,
                backend,
                model=model,
                detail="" if status == "discharged" else str(g)[:400],
                secs=time.time() - t0,
                decisions=list(self.trace) if status != "discharged" else None,
            )
        )

    def _refuted_concretely(self, name):
        """The goal is false on this path: refuted iff the path is feasible."""
        t0 = time.time()
        r, m = z3_check(self.conds, self.x.goal_ms, want_model=True)
        if r == "unsat":
            self.x.record(Obligation(name, "discharged", "z3", secs=time.time() - t0))
            return
        if r == "unknown":
            r2 = cvc5_check(self.conds, self.x.goal_ms)
            if r2 == "unsat":
                self.x.record(Obligation(name, "discharged", "cvc5", secs=time.time() - t0))
                return
        model = self.input_values(m) if m is not None else None
        self.x.record(
            Obligation(
                name,
                "refuted" if r == "sat" else "unknown",
                "z3",
                model=model,
                detail="goal is false on a path not shown infeasible",
                secs=time.time() - t0,
                decisions=list(self.trace),
            )
        )

    def input_values(self, m):
        out = {}
        for n, v in self.inputs.items():
            out[n] = model_float(m, v)
        out.update(self.pins)
        return out


class Explorer:
    """Depth-first exploration of all paths of a function."""

    def __init__(
        self,
        feas_ms=400,
        goal_ms=4000,
        max_paths=4000,
        max_s=300.0,
        use_cvc5=True,
        stop_on_refuted=0,
    ):
        self.feas_ms, self.goal_ms = feas_ms, goal_ms
        self.max_paths, self.max_s = max_paths, max_s
        self.use_cvc5 = use_cvc5
        self.stop_on_refuted = stop_on_refuted
        self.work = []
        self.obs = []
        self.paths = 0
        self.aborted = 0
        self.t0 = time.time()
        self.errors = []
        self.exc_models = []
        self.notes = set()
        self.reached = 0
        self.incomplete = None
        self.goal_cache = {}

    def tick(self):
        if time.time() - self.t0 > self.max_s:
            raise Budget("time budget exhausted")

    def push(self, prefix):
        self.work.append(prefix)

    def record(self, ob):
        self.obs.append(ob)

    def solve(self, conds, goal):
        ng = z3.Not(goal)
        full = conds
        conds = slice_conds(conds, ng)
        key = (tuple(sorted(c.get_id() for c in conds)), ng.get_id())
        if key in self.goal_cache:
            return self.goal_cache[key][0]
        cone = cone_conds(CTX, conds, ng) if CTX is not None else conds
        if len(cone) < 0.8 * len(conds):
            r, m = z3_check(cone + [ng], min(self.goal_ms, 8000))
            if r != "unsat":
                try:
                    r, m = z3_check(cone + [ng], min(self.goal_ms, 8000), logic="QF_NRA")
                except z3.Z3Exception:
                    r = "unknown"
            if r == "unsat":
                res = ("discharged", "z3", None)
                self.goal_cache[key] = (res, conds, ng)
                return res
        if z3.is_eq(goal) and len(conds) > 12:
            # equalities alone often suffice and are far easier
            eqs = [e for e in conds if z3.is_eq(e) and z3.is_arith(e.arg(0))]
            if eqs and z3_check(eqs + [ng], 3000)[0] == "unsat":
                res = ("discharged", "z3", None)
                self.goal_cache[key] = (res, conds, ng)
                return res
        r, m = z3_check(conds + [ng], self.goal_ms, want_model=True)
        res = None
        if r == "unsat":
            res = ("discharged", "z3", None)
        elif r == "sat":
            res = ("refuted", "z3", m)
        else:
            for logic in ("QF_NRA",):
                try:
                    r, m = z3_check(conds + [ng], self.goal_ms, want_model=True, logic=logic)
                except z3.Z3Exception:
                    r = "unknown"
                if r == "unsat":
                    res = ("discharged", "z3-nra", None)
                elif r == "sat":
                    res = ("refuted", "z3-nra", m)
            if res is None and self.use_cvc5:
                r = cvc5_check(conds + [ng], self.goal_ms)
                if r == "unsat":
                    res = ("discharged", "cvc5", None)
            if res is None:
                res = ("unknown", "z3+cvc5", None)
        if res[0] == "refuted" and len(full) > len(conds):
            r, m = z3_check(full + [ng], self.goal_ms, want_model=True)
            if r == "unsat":
                res = ("discharged", "z3", None)
            elif r == "sat":
                res = ("refuted", "z3", m)
        self.goal_cache[key] = (res, conds, ng)
        return res

    def run(self, fn):
        """fn() runs the unit once under the current context."""
        global CTX
        self.work = [[]]
        while self.work:
            if self.paths >= self.max_paths:
                self.incomplete = f"path budget ({self.max_paths}) exhausted"
                break
            if time.time() - self.t0 > self.max_s:
                self.incomplete = f"time budget ({self.max_s:.0f} s) exhausted"
                break
            prefix = self.work.pop()
            c = Context(self, prefix)
            CTX = c
            try:
                fn(c)
                c.flush()
                self.paths += 1
                if c.reached:
                    self.reached += 1
            except PathAbort:
                self.aborted += 1
                c.flush()
                if c.reached:
                    self.reached += 1
                    self.paths += 1
            except Budget as e:
                self.incomplete = str(e)
                break
            except EngineError as e:
                self.errors.append(f"{type(e).__name__}: {e}{_where(e)}")
                self.paths += 1
                if len(self.errors) > 5:
                    self.incomplete = "unsupported construct: " + self.errors[0]
                    break
            finally:
                self.notes.update(c.notes)
                CTX = None
            if self.stop_on_refuted:
                n = sum(o.status == "refuted" for o in self.obs)
                if n >= self.stop_on_refuted:
                    self.incomplete = "stopped after refutation"
                    break
        if self.errors and not self.incomplete:
            self.incomplete = "unsupported construct: " + self.errors[0]
        return self


def _where(e):
    import traceback

    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if "openamundsen" in fr.filename:
            return f" (at {os.path.basename(fr.filename)}:{fr.lineno})"
    return ""


def cone_conds(c, conds, goal):
    """
    The conditions about the inputs and the defined values the goal depends on: conditions relating
    other defined values (of other pixels, say) are dropped.  Fewer hypotheses: sound for validity.
    """
    deps = {}

    def define(v, *ts):
        s = set()
        for t in ts:
            s |= set(free_vars(t))
        for n in set(free_vars(v)):
            deps[n] = deps.get(n, set()) | s

    for q in c.div_cache.values():
        define(*q)
    for _, t, v in c.trans:
        ts = t if isinstance(t, tuple) else (t,)
        for w in v if isinstance(v, tuple) else (v,):
            define(w, *ts, *(v if isinstance(v, tuple) else ()))
    cone, todo = set(), list(free_vars(goal))
    while todo:
        n = todo.pop()
        if n in cone:
            continue
        cone.add(n)
        todo += [d for d in deps.get(n, ()) if d not in cone]
    out = []
    for e in conds:
        if all(n in cone or n not in deps for n in free_vars(e)):
            out.append(e)
    return out


def slice_conds(conds, goal):
    """Drop conditions that share no variable (transitively) with the goal."""
    fv = [set(free_vars(c)) for c in conds]
    want = set(free_vars(goal))
    used = [False] * len(conds)
    changed = True
    while changed:
        changed = False
        for i, vs in enumerate(fv):
            if not used[i] and (vs & want or not vs):
                used[i] = True
                if vs - want:
                    want |= vs
                    changed = True
                else:
                    changed = changed or False
    # slicing is sound for validity; models of the slice may violate the rest,
    # which is why refutations are replayed on the real code
    return [c for i, c in enumerate(conds) if used[i]]
