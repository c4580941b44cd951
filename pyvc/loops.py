"""
Loops over a symbolic number of layers, cut by an invariant.

`SymVec` is a vector (or the layers of the generic pixel) of symbolic length.  Its elements are created on access; the
facts known of every element (requires clauses, loop invariants) are instantiated at exactly the indices accessed.

A loop of a function listed in contracts/loopspecs.CUT is rewritten (load.CutLoops) so that a contract `LoopSpec`
can be applied to it: the invariant is proved on entry; an arbitrary state that satisfies it replaces the state; one
arbitrary iteration of the real body is executed and the invariant proved again; the code after the loop starts from
the invariant and the negated loop condition.  Every local variable the body assigns is replaced, and arrays that are
not declared as modified must come out of the body unchanged.  Without a contract the loop runs as written.
"""

import math

import numpy as np
import z3

from . import core
from .arrays import PixIndex, SArr
from .load import UNSET, Poison


def to_int(e):
    """Integer term of a real term built from integers (linear)."""
    if z3.is_int(e):
        return e
    d = e.decl().kind()
    if d == z3.Z3_OP_TO_REAL:
        return e.arg(0)
    if z3.is_rational_value(e) and e.denominator_as_long() == 1:
        return z3.IntVal(e.numerator_as_long())
    if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        a = [to_int(x) for x in e.children()]
        if d == z3.Z3_OP_ADD:
            return z3.Sum(a)
        if d == z3.Z3_OP_SUB:
            return a[0] - z3.Sum(a[1:])
        if d == z3.Z3_OP_MUL:
            return z3.Product(a)
        return -a[0]
    raise core.EngineError(f"index {e} is not an integer")


def idx(x):
    """z3 integer term of an index."""
    if isinstance(x, core.S):
        e = x.e
        return z3.simplify(to_int(e))
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return z3.IntVal(int(x))
    if z3.is_expr(x):
        return z3.simplify(x)
    raise core.EngineError(f"index {x!r} into a vector of symbolic length")


def same_index(a, b):
    d = z3.simplify(a - b)
    if z3.is_int_value(d):
        return d.as_long() == 0
    return core.ctx().decide_int(d == 0)


class Base:
    """Arbitrary contents: one unknown per accessed index; `facts` are instantiated at the indices the code accesses."""

    def __init__(self, name, req=None, facts=None, sort="R", shared=None):
        self.name, self.req, self.facts, self.sort = name, req, facts, sort
        self.table, self.shared = [], shared or dict(busy=False, done=[])

    def __call__(self, t):
        c = core.ctx()
        v = None
        links = []
        for u, w in self.table:
            g = z3.simplify(u == t)
            if u.eq(t) or z3.is_true(g) or (not z3.is_false(g) and c.int_implied(g)):
                v = w
                break
            if not z3.is_false(g) and not c.int_implied(z3.Not(g)):
                links.append((g, w))
        if v is None:
            v = c.fresh(self.name, self.sort)
            for g, w in links:
                c.assume(z3.Implies(g, v == w))
            self.table.append((t, v))
            if self.req is not None:
                self.req(core.S(v))
        sh = self.shared
        if self.facts is not None and not sh["busy"] and not any(t.eq(u) for u in sh["done"]):
            sh["done"].append(t)
            sh["busy"] = True
            try:
                self.facts(t, core.S(v))
            finally:
                sh["busy"] = False
        return core.S(v)


class SymVec:
    """
    Vector of symbolic length; `pixel`: True: the layers of the generic pixel, indexed [layer, row, column],
    "cols": the generic column of an array indexed [layer, :].
    """

    __array_priority__ = 2000

    def __init__(self, n, f, pixel=False, name="vec"):
        self.n, self.f, self.pixel, self.name = n, f, pixel, name
        self.version = 0

    # -- access
    def _key(self, key):
        if isinstance(key, NanMask):
            return key
        if self.pixel == "cols":
            if not (isinstance(key, tuple) and len(key) == 2 and isinstance(key[1], slice) and key[1] == slice(None)):
                raise core.EngineError("indexing of an array of columns")
            key = key[0]
        elif self.pixel:
            if not (isinstance(key, tuple) and len(key) == 3 and all(isinstance(q, PixIndex) for q in key[1:])
                    and (key[1].kind, key[2].kind) == ("R", "C")):
                raise core.EngineError("indexing of a layered variable")
            key = key[0]
        elif isinstance(key, tuple):
            if len(key) != 1:
                raise core.EngineError("indexing of a vector")
            key = key[0]
        return key

    def _in(self, k):
        t = idx(k)
        if z3.is_int_value(t) and t.as_long() < 0:
            t = z3.simplify(idx(self.n) + t)
        c = core.ctx()
        g = z3.And(t >= 0, t < idx(self.n))
        if not c.int_implied(g):
            c.flush()
            c._prove(f"index of {self.name} within bounds", g)
            c.assume(g)
        return t

    def at(self, k):
        return self.f(idx(k))

    def __getitem__(self, key):
        k = self._key(key)
        if isinstance(k, slice):
            return self._slice(k)
        if isinstance(k, NanMask):
            raise core.EngineError("boolean indexing")
        return self.f(self._in(k))

    def _slice(self, s):
        if s.step is not None or s.start not in (None, 0):
            raise core.EngineError("slice of a vector of symbolic length")
        n = self.n if s.stop is None else s.stop
        if not core.ctx().implied(z3.And(idx(n) >= 0, idx(n) <= idx(self.n))):
            raise core.EngineError("slice beyond the vector")
        return SymVec(n, self.f, False, self.name)

    def __setitem__(self, key, v):
        k = self._key(key)
        old = self.f
        if isinstance(k, NanMask):
            if k.vec is not self or k.version != self.version:
                raise core.EngineError("boolean indexing")

            def f(t, old=old, v=v):
                x = old(t)
                return v if isinstance(x, float) and math.isnan(x) else x

        elif isinstance(k, slice):
            s = self._slice(k)
            n = idx(s.n)
            if self.pixel == "cols":
                raise core.EngineError("slice of an array of columns")
            if isinstance(v, SymVec):
                if v is not s and not core.ctx().implied(idx(v.n) == n):
                    raise core.EngineError("lengths differ")
                g = v.f
            elif core.is_sym(v) or isinstance(v, (int, float, np.number)):
                g = lambda t, v=v: v  # noqa: E731
            else:
                raise core.EngineError("assignment to a slice")

            def f(t, old=old, g=g, n=n):
                return g(t) if core.ctx().decide_int(t < n) else old(t)

        else:
            t0 = self._in(k)
            v = core.scalar(v)
            if not (core.is_sym(v) or isinstance(v, (int, float, np.number))):
                raise core.EngineError("assignment to an element")

            def f(t, old=old, v=v, t0=t0):
                return v if same_index(t, t0) else old(t)

        self.f = f
        self.version += 1

    def copy(self):
        return SymVec(self.n, self.f, self.pixel, self.name)

    def __vc_len__(self):
        return self.n

    def __len__(self):
        raise core.EngineError("len of a vector of symbolic length")

    def __iter__(self):
        raise core.EngineError("iteration over a vector of symbolic length")

    def __bool__(self):
        raise core.EngineError("truth value of a vector")

    @property
    def shape(self):
        if self.pixel == "cols":
            return ColShape((self.n, 1))
        if self.pixel:
            raise core.EngineError("shape of a layered variable")
        return (self.n,)

    # -- element-wise arithmetic
    def _bin(self, o, op):
        if isinstance(o, SymVec):
            if o.pixel != self.pixel or not core.ctx().implied(idx(o.n) == idx(self.n)):
                raise core.EngineError("lengths differ")
            return SymVec(self.n, lambda t, a=self.f, b=o.f: op(a(t), b(t)), self.pixel)
        if core.is_sym(o) or isinstance(o, (int, float, np.number)):
            return SymVec(self.n, lambda t, a=self.f: op(a(t), o), self.pixel)
        raise core.EngineError("operand of a vector of symbolic length")

    def __add__(self, o):
        return self._bin(o, core.add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, core.sub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: core.sub(b, a))

    def __mul__(self, o):
        return self._bin(o, core.mul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, core.div)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: core.div(b, a))

    def __array_ufunc__(self, ufunc, method, *a, **k):
        if ufunc is np.isnan and method == "__call__" and not k:
            return NanMask(self)
        raise core.EngineError("numpy function on a vector of symbolic length")

    def __array_function__(self, *a, **k):
        raise core.EngineError("numpy function on a vector of symbolic length")


class ColShape(tuple):
    """Shape of an array of columns."""


class NanMask:
    def __init__(self, vec):
        self.vec, self.version = vec, vec.version


class State:
    """The values of a function's variables at one point of a loop."""

    def __init__(self, d):
        self.__dict__["_d"] = d

    def __getattr__(self, n):
        try:
            v = self._d[n]
        except KeyError:
            raise core.EngineError(f"the loop contract refers to {n!r}, which the function does not have")
        if isinstance(v, SymVec):
            return Frozen(v)
        if isinstance(v, Cell):
            return v.v
        if isinstance(v, Poison) or v is UNSET:
            raise core.EngineError(f"the loop contract refers to {n!r}, which has no value")
        return v


class Frozen:
    def __init__(self, v):
        self.f, self.n = v.f, v.n

    def __getitem__(self, l):
        return self.f(idx(l))


class Cell:
    def __init__(self, v):
        self.v = v


def freeze(loc):
    d = {}
    for n, v in loc.items():
        if isinstance(v, SymVec):
            d[n] = v.copy()
        elif isinstance(v, SArr) and v.size == 1:
            d[n] = Cell(v.reshape(-1)[0])
        else:
            d[n] = v
    return State(d)


class LoopSpec:
    """
    mod: names of the vectors and pixel values the body modifies
    each(st, old, l): [(label, condition)] for every visited index l
    whole(st, old, k): [(label, condition)]
    sums: name -> (st, old, l) -> number: ghost sums over the visited indices
    record: name -> (st, old, l) -> number: ghost vectors, the value at the end of the iteration that visited l
    """

    def __init__(self, mod=(), each=None, whole=None, sums=None, record=None):
        self.mod, self.each, self.whole = mod, each or (lambda s, o, l: []), whole or (lambda s, o, k, g: [])
        self.sums, self.record = sums or {}, record or {}
        self.ghost = None  # values of the sums after the loop
        self.n = 0

    def visited(self, l):
        """The sums include index l (after the loop)."""
        if self.ghost is None:
            raise core.EngineError("the loop the contract is written for was not executed")
        return core.mkb(self.loop.region(self.k, idx(l)))

    def use(self, l):
        """Instantiate the invariant for index l (after the loop)."""
        self.visited(l)
        self.loop.known(idx(l))


class Range:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


def make(lid, it):
    c = core.CTX
    spec = getattr(c, "loop_specs", {}).get(lid) if c is not None else None
    return Loop(lid, it, spec)


class Loop:
    def __init__(self, lid, it, spec):
        self.lid, self.spec = lid, spec
        self.while_ = it is None
        if spec is None:
            if isinstance(it, Range):
                raise core.EngineError("loop with a symbolic number of iterations and no contract")
            self.it = None if it is None else iter(it)
            return
        if isinstance(it, range):
            it = Range(core.S(z3.IntVal(it.start)), core.S(z3.IntVal(it.stop)), it.step)
        if not isinstance(it, Range) or it.step not in (1, -1):
            raise core.EngineError("the loop does not have the form its contract is written for")
        self.r = it
        self.phase = 0

    # -- plain loops
    def test(self):
        if self.spec is None:
            try:
                self.cur = next(self.it)
                return True
            except StopIteration:
                return False
        up = self.r.step > 0
        k, e = idx(self.k), idx(self.r.stop)
        return core.ctx().decide_int(k < e if up else k > e)

    def item(self):
        return self.cur if self.spec is None else self.k

    def enter(self):
        if self.spec is not None:
            raise core.EngineError("contract on a while loop")

    # -- loops with a contract
    def region(self, k, t):
        """t has been visited when the loop variable is k"""
        s = idx(self.r.start)
        k = idx(k)
        return z3.And(s <= t, t < k) if self.r.step > 0 else z3.And(k < t, t <= s)

    def head(self, names, vals, loc):
        if self.spec is None:
            return vals
        return self._head(names, vals, loc)

    def _head(self, names, vals, loc):
        sp, c = self.spec, core.ctx()
        env = c.env
        label = self.lid.split(":", 1)[1]
        loc = {n: v for n, v in loc.items() if not n.startswith("VC__")}
        if self.phase == 0:
            self.phase = 1
            self.nans = []
            self.shared = dict(busy=False, done=[])
            for n in sp.mod:
                if n not in loc:
                    raise core.EngineError(f"the loop contract refers to {n!r}, which the function does not have")
            old = self.old = freeze(loc)
            zero = {s: 0.0 for s in sp.sums}
            for nm, g in sp.whole(old, old, self.r.start, State(zero)):
                env.ensure(f"loop {label}: on entry: {nm}", g)
            c.flush()
            k = self.k = core.S(c.fresh("k", "I"))
            up = self.r.step > 0
            s, e = idx(self.r.start), idx(self.r.stop)
            c.assume(k.e >= s if up else k.e <= s)
            c.assume(z3.Or(k.e == s, k.e <= e if up else k.e >= e))
            # arbitrary state
            out, d = [], dict(loc)
            for n, v in zip(names, vals):
                if isinstance(v, Poison) or v is UNSET:
                    out.append(v)
                    continue
                if isinstance(v, float) and math.isnan(v):
                    out.append(v)
                    self.nans.append(n)
                    continue
                if isinstance(v, (bool, np.bool_, core.SB)):
                    out.append(core.mkb(c.fresh(n, "B")))
                    d[n] = out[-1]
                    continue
                if isinstance(v, (np.ndarray, SymVec)) or not (
                        core.is_sym(v) or isinstance(v, (int, float, np.number))):
                    raise core.EngineError(f"the loop changes {n!r}, which is not a number")
                out.append(core.S(c.fresh(n)))
                d[n] = out[-1]
            arrays = {}
            for n in sp.mod:
                v = loc[n]
                if isinstance(v, SymVec):
                    v.f = self._havoc(n, v.f)
                    v.version += 1
                elif isinstance(v, SArr) and v.size == 1:
                    v.reshape(-1)[0] = core.S(c.fresh(n))
                else:
                    raise core.EngineError(f"cannot replace the value of {n!r}")
            for n, v in loc.items():
                if isinstance(v, (SymVec, np.ndarray)) and not any(v is loc[q] for q in sp.mod):
                    arrays[n] = (v, v.version if isinstance(v, SymVec) else [id(x) for x in v.reshape(-1)] if v.dtype == object else v.copy())
            self.others = arrays
            for n in sp.record:
                d[n] = SymVec(self.r.stop, self._havoc(n, None), False, n)
            self.st = freeze({**d, **{n: loc[n] for n in loc if isinstance(loc[n], (SymVec, np.ndarray))}})
            self.gh = State({s: core.S(c.fresh(f"sum_{s}")) for s in sp.sums})
            for nm, g in sp.whole(self.st, old, k, self.gh):
                env.assume(g)
            sp.ghost = self.gh
            sp.loop = self
            sp.k = k
            sp.after = self.st
            return tuple(out)
        # after the body
        sp.n += 1
        for n, (v, w) in self.others.items():
            if isinstance(v, SymVec):
                ok = v.version == w
            elif v.dtype == object:
                ok = [id(x) for x in v.reshape(-1)] == w
            else:
                ok = np.array_equal(v, w, equal_nan=v.dtype.kind == "f")
            if not ok:
                raise core.EngineError(f"the loop changes {n!r}, which its contract does not mention")
        for n in self.nans:
            if not (isinstance(loc[n], float) and math.isnan(loc[n])):
                raise core.EngineError(f"{n!r} has a value after an iteration only")
        d = dict(loc)
        for n, fn in sp.record.items():
            d[n] = self.st._d[n].copy()
            v, k0 = fn(freeze(loc), self.old, self.k), idx(self.k)
            d[n].f = lambda t, f=d[n].f, v=v, k0=k0: v if same_index(t, k0) else f(t)
        st = freeze(d)
        k1 = core.add(self.k, self.r.step)
        gh = {}
        for s, fn in sp.sums.items():
            gh[s] = core.add(getattr(self.gh, s), fn(st, self.old, self.k))
        for nm, g in sp.whole(st, self.old, k1, State(gh)):
            env.ensure(f"loop {label}: preserved: {nm}", g)
        # an arbitrary index
        s = c.fresh("l", "I")
        seen = c.decide_int(self.region(k1, s))
        if seen:
            self.known(s)
            for nm, g in sp.each(st, self.old, core.S(s)):
                env.ensure(f"loop {label}: preserved: {nm}", g)
        for n in sp.mod:
            v = loc[n]
            if isinstance(v, SymVec):
                if not seen:
                    if not c.decide_int(z3.And(s >= 0, s < idx(v.n))):
                        continue
                    env.ensure(f"loop {label}: elements of {n} not visited yet are unchanged",
                               same(v.at(s), self.old._d[n].at(s)))
                elif sp.sums and not same_index(s, idx(self.k)):
                    env.ensure(f"loop {label}: elements of {n} visited before are unchanged",
                               same(v.at(s), self.st._d[n].at(s)))
        c.reached = True
        raise core.PathAbort()

    def known(self, t):
        """Use the loop invariant for index t, if t was visited before this iteration."""
        c = core.ctx()
        if c.decide_int(self.region(self.k, t)):
            for _, g in self.spec.each(self.st, self.old, core.S(t)):
                c.env.assume(g)

    def _havoc(self, n, old):
        c = core.ctx()
        sp = self.spec
        k = self.k
        def facts(t, v):
            for _, g in sp.each(self.st, self.old, core.S(t)):
                c.env.assume(g)

        base = Base(n, None, facts, shared=self.shared)

        def f(t):
            if c.decide_int(self.region(k, t)):
                return base(t)
            if old is None:
                raise core.EngineError("ghost value of an index not visited")
            return old(t)

        return f


def same(a, b):
    na, nb = (isinstance(x, float) and math.isnan(x) for x in (a, b))
    if na or nb:
        return na and nb
    return core.eq(a, b)
