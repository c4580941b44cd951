"""
Transcendental functions over symbolic numbers.

An application f(t) becomes a fresh real constrained by (a) unary axioms on
its range and at special points and (b) pairwise axioms (monotonicity,
functional congruence, inverse pairs) with the other applications on the path.
Everything proved with them therefore holds for the real functions.
Evaluation of concrete arguments uses numpy.
"""

import math

import numpy as np
import z3

from .core import (
    INF,
    NAN,
    EngineError,
    S,
    SB,
    _const_of,
    add,
    bterm,
    ctx,
    div,
    eq,
    is_special,
    is_sym,
    ite,
    le,
    lt,
    mk,
    mul,
    numval,
    real,
    scalar,
    sub,
    term,
)

PI = math.pi


def _apply(fname, x, unary, pairwise):
    """Fresh application of fname at term x with axioms."""
    c = ctx()
    t = z3.simplify(real(term(x)))
    for f, a, v in c.trans:
        if f == fname and a.eq(t):
            return S(v)
    v = c.fresh(fname)
    c.exact = False
    ax = list(unary(t, v))
    for f, a, w in c.trans:
        if f == fname:
            ax.extend(pairwise(a, w, t, v))
    c.trans.append((fname, t, v))
    for a in ax:
        c.conds.append(a)
    c.model = None
    return S(v)


def _mono(a, w, t, v):
    return [z3.Implies(a < t, w < v), z3.Implies(t < a, v < w), z3.Implies(a == t, w == v)]


def _anti(a, w, t, v):
    return [z3.Implies(a < t, w > v), z3.Implies(t < a, v > w), z3.Implies(a == t, w == v)]


def _congr(a, w, t, v):
    return [z3.Implies(a == t, w == v)]


def _concrete(f, x):
    with np.errstate(all="ignore"):
        return float(f(np.float64(x)))


def exp(x):
    x = scalar(x)
    if not is_sym(x):
        return _concrete(np.exp, x)

    def unary(t, v):
        return [
            v > 0,
            v >= 1 + t,
            z3.Implies(t == 0, v == 1),
            z3.Implies(t < 0, v < 1),
            z3.Implies(t > 0, v > 1),
            z3.Implies(t < 1, v * (1 - t) <= 1),
            z3.Implies(t >= 0, v >= 1 + t + t * t / 2),
            z3.Implies(t <= 0, v * (1 - t + t * t / 2) <= 1),
        ]

    c = ctx()
    t = z3.simplify(real(term(x)))
    new = not any(f == "exp" and a.eq(t) for f, a, v in c.trans)
    r = _apply("exp", x, unary, _mono)
    if new:
        # inverse of log applications on the path
        for f, a, v in c.trans:
            if f == "log":
                if v.eq(t):
                    c.conds.append(r.e == a)
                else:
                    c.conds.extend(_mono(v, a, t, r.e))
    return r


def log(x):
    x = scalar(x)
    if not is_sym(x):
        return _concrete(np.log, x)
    if bool(le(x, 0)):
        return -INF if bool(eq(x, 0)) else NAN

    def unary(t, v):
        return [
            v <= t - 1,
            z3.Implies(t == 1, v == 0),
            z3.Implies(t < 1, v < 0),
            z3.Implies(t > 1, v > 0),
            v * t >= t - 1,
        ]

    c = ctx()
    t = z3.simplify(real(term(x)))
    new = not any(f == "log" and a.eq(t) for f, a, v in c.trans)
    r = _apply("log", x, unary, _mono)
    if new:
        for f, a, v in c.trans:
            if f == "exp":
                if v.eq(t):
                    c.conds.append(r.e == a)
                else:
                    c.conds.extend(_mono(v, a, t, r.e))
    return r


def log10(x):
    x = scalar(x)
    if not is_sym(x):
        return _concrete(np.log10, x)
    return div(log(x), math.log(10))


def sqrt(x):
    x = scalar(x)
    if not is_sym(x):
        return _concrete(np.sqrt, x)
    if bool(lt(x, 0)):
        return NAN
    c = ctx()
    t = z3.simplify(real(term(x)))
    for f, a, v in c.trans:
        if f == "sqrt" and a.eq(t):
            return S(v)
    v = c.fresh("sqrt")
    c.trans.append(("sqrt", t, v))
    c.conds += [v >= 0, v * v == t]
    c.model = None
    return S(v)


def power(x, y):
    x, y = scalar(x), scalar(y)
    if not is_sym(x) and not is_sym(y):
        with np.errstate(all="ignore"):
            if isinstance(x, (int, np.integer)) and isinstance(y, (int, np.integer)) and y >= 0:
                return x**y
            return float(np.float64(x) ** np.float64(y))
    if not is_sym(y):
        if is_special(y):
            raise EngineError("power with special exponent")
        fy = float(y)
        if fy.is_integer() and abs(fy) <= 8:
            n = int(fy)
            if n == 0:
                return 1.0
            r = x
            for _ in range(abs(n) - 1):
                r = mul(r, x)
            return r if n > 0 else div(1.0, r)
        if fy == 0.5:
            return sqrt(x)
        if (2 * fy).is_integer() and abs(fy) <= 4:
            # x**(n + 1/2) == x**n * sqrt(x)
            r = sqrt(x)
            if is_special(r):
                return r
            for _ in range(int(abs(fy))):
                r = mul(r, x)
            return r if fy > 0 else div(1.0, r)
        return _pow_const_exp(x, fy)
    if not is_sym(x):
        if is_special(x):
            raise EngineError("power of a special number")
        if x == 1:
            return 1.0
        if x > 0:
            # b**y == exp(y*log b)
            return exp(mul(y, math.log(x)))
        if x == 0:
            s = bool(eq(y, 0))
            if s:
                return 1.0
            return 0.0 if bool(lt(0, y)) else INF
        raise EngineError("negative base with symbolic exponent")
    # both symbolic
    if bool(le(x, 0)):
        if bool(eq(x, 0)):
            if bool(eq(y, 0)):
                return 1.0
            return 0.0 if bool(lt(0, y)) else INF
        if bool(eq(y, 0)):
            return 1.0
        raise EngineError("negative base with symbolic exponent")
    # sanity axioms only: x**y = exp(y log x)
    return exp(mul(y, log(x)))


def _curve(t, v, p):
    """Chords and tangents of x**p at the hinted points (convex for p > 1 or p < 0, else concave)."""
    xs = getattr(ctx(), "pow_hints", ())
    out = []
    convex = p > 1 or p < 0

    def val(x, up):
        y = float(np.float64(x) ** p)
        return y + abs(y) * 1e-12 * (1 if up else -1)

    for a, b in zip(xs, xs[1:]):
        ya, yb = val(a, convex), val(b, convex)
        k = (yb - ya) / (b - a)
        e = (1 if convex else -1) * 1e-12 * (abs(ya) + abs(yb))
        chord = numval(ya + e) + numval(k) * (t - numval(a))
        inside = z3.And(t >= numval(a), t <= numval(b))
        out.append(z3.Implies(inside, v <= chord if convex else v >= chord))
    for a in xs:
        if a <= 0:
            continue
        ya = val(a, not convex)
        k = p * ya / a
        tangent = numval(ya) + numval(k) * (t - numval(a))
        slack = numval(1e-11 * (abs(ya) + abs(k))) * (1 + t)
        out.append(z3.Implies(t >= 0 if p > 0 else t > 0,
                              v >= tangent - slack if convex else v <= tangent + slack))
    return out


def _pow_const_exp(x, p):
    """x**p for a non-integer constant p."""
    if bool(lt(x, 0)):
        return NAN
    if p < 0 and bool(eq(x, 0)):
        return INF

    def unary(t, v):
        out = [z3.Implies(t > 0, v > 0), z3.Implies(t == 1, v == 1)]
        if p > 0:
            out += [z3.Implies(t == 0, v == 0), v >= 0]
            out += [z3.Implies(t > 1, v > 1), z3.Implies(z3.And(t > 0, t < 1), v < 1)]
            if p > 1:
                out += [z3.Implies(t > 1, v > t), z3.Implies(z3.And(t > 0, t < 1), v < t)]
            else:
                out += [z3.Implies(t > 1, v < t), z3.Implies(z3.And(t > 0, t < 1), v > t)]
        else:
            out += [z3.Implies(t > 1, v < 1), z3.Implies(z3.And(t > 0, t < 1), v > 1)]
        return out + _curve(t, v, p)

    c = ctx()
    t = z3.simplify(real(term(x)))
    new = not any(f == f"pow[{p!r}]" and a.eq(t) for f, a, v in c.trans)
    r = _apply(f"pow[{p!r}]", x, unary, _mono if p > 0 else _anti)
    if new:
        # x**q is the inverse of x**p if p * q == 1
        for f, a, v in list(c.trans):
            if f.startswith("pow[") and abs(float(f[4:-1]) * p - 1) < 1e-14:
                c.conds.append(z3.Implies(t == v, r.e == a))
    return r


def tanh(x):
    x = scalar(x)
    if not is_sym(x):
        return _concrete(np.tanh, x)
    return _apply(
        "tanh",
        x,
        lambda t, v: [
            v > -1,
            v < 1,
            z3.Implies(t == 0, v == 0),
            z3.Implies(t > 0, z3.And(v > 0, v <= t)),
            z3.Implies(t < 0, z3.And(v < 0, v >= t)),
        ],
        _mono,
    )


def _same(a, b):
    d = z3.simplify(a - b, som=True)
    return z3.is_rational_value(d) and d.as_fraction() == 0


def _trig(x):
    c = ctx()
    t = z3.simplify(real(term(x)))
    for f, a, v in c.trans:
        if f == "trig" and a.eq(t):
            return v
    s, co = c.fresh("sin"), c.fresh("cos")
    c.exact = False
    c.conds += [s * s + co * co == 1, s >= -1, s <= 1, co >= -1, co <= 1]
    c.conds += [z3.Implies(t == 0, z3.And(s == 0, co == 1))]
    p = numval(PI)
    h = numval(PI) / 2
    c.conds += [
        z3.Implies(z3.And(t > 0, t < p), s > 0),
        z3.Implies(z3.And(t > -p, t < 0), s < 0),
        z3.Implies(z3.And(t > -h, t < h), co > 0),
        z3.Implies(z3.And(t > 0, t < h), z3.And(s <= t, s > 0)),
    ]
    for f, a, v in c.trans:
        if f == "trig":
            c.conds.append(z3.Implies(a == t, z3.And(v[0] == s, v[1] == co)))
            c.conds.append(z3.Implies(a == -t, z3.And(v[0] == -s, v[1] == co)))
            if getattr(c, "trig_shifts", False):
                for k in range(-6, 7):
                    r = [(0, 1), (1, 0), (0, -1), (-1, 0)][k % 4]  # sin, cos of k*pi/2
                    sk, ck = r
                    for sg in (1, -1):
                        # t == sg*a + k*pi/2
                        d = z3.simplify(t - (sg * a + k * h), som=True)
                        if z3.is_rational_value(d):
                            if d.as_fraction() == 0:
                                c.conds += [s == sg * v[0] * ck + v[1] * sk, co == v[1] * ck - sg * v[0] * sk]
                            continue
                        c.conds.append(z3.Implies(t == sg * a + k * h, z3.And(
                            s == sg * v[0] * ck + v[1] * sk, co == v[1] * ck - sg * v[0] * sk)))
    for f, a, v in c.trans:
        if f in ("arccos",) and v.eq(t):
            c.conds += [co == a, s >= 0]
        if f in ("arcsin",) and v.eq(t):
            c.conds += [s == a, co >= 0]
        if f in ("arctan",) and v.eq(t):
            c.conds += [s == a * co, co > 0]
        if f == "arctan2":
            yy, xx = a
            for k, sg in [(0, 1)] + [(k, sg) for k in range(-6, 7) for sg in (1, -1)]:
                # t == sg*v + k*pi/2 syntactically
                if v.eq(t) if k == 0 and sg == 1 else _same(t, sg * v + k * h):
                    sk, ck = [(0, 1), (1, 0), (0, -1), (-1, 0)][k % 4]
                    hh = c.fresh("hyp")
                    c.conds += [hh >= 0, hh * hh == yy * yy + xx * xx,
                                hh * s == sg * yy * ck + xx * sk, hh * co == xx * ck - sg * yy * sk]
                    break
    c.trans.append(("trig", t, (s, co)))
    c.model = None
    return (s, co)


def sin(x):
    x = scalar(x)
    if not is_sym(x):
        return _concrete(np.sin, x)
    return S(_trig(x)[0])


def cos(x):
    x = scalar(x)
    if not is_sym(x):
        return _concrete(np.cos, x)
    return S(_trig(x)[1])


def tan(x):
    x = scalar(x)
    if not is_sym(x):
        return _concrete(np.tan, x)
    s, c = _trig(x)
    return div(S(s), S(c))


def arctan(x):
    x = scalar(x)
    if not is_sym(x):
        return _concrete(np.arctan, x)
    h = numval(PI) / 2
    return _apply(
        "arctan",
        x,
        lambda t, v: [
            v > -h,
            v < h,
            z3.Implies(t == 0, v == 0),
            z3.Implies(t > 0, z3.And(v > 0, v <= t)),
            z3.Implies(t < 0, z3.And(v < 0, v >= t)),
        ],
        _mono,
    )


def arccos(x):
    x = scalar(x)
    if not is_sym(x):
        return _concrete(np.arccos, x)
    if bool(lt(x, -1)) or bool(lt(1, x)):
        return NAN
    p = numval(PI)
    h = numval(PI) / 2
    return _apply(
        "arccos",
        x,
        lambda t, v: [
            v >= 0,
            v <= p,
            z3.Implies(t == 1, v == 0),
            z3.Implies(t == -1, v == p),
            z3.Implies(t == 0, v == h),
            z3.Implies(t > 0, v < h),
            z3.Implies(t < 0, v > h),
        ],
        _anti,
    )


def arcsin(x):
    x = scalar(x)
    if not is_sym(x):
        return _concrete(np.arcsin, x)
    if bool(lt(x, -1)) or bool(lt(1, x)):
        return NAN
    h = numval(PI) / 2
    return _apply(
        "arcsin",
        x,
        lambda t, v: [
            v >= -h,
            v <= h,
            z3.Implies(t == 1, v == h),
            z3.Implies(t == -1, v == -h),
            z3.Implies(t == 0, v == 0),
            z3.Implies(t > 0, v > 0),
            z3.Implies(t < 0, v < 0),
        ],
        _mono,
    )


def arctan2(y, x):
    y, x = scalar(y), scalar(x)
    if not is_sym(x) and not is_sym(y):
        return float(np.arctan2(y, x))
    if is_special(x) or is_special(y):
        return NAN
    c = ctx()
    ty, tx = z3.simplify(real(term(y))), z3.simplify(real(term(x)))
    for f, a, v in c.trans:
        if f == "arctan2" and a[0].eq(ty) and a[1].eq(tx):
            return S(v)
    v = c.fresh("arctan2")
    c.exact = False
    p, h = numval(PI), numval(PI) / 2
    c.conds += [
        v >= -p,
        v <= p,
        z3.Implies(ty > 0, z3.And(v > 0, v < p)),
        z3.Implies(ty < 0, z3.And(v < 0, v > -p)),
        z3.Implies(z3.And(ty == 0, tx >= 0), v == 0),
        z3.Implies(z3.And(ty == 0, tx < 0), v == p),
        z3.Implies(tx > 0, z3.And(v > -h, v < h)),
        z3.Implies(z3.And(tx == 0, ty > 0), v == h),
        z3.Implies(z3.And(tx == 0, ty < 0), v == -h),
    ]
    c.trans.append(("arctan2", (ty, tx), v))
    c.model = None
    return S(v)


def anchor(fname, x0):
    """Known value of a function at a constant (interval around the machine value)."""
    c = ctx()
    fn = {"exp": np.exp, "log": np.log, "arctan": np.arctan, "tanh": np.tanh}.get(fname)
    if fname.startswith("pow["):
        p = float(fname[4:-1])
        y = float(np.float64(x0) ** p)
    else:
        y = float(fn(x0))
    v = c.fresh(fname + "_anchor")
    e = abs(y) * 1e-12
    c.conds += [v >= numval(y - e), v <= numval(y + e)]
    c.trans.append((fname, z3.simplify(real(term(float(x0)))), v))
