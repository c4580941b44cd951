"""
Interval reasoning over path conditions: a cheap, exact-rational, sound (but
incomplete) entailment test used before the solvers are asked.

An interval is (lo, lo_open, hi, hi_open); lo/hi is a Fraction or None
(unbounded).
"""

import math
from fractions import Fraction

import z3

FULL = (None, True, None, True)
MAXBITS = 400


def _num(e):
    if z3.is_rational_value(e) or z3.is_int_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long()) if z3.is_rational_value(e) else Fraction(e.as_long())
    return None


def _rnd(x, up):
    """Coarsen huge rationals outwards."""
    if x is None or x.numerator.bit_length() + x.denominator.bit_length() < MAXBITS:
        return x
    if x == 0:
        return x
    s = 1 << 80
    k = max(0, 160 - (x.numerator.bit_length() - x.denominator.bit_length()))
    s = 1 << k
    f = Fraction(math.floor(x * s), s)
    return f + Fraction(1, s) if up else f


def norm(i):
    lo, lo_o, hi, hi_o = i
    l2, h2 = _rnd(lo, False), _rnd(hi, True)
    # coarsening moves the ends strictly outwards or not at all: openness stays valid either way
    return (l2, lo_o, h2, hi_o)


def add(a, b):
    lo = None if a[0] is None or b[0] is None else a[0] + b[0]
    hi = None if a[2] is None or b[2] is None else a[2] + b[2]
    return (lo, a[1] or b[1], hi, a[3] or b[3])


def neg(a):
    return (None if a[2] is None else -a[2], a[3], None if a[0] is None else -a[0], a[1])


def _ends(a):
    """[(kind, value, open)] with kind -1/0/+1 for -inf/finite/+inf."""
    l = (-1, None, True) if a[0] is None else (0, a[0], a[1])
    h = (1, None, True) if a[2] is None else (0, a[2], a[3])
    return l, h


def _pmul(x, y):
    """Product of two end points: (kind, value, open)."""
    kx, vx, ox = x
    ky, vy, oy = y
    sx = kx if kx else (vx > 0) - (vx < 0)
    sy = ky if ky else (vy > 0) - (vy < 0)
    if kx == 0 and ky == 0:
        v = vx * vy
        # a zero end point that is attained makes 0 attained whatever the other end does
        if v == 0:
            att = (vx == 0 and not ox) or (vy == 0 and not oy)
            return (0, v, not att)
        return (0, v, ox or oy)
    if sx == 0 or sy == 0:
        z_open = (ox if sx == 0 else oy)
        return (0, Fraction(0), z_open)  # 0 * inf: limit products are bounded by the other corners
    return (sx * sy, None, True)


def mul(a, b):
    ps = [_pmul(x, y) for x in _ends(a) for y in _ends(b)]
    if any(p[0] == -1 for p in ps):
        lo, lo_o = None, True
    else:
        lo = min(p[1] for p in ps if p[0] == 0) if any(p[0] == 0 for p in ps) else None
        lo_o = True if lo is None else all(p[2] for p in ps if p[0] == 0 and p[1] == lo)
    if any(p[0] == 1 for p in ps):
        hi, hi_o = None, True
    else:
        hi = max(p[1] for p in ps if p[0] == 0) if any(p[0] == 0 for p in ps) else None
        hi_o = True if hi is None else all(p[2] for p in ps if p[0] == 0 and p[1] == hi)
    # 0 strictly inside one factor: 0 is attained, the end points are decided by the corners anyway
    if lo == 0 and lo_o and (_has0(a) or _has0(b)):
        lo_o = False
    if hi == 0 and hi_o and (_has0(a) or _has0(b)):
        hi_o = False
    return norm((lo, lo_o, hi, hi_o))


def _has0(a):
    lo, lo_o, hi, hi_o = a
    if lo is not None and (lo > 0 or (lo == 0 and lo_o)):
        return False
    if hi is not None and (hi < 0 or (hi == 0 and hi_o)):
        return False
    return True


def inv(a):
    """1 / a for an interval without 0."""
    lo, lo_o, hi, hi_o = a
    if _has0(a):
        return FULL
    if lo is not None and lo >= 0:
        nlo, nlo_o = (Fraction(0), True) if hi is None else (1 / hi, hi_o)
        nhi, nhi_o = (None, True) if lo == 0 else (1 / lo, lo_o)
        return norm((nlo, nlo_o, nhi, nhi_o))
    return neg(inv(neg(a)))


def power(a, n):
    if n == 0:
        return (Fraction(1), False, Fraction(1), False)
    if n < 0:
        return inv(power(a, -n))
    if n % 2:
        lo = None if a[0] is None else a[0] ** n
        hi = None if a[2] is None else a[2] ** n
        return norm((lo, a[1], hi, a[3]))
    if a[0] is not None and a[0] >= 0:
        return norm((a[0] ** n, a[1], None if a[2] is None else a[2] ** n, a[3]))
    if a[2] is not None and a[2] <= 0:
        return power(neg(a), n)
    hi = None if a[0] is None or a[2] is None else max(-a[0], a[2]) ** n
    return norm((Fraction(0), False, hi, False))


def meet(a, b):
    lo, lo_o = a[0], a[1]
    if b[0] is not None and (lo is None or b[0] > lo or (b[0] == lo and b[1])):
        lo, lo_o = b[0], b[1]
    hi, hi_o = a[2], a[3]
    if b[2] is not None and (hi is None or b[2] < hi or (b[2] == hi and b[3])):
        hi, hi_o = b[2], b[3]
    return (lo, lo_o, hi, hi_o)


def join(a, b):
    if a[0] is None or b[0] is None:
        lo, lo_o = None, True
    elif a[0] == b[0]:
        lo, lo_o = a[0], a[1] and b[1]
    else:
        lo, lo_o = (a[0], a[1]) if a[0] < b[0] else (b[0], b[1])
    if a[2] is None or b[2] is None:
        hi, hi_o = None, True
    elif a[2] == b[2]:
        hi, hi_o = a[2], a[3] and b[3]
    else:
        hi, hi_o = (a[2], a[3]) if a[2] > b[2] else (b[2], b[3])
    return (lo, lo_o, hi, hi_o)


def sign_le(a, const, strict):
    """Truth of  interval <= const (or <)."""
    lo, lo_o, hi, hi_o = a
    if hi is not None and (hi < const or (hi == const and (not strict or hi_o))):
        return True
    if lo is not None and (lo > const or (lo == const and (strict or lo_o))):
        return False
    return None


_EXPMAX = Fraction(700)


def fun(name, a):
    """Range of an elementary function (outward rounded)."""
    s = Fraction(1, 10**9)

    def out(lo, lo_o, hi, hi_o):
        return (lo, lo_o, hi, hi_o)

    if name == "exp":
        lo, hi = Fraction(0), None
        if a[0] is not None and -600 < a[0] < _EXPMAX:
            lo = Fraction(math.exp(float(a[0]))) * (1 - s)
        if a[2] is not None and a[2] < _EXPMAX:
            hi = Fraction(math.exp(max(-600.0, float(a[2])))) * (1 + s)
        return out(lo, True, hi, True)
    if name == "log":
        lo = hi = None
        if a[0] is not None and a[0] > Fraction(1, 10**300):
            v = Fraction(math.log(a[0]))
            lo = v - s * max(1, abs(v))
        if a[2] is not None and a[2] > Fraction(1, 10**300):
            v = Fraction(math.log(a[2]))
            hi = v + s * max(1, abs(v))
        return out(lo, True, hi, True)
    if name == "sqrt":
        lo, hi = Fraction(0), None
        lo_o = False
        if a[0] is not None and a[0] > 0:
            lo = Fraction(math.sqrt(a[0])) * (1 - s)
        if a[0] is not None and a[0] == 0 and a[1]:
            lo_o = True
        if a[2] is not None and a[2] >= 0:
            hi = Fraction(math.sqrt(a[2])) * (1 + s) + Fraction(1, 10**300)
        return out(lo, lo_o, hi, True)
    return FULL


class Bounds:
    """Intervals of the terms of one path."""

    def __init__(self, ctx):
        self.c = ctx
        self.done = 0
        self.b = {}  # term id -> interval (from hypotheses)
        self.keep = []
        self.lin = {}  # normalised sums -> interval
        self.memo = {}
        self.qdef = {}
        self.ndiv = 0
        self.fdef = {}
        self.nfun = 0

    def sync(self):
        c = self.c
        if self.done < len(c.conds) or self.ndiv < len(c.div_cache) or self.nfun < len(c.trans):
            self.memo = {}
        if self.ndiv < len(c.div_cache):
            for qv, ta, tb in list(c.div_cache.values())[self.ndiv:]:
                self.qdef[qv.get_id()] = (z3.simplify(ta), z3.simplify(tb))
            self.ndiv = len(c.div_cache)
        while self.nfun < len(c.trans):
            t = c.trans[self.nfun]
            self.nfun += 1
            if t[0] in ("exp", "log", "sqrt") and z3.is_expr(t[2]) and z3.is_const(t[2]):
                self.fdef[t[2].get_id()] = (t[0], t[1])
                self.keep.append(t)
        while self.done < len(c.conds):
            self._learn(c.conds[self.done], True)
            self.done += 1

    def _learn(self, e, pos):
        if z3.is_not(e):
            return self._learn(e.arg(0), not pos)
        if z3.is_and(e) and pos:
            for k in e.children():
                self._learn(k, True)
            return
        if z3.is_or(e) and not pos:
            for k in e.children():
                self._learn(k, False)
            return
        if not z3.is_app(e) or e.num_args() != 2:
            return
        k = e.decl().kind()
        a, b = e.arg(0), e.arg(1)
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            return
        if z3.is_bool(a):
            return
        vb, va = _num(b), _num(a)
        if va is None and vb is None:
            return
        if vb is None:  # const op term
            a, vb = b, va
            k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT,
                 z3.Z3_OP_GT: z3.Z3_OP_LT}.get(k, k)
        if k == z3.Z3_OP_EQ:
            if not pos:
                # x != end point opens that end
                i = self.b.get(a.get_id())
                if i is not None:
                    if i[0] == vb:
                        i = (i[0], True, i[2], i[3])
                    if i[2] == vb:
                        i = (i[0], i[1], i[2], True)
                    self.b[a.get_id()] = i
                else:
                    self.b.setdefault(("ne", a.get_id()), set()).add(vb)
                self.keep.append(a)
                return
            iv = (vb, False, vb, False)
        else:
            le = k in (z3.Z3_OP_LE, z3.Z3_OP_LT)
            st = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
            if not pos:
                le, st = not le, not st
            iv = (None, True, vb, st) if le else (vb, st, None, True)
        self.keep.append(a)
        self._set(a, iv)

    def _set(self, t, iv, depth=0):
        # c * x (+ const): also bound x
        i = t.get_id()
        self.b[i] = meet(self.b.get(i, FULL), iv)
        for v in self.b.get(("ne", i), ()):
            q = self.b[i]
            if q[0] == v:
                q = (q[0], True, q[2], q[3])
            if q[2] == v:
                q = (q[0], q[1], q[2], True)
            self.b[i] = q
        if depth > 4 or not z3.is_app(t):
            return
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL and t.num_args() == 2:
            v = _num(t.arg(0))
            if v is not None and v != 0:
                self.keep.append(t.arg(1))
                self._set(t.arg(1), mul(iv, (1 / v, False, 1 / v, False)), depth + 1)
        elif k == z3.Z3_OP_ADD and t.num_args() == 2:
            v = _num(t.arg(0))
            if v is not None:
                self.keep.append(t.arg(1))
                self._set(t.arg(1), add(iv, (-v, False, -v, False)), depth + 1)
        elif k == z3.Z3_OP_TO_REAL:
            self.keep.append(t.arg(0))
            self._set(t.arg(0), iv, depth + 1)
        if k == z3.Z3_OP_ADD:
            key, cst, lead = self._linkey(t)
            if key is not None:
                self.keep.append(t)
                f = mul(add(iv, (-cst, False, -cst, False)), (1 / lead, False, 1 / lead, False))
                self.lin[key] = meet(self.lin.get(key, FULL), f)

    @staticmethod
    def _linkey(e):
        """A sum as  const + lead * (normalised sum): (key of the normalised sum, const, lead)."""
        cst, ts = Fraction(0), {}
        for x in e.children():
            v = _num(x)
            if v is not None:
                cst += v
                continue
            co, fs = Fraction(1), [x]
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL:
                fs = []
                for y in x.children():
                    v = _num(y)
                    if v is None:
                        fs.append(y)
                    else:
                        co *= v
            k = tuple(sorted(y.get_id() for y in fs))
            ts[k] = ts.get(k, 0) + co
        ts = {k: v for k, v in ts.items() if v}
        if len(ts) < 2:
            return None, None, None
        lead = ts[min(ts)]
        return tuple(sorted((k, v / lead) for k, v in ts.items())), cst, lead

    # ------------------------------------------------------------------ terms
    def iv(self, e, depth=0):
        v = _num(e)
        if v is not None:
            return (v, False, v, False)
        i = e.get_id()
        r = self.memo.get(i)
        if r is not None:
            return r[0]
        self.memo[i] = (self.b.get(i, FULL), e)  # cut cycles
        r = self._iv(e, depth)
        if i in self.b:
            r = meet(r, self.b[i])
        self.memo[i] = (r, e)
        return r

    def _iv(self, e, depth):
        if depth > 200 or not z3.is_app(e):
            return FULL
        k = e.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            i = e.get_id()
            if i in self.qdef:
                a, b = self.qdef[i]
                return mul(self.iv(a, depth + 1), inv(self.iv(b, depth + 1)))
            if i in self.fdef:
                n, t = self.fdef[i]
                try:
                    return fun(n, self.iv(t, depth + 1))
                except (OverflowError, ValueError):
                    return FULL
            return FULL
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            r = self.iv(ch[0], depth + 1)
            for x in ch[1:]:
                r = add(r, self.iv(x, depth + 1))
            if self.lin:
                key, cst, lead = self._linkey(e)
                if key in self.lin:
                    f = mul(self.lin[key], (lead, False, lead, False))
                    r = meet(r, add(f, (cst, False, cst, False)))
            return norm(r)
        if k == z3.Z3_OP_SUB:
            r = self.iv(ch[0], depth + 1)
            for x in ch[1:]:
                r = add(r, neg(self.iv(x, depth + 1)))
            return norm(r)
        if k == z3.Z3_OP_UMINUS:
            return neg(self.iv(ch[0], depth + 1))
        if k == z3.Z3_OP_MUL:
            # group equal factors (squares)
            seen = {}
            for x in ch:
                seen.setdefault(x.get_id(), [x, 0])[1] += 1
            r = (Fraction(1), False, Fraction(1), False)
            for x, n in seen.values():
                r = mul(r, power(self.iv(x, depth + 1), n))
            return r
        if k == z3.Z3_OP_DIV:
            return mul(self.iv(ch[0], depth + 1), inv(self.iv(ch[1], depth + 1)))
        if k == z3.Z3_OP_POWER:
            n = _num(ch[1])
            if n is not None and n.denominator == 1 and abs(n) <= 64:
                return power(self.iv(ch[0], depth + 1), int(n))
            return FULL
        if k == z3.Z3_OP_ITE:
            t = self.truth(ch[0], depth + 1)
            if t is True:
                return self.iv(ch[1], depth + 1)
            if t is False:
                return self.iv(ch[2], depth + 1)
            return join(self._branch(ch[0], True, ch[1], depth + 1), self._branch(ch[0], False, ch[2], depth + 1))
        if k in (z3.Z3_OP_TO_REAL,):
            return self.iv(ch[0], depth + 1)
        return FULL

    def _branch(self, cond, pos, e, depth):
        """Interval of e where cond has the given truth value (cond compares e itself)."""
        r = self.iv(e, depth)
        while z3.is_not(cond):
            cond, pos = cond.arg(0), not pos
        if not z3.is_app(cond) or cond.num_args() != 2:
            return r
        k = cond.decl().kind()
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            return r
        le, st = k in (z3.Z3_OP_LE, z3.Z3_OP_LT), k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        if not pos:
            le, st = not le, not st
        a, b = cond.arg(0), cond.arg(1)
        if b.eq(e):
            a, b, le = b, a, not le
        if not a.eq(e):
            return r
        o = self.iv(b, depth)
        if le and o[2] is not None:
            return meet(r, (None, True, o[2], o[3] or st))
        if not le and o[0] is not None:
            return meet(r, (o[0], o[1] or st, None, True))
        return r

    def truth(self, e, depth=0):
        """True / False if entailed / refuted by the intervals, else None."""
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if z3.is_not(e):
            t = self.truth(e.arg(0), depth + 1)
            return None if t is None else not t
        if z3.is_and(e):
            ts = [self.truth(x, depth + 1) for x in e.children()]
            return False if False in ts else (True if all(t is True for t in ts) else None)
        if z3.is_or(e):
            ts = [self.truth(x, depth + 1) for x in e.children()]
            return True if True in ts else (False if all(t is False for t in ts) else None)
        if not z3.is_app(e) or e.num_args() != 2:
            return None
        k = e.decl().kind()
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            return None
        a, b = e.arg(0), e.arg(1)
        if z3.is_bool(a):
            return None
        va, vb = _num(a), _num(b)
        if vb is not None:
            d, cst = self.iv(a, depth + 1), vb
        elif va is not None:
            d, cst = self.iv(b, depth + 1), va
            k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT,
                 z3.Z3_OP_GT: z3.Z3_OP_LT}.get(k, k)
        else:
            d, cst = add(self.iv(a, depth + 1), neg(self.iv(b, depth + 1))), Fraction(0)
        if k == z3.Z3_OP_LE:
            return sign_le(d, cst, False)
        if k == z3.Z3_OP_LT:
            return sign_le(d, cst, True)
        if k == z3.Z3_OP_GE:
            t = sign_le(d, cst, True)
            return None if t is None else not t
        if k == z3.Z3_OP_GT:
            t = sign_le(d, cst, False)
            return None if t is None else not t
        # equality
        if d[0] is not None and d[0] == d[2] == cst:
            return True
        s = add(d, (-cst, False, -cst, False))
        return False if not _has0(s) else None
