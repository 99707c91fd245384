"""Concrete side: the same harness interface over the real package (real numpy, scipy, sklearn).

The oracle computes with XF: a value with a running error bound (first-order, generous), exact
rational while that is cheap.  A comparison whose two sides are closer than their error bounds is
undecided unless both sides are small dyadic rationals (where IEEE arithmetic is exact too); an
undecided comparison never yields a violation."""
import importlib
import json
import math
import os
import signal
import sys
import warnings
from fractions import Fraction

EPS = 2e-13
REPO = os.environ.get("SYMX_REPO", "/repo")


class Undecided(BaseException):
    pass


class Stop(BaseException):
    pass


class TimeUp(BaseException):
    pass


def small(f):
    """exactly representable with room to spare: |numerator| < 2^40 over a power of two <= 2^16"""
    d = f.denominator
    return d & (d - 1) == 0 and d <= 65536 and abs(f.numerator) < 1 << 40


class XF:
    __slots__ = ("v", "e", "q", "s", "alt")
    # v float value, e error bound, q exact Fraction or None, s: every step so far was small dyadic,
    # alt: the only two values a rounding at a tie may have given

    def __init__(self, v, e, q=None, s=False):
        self.v = v
        self.e = e
        self.q = q
        self.s = s
        self.alt = None

    @staticmethod
    def of(x):
        if isinstance(x, XF):
            return x
        if isinstance(x, Fraction):
            v = float(x)
            return XF(v, EPS * abs(v), x, small(x))
        x = float(x)
        if math.isfinite(x):
            q = Fraction(x)
            return XF(x, EPS * abs(x), q, small(q))
        return XF(x, 0.0)

    def _mk(self, v, e, q, s):
        if q is not None:
            if q.denominator > 1 << 300 or abs(q.numerator) > 1 << 400:
                q = None
            else:
                try:
                    v = float(q)
                except OverflowError:
                    q = None
        return XF(v, e + EPS * abs(v) if math.isfinite(v) else 0.0, q, bool(s and q is not None and small(q)))

    def __add__(self, o):
        o = XF.of(o) if not isinstance(o, (XC, complex)) else o
        if not isinstance(o, XF):
            return XC.of(self) + o
        q = self.q + o.q if self.q is not None and o.q is not None else None
        return self._mk(self.v + o.v, self.e + o.e, q, self.s and o.s)

    __radd__ = __add__

    def __neg__(self):
        return XF(-self.v, self.e, -self.q if self.q is not None else None, self.s)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, (XC, complex)):
            return XC.of(self) - o
        return self + (-XF.of(o))

    def __rsub__(self, o):
        return XF.of(o) - self if not isinstance(o, complex) else XC.of(o) - self

    def __mul__(self, o):
        if isinstance(o, (XC, complex)):
            return XC.of(self) * o
        o = XF.of(o)
        q = self.q * o.q if self.q is not None and o.q is not None else None
        return self._mk(self.v * o.v, abs(self.v) * o.e + abs(o.v) * self.e + self.e * o.e, q, self.s and o.s)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (XC, complex)):
            return XC.of(self) / o
        o = XF.of(o)
        if o.v == 0 or (o.q is not None and o.q == 0):
            if o.s and self.s:
                return XF(math.nan if self.v == 0 else math.copysign(math.inf, self.v), 0.0)
            raise Undecided("division by zero")
        if abs(o.v) <= 100 * o.e and not o.s:
            raise Undecided("division by a rounding residue")
        q = self.q / o.q if self.q is not None and o.q is not None and o.q != 0 else None
        v = self.v / o.v
        return self._mk(v, (self.e + abs(v) * o.e) / (abs(o.v) - min(o.e, abs(o.v) / 2)), q, self.s and o.s)

    def __rtruediv__(self, o):
        return XF.of(o) / self if not isinstance(o, complex) else XC.of(o) / self

    def __pow__(self, n):
        if isinstance(n, XF):
            n = n.v
        if n == int(n) and n >= 0:
            r = XF.of(1)
            for _ in range(int(n)):
                r = r * self
            return r
        if n == int(n):
            return XF.of(1) / self ** (-int(n))
        return xpow(self, n)

    def __abs__(self):
        return XF(abs(self.v), self.e, abs(self.q) if self.q is not None else None, self.s)

    # comparisons
    def __lt__(self, o):
        return cmp(self, o, "<")

    def __le__(self, o):
        return cmp(self, o, "<=")

    def __gt__(self, o):
        return cmp(self, o, ">")

    def __ge__(self, o):
        return cmp(self, o, ">=")

    def __eq__(self, o):
        return cmp(self, o, "==")

    def __ne__(self, o):
        return ~cmp(self, o, "==")

    __hash__ = None

    def __repr__(self):
        return "%r±%.1e%s" % (self.v, self.e, "!" if self.s else "")


class XB:
    """three-valued boolean"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __bool__(self):
        if self.v is None:
            raise Undecided("condition within rounding")
        return self.v

    def __invert__(self):
        return XB(None if self.v is None else not self.v)

    def __repr__(self):
        return "XB(%r)" % self.v


def xb(x):
    return x if isinstance(x, XB) else XB(bool(x))


def cmp(a, b, op):
    a, b = XF.of(a), XF.of(b)
    if not (math.isfinite(a.v) and math.isfinite(b.v)):
        x, y = a.v, b.v
    else:
        if a.s and b.s:
            x, y = a.q, b.q
        else:
            tol = 50 * (a.e + b.e) + 1e-300
            if abs(a.v - b.v) <= tol:
                return XB(None)
            x, y = a.v, b.v
    return XB({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y}[op])


def xsqrt(a):
    a = XF.of(a)
    if math.isnan(a.v):
        return a
    if a.q is not None and a.q >= 0:
        n, d = math.isqrt(a.q.numerator), math.isqrt(a.q.denominator)
        if n * n == a.q.numerator and d * d == a.q.denominator:
            q = Fraction(n, d)
            v = float(q)
            e = a.e / (2 * v) if v > 0 else 0.0
            return XF(v, e + EPS * v, q, a.s and small(q))
    if a.v < -50 * a.e:
        return XF(math.nan, 0.0)
    if a.v <= 50 * a.e:
        if a.v < 0 or a.e > 0:
            r = math.sqrt(max(a.v, 0.0) + a.e)
            return XF(math.sqrt(max(a.v, 0.0)), r)
    v = math.sqrt(a.v)
    return XF(v, a.e / (2 * v) + EPS * v)


def xpow(a, p):
    a = XF.of(a)
    if a.v < 0:
        raise Undecided("power of a negative")
    if a.v <= 100 * a.e:
        raise Undecided("power near zero")
    v = a.v ** p
    return XF(v, abs(p * v / a.v) * a.e + EPS * v)


def xround(a, d):
    a = XF.of(a)
    if not math.isfinite(a.v):
        return a
    sc = Fraction(10) ** d
    x = a.q * sc if a.q is not None else Fraction(a.v) * sc
    f = math.floor(x)
    fr = x - f
    tol = 50 * a.e * float(sc)
    half = Fraction(1, 2)
    if abs(float(fr - half)) <= tol:
        # may round either way
        if a.s and fr == half and d <= 0:
            n = f if f % 2 == 0 else f + 1
            q = Fraction(n) / sc
            return XF(float(q), EPS * abs(float(q)), q, a.s and small(q))
        r = XF(float((Fraction(f) + half) / sc), float(1 / sc))
        r.alt = (float(Fraction(f) / sc), float((f + 1) / sc))
        return r
    n = f if fr < half else f + 1
    q = Fraction(n) / sc
    return XF(float(q), EPS * abs(float(q)), q, a.s and small(q))


def xfun(f, df):
    def g(a):
        a = XF.of(a)
        if math.isnan(a.v):
            return a
        try:
            v = f(a.v)
            lo = abs(df(a.v))
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Undecided("function domain")
        return XF(v, 2 * lo * a.e + EPS * abs(v) + 1e-300)
    return g


class XC:
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @staticmethod
    def of(x):
        if isinstance(x, XC):
            return x
        if isinstance(x, XF):
            return XC(x, XF.of(0))
        x = complex(x)
        return XC(XF.of(x.real), XF.of(x.imag))

    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)

    def conjugate(self):
        return XC(self.re, -self.im)

    def __add__(self, o):
        o = XC.of(o)
        return XC(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __neg__(self):
        return XC(-self.re, -self.im)

    def __sub__(self, o):
        o = XC.of(o)
        return XC(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return XC.of(o) - self

    def __mul__(self, o):
        o = XC.of(o)
        return XC(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = XC.of(o)
        m = o.re * o.re + o.im * o.im
        return XC((self.re * o.re + self.im * o.im) / m, (self.im * o.re - self.re * o.im) / m)

    def __rtruediv__(self, o):
        return XC.of(o) / self

    def __abs__(self):
        return xsqrt(self.re * self.re + self.im * self.im)


def xcsqrt(z):
    z = XC.of(z)
    c = complex(z.re.v, z.im.v)
    import cmath
    w = cmath.sqrt(c)
    m = abs(w)
    e = (z.re.e + z.im.e) / (2 * m) + EPS * m if m > 0 else math.sqrt(z.re.e + z.im.e)
    if abs(c.imag) <= 50 * z.im.e and c.real < 0 and not (z.im.q is not None and z.im.q == 0):
        raise Undecided("branch cut")
    return XC(XF(w.real, e), XF(w.imag, e))


class ConcEnv:
    symbolic = False

    def __init__(self, inputs):
        import numpy as np
        self.np = np
        self.inputs = inputs
        self.used = {}
        self.obs = []
        self.fails = []
        self.undec = 0
        self.patches = []

    # inputs
    def _get(self, name, lo, hi, isint=False):
        v = self.inputs.get(name)
        if v is None:
            v = default_value(name, lo, hi, isint)
        v = float(v)
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        self.used[name] = v
        return v

    def real(self, name, lo=-1000, hi=1000):
        return XF.of(self._get(name, lo, hi))

    def int(self, name, lo, hi):
        return XF.of(round(self._get(name, lo, hi, True)))

    def vec(self, name, n, lo=-1000, hi=1000):
        return [self.real("%s%d" % (name, i), lo, hi) for i in range(n)]

    def const(self, x):
        return XF.of(x)

    def assume(self, b):
        b = xb(b)
        if b.v is not True:
            raise Undecided("assumption not met")

    # arguments
    def arr(self, vals, dtype="f8", shape=None):
        np = self.np
        vs = []
        for v in vals:
            if isinstance(v, XF):
                v = v.v
            vs.append(v)
        if dtype == "i8":
            a = np.array([int(round(v)) for v in vs], dtype=np.int64)
        elif dtype in ("f8", "f4"):
            a = np.array(vs, dtype=dtype) if vs else np.array([], dtype=dtype)
        elif dtype == "c16":
            a = np.array([complex(x.re.v, x.im.v) if isinstance(x, XC) else x for x in vs], dtype=complex)
        else:
            a = np.array(vs, dtype=object)
        return a if shape is None else a.reshape(shape)

    def idx(self, ints):
        return self.np.array([int(i) for i in ints], dtype=self.np.int64)

    def pyfloat(self, v):
        return float(v.v if isinstance(v, XF) else v)

    def pyint(self, v):
        return int(round(v.v if isinstance(v, XF) else v))

    def npfloat(self, v):
        return self.np.float64(v.v if isinstance(v, XF) else v)

    def string(self, v):
        if isinstance(v, str):
            return v
        return repr(float(v.v if isinstance(v, XF) else v))

    def strarr(self, items):
        return self.np.array(items)

    # calls
    def fn(self, mod, name):
        return getattr(importlib.import_module(mod), name)

    def attempt(self, mod, name, *a, **k):
        f = self.fn(mod, name)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return None, f(*a, **k)
        except Exception as e:
            self.last_exc = e
            return type(e).__name__, None

    def call(self, mod, name, *a, **k):
        e, v = self.attempt(mod, name, *a, **k)
        if e is not None:
            self.fail("%s raised %s: %s" % (name, e, str(self.last_exc)[:120]))
            raise Stop()
        return v

    # results
    def _x(self, v):
        np = self.np
        if isinstance(v, np.ma.core.MaskedConstant):
            return XF(math.nan, 0.0)
        if isinstance(v, (complex, np.complexfloating)):
            c = complex(v)
            return XC(XF(c.real, 0.0, None, True), XF(c.imag, 0.0, None, True))
        f = float(v)
        if math.isfinite(f):
            return XF(f, 0.0, Fraction(f), small(Fraction(f)))
        return XF(f, 0.0)

    def vals(self, res, n=None, label="result"):
        np = self.np
        if isinstance(res, (list, tuple)):
            res = np.asarray(res)
        if not isinstance(res, np.ndarray):
            self.fail("%s is not an array" % label)
            raise Stop()
        if res.dtype.kind not in "fiubc":
            try:
                res = res.astype(float)
            except Exception:
                self.fail("%s is not numeric" % label)
                raise Stop()
        out = [self._x(v) for v in res.reshape(-1).tolist()]
        if n is not None and len(out) != n:
            self.fail("%s has %d elements, expected %d" % (label, len(out), n))
            raise Stop()
        self.obs.extend(out)
        return out

    def val(self, res, label="result"):
        np = self.np
        if isinstance(res, np.ndarray):
            if res.size != 1:
                self.fail("%s is not a scalar" % label)
                raise Stop()
            res = res.reshape(-1)[0]
        if isinstance(res, (bool, str, type(None), tuple, list, dict)):
            self.fail("%s is not a number" % label)
            raise Stop()
        r = self._x(res)
        self.obs.append(r)
        return r

    def shape(self, res):
        return tuple(self.np.shape(res))

    def kind(self, res):
        return res.dtype.kind if isinstance(res, self.np.ndarray) else None

    def members(self, res, n, label="indices"):
        np = self.np
        if isinstance(res, (list, tuple)):
            res = np.asarray(res, dtype=np.int64)
        if not isinstance(res, np.ndarray) or res.ndim != 1:
            self.fail("%s is not a 1-d array" % label)
            raise Stop()
        if res.size and res.dtype.kind not in "iu":
            self.fail("%s is not an integer array" % label)
            raise Stop()
        ix = [int(i) for i in res]
        self.check(all(0 <= i < n for i in ix), "%s within range" % label)
        self.check(all(a < b for a, b in zip(ix, ix[1:])), "%s sorted without duplicates" % label)
        s = set(ix)
        self.obs.extend([XF.of(1.0 if i in s else 0.0) for i in range(n)])
        return [XB(i in s) for i in range(n)]

    def snapshot(self, a):
        return a.copy()

    def unchanged(self, a, snap, label):
        self.check(a.shape == snap.shape and bool(self.np.array_equal(a, snap, equal_nan=a.dtype.kind in "fc")), label)

    def not_alias(self, res, a, label):
        if isinstance(res, self.np.ndarray):
            self.check(not self.np.shares_memory(res, a), label)

    # obligations
    def require(self, b, label):
        b = xb(b)
        if b.v is None:
            self.undec += 1
        elif not b.v:
            self.fails.append(label)

    def check(self, b, label):
        if not b:
            self.fails.append(label)

    def fail(self, label):
        self.fails.append(label)

    def close(self, a, b, label, tol=None):
        if isinstance(a, (XC, complex)) or isinstance(b, (XC, complex)):
            a, b = XC.of(a), XC.of(b)
            fa, fb = [all(math.isfinite(p.v) for p in (z.re, z.im)) for z in (a, b)]
            if fb and not fa:
                self.fails.append("%s: got %r, expected %r" % (label, (a.re.v, a.im.v), (b.re.v, b.im.v)))
            if not (fa and fb):
                return
            m = abs(complex(a.re.v, a.im.v)) + abs(complex(b.re.v, b.im.v))
            t = 200 * (a.re.e + a.im.e + b.re.e + b.im.e) + 1e-9 * m + 1e-11
            if abs(complex(a.re.v - b.re.v, a.im.v - b.im.v)) > t:
                self.fails.append("%s: got %r, expected %r" % (label, (a.re.v, a.im.v), (b.re.v, b.im.v)))
            return
        a, b = XF.of(a), XF.of(b)
        if math.isnan(a.v) or math.isnan(b.v):
            if math.isnan(a.v) != math.isnan(b.v):
                self.fails.append("%s: got %r, expected %r" % (label, a.v, b.v))
            return
        if math.isinf(a.v) or math.isinf(b.v):
            if a.v != b.v:
                self.fails.append("%s: got %r, expected %r" % (label, a.v, b.v))
            return
        if b.alt is not None and a.alt is None:
            t = 200 * a.e + 1e-9 * abs(a.v) + 1e-11
            if all(abs(a.v - v) > t for v in b.alt):
                self.fails.append("%s: got %r, expected one of %r" % (label, a.v, b.alt))
            return
        t = 200 * (a.e + b.e) + 1e-9 * max(abs(a.v), abs(b.v)) + 1e-11
        if abs(a.v - b.v) > t:
            self.fails.append("%s: got %r, expected %r" % (label, a.v, b.v))

    def iff(self, a, b, label):
        a, b = xb(a), xb(b)
        if a.v is None or b.v is None:
            self.undec += 1
        elif a.v != b.v:
            self.fails.append("%s: got %r, expected %r" % (label, a.v, b.v))

    # oracle arithmetic
    def isnan(self, v):
        return math.isnan(XF.of(v).v)

    def special(self, v):
        v = XF.of(v).v
        return "nan" if math.isnan(v) else ("inf" if v == math.inf else ("-inf" if v == -math.inf else None))

    nan = property(lambda s: XF(math.nan, 0.0))

    def sum(self, xs):
        t = XF.of(0)
        for x in xs:
            t = t + x
        return t

    sqrt = staticmethod(xsqrt)
    csqrt = staticmethod(xcsqrt)

    def cplx(self, re, im):
        return XC(XF.of(re), XF.of(im))

    exp = staticmethod(xfun(math.exp, math.exp))
    log = staticmethod(xfun(math.log, lambda x: 1 / x))
    erf = staticmethod(xfun(math.erf, lambda x: 1.13 * math.exp(-x * x)))
    atan = staticmethod(xfun(math.atan, lambda x: 1 / (1 + x * x)))
    cos = staticmethod(xfun(math.cos, math.sin))
    sin = staticmethod(xfun(math.sin, math.cos))
    tan = staticmethod(xfun(math.tan, lambda x: 1 + math.tan(x) ** 2))

    def atan2(self, y, x):
        y, x = XF.of(y), XF.of(x)
        r2 = x.v * x.v + y.v * y.v
        if r2 == 0 or math.sqrt(r2) <= 50 * (x.e + y.e):
            if x.s and y.s:
                return XF.of(math.atan2(y.v, x.v))
            raise Undecided("atan2 at the origin")
        if x.v < 0 and abs(y.v) <= 50 * y.e and not y.s:
            raise Undecided("atan2 branch cut")
        return XF(math.atan2(y.v, x.v), (x.e + y.e) / math.sqrt(r2) + EPS)

    pow = staticmethod(lambda v, e: XF.of(v) ** e)

    def abs(self, v):
        return abs(v)

    round = staticmethod(xround)

    def ite(self, c, a, b):
        c = xb(c)
        a, b = XF.of(a), XF.of(b)
        if c.v is None:
            return XF((a.v + b.v) / 2, abs(a.v - b.v) / 2 + a.e + b.e)
        return a if c.v else b

    def order(self, xs, k):
        xs = [XF.of(x) for x in xs]
        return sorted(xs, key=lambda x: x.v)[k]

    def min(self, xs):
        return self.order(xs, 0)

    def max(self, xs):
        return self.order(xs, len(xs) - 1)

    def median(self, xs):
        n = len(xs)
        if n % 2:
            return self.order(xs, n // 2)
        return (self.order(xs, n // 2 - 1) + self.order(xs, n // 2)) / 2

    def eq(self, a, b):
        return cmp(a, b, "==")

    def gt(self, a, b):
        return cmp(a, b, ">")

    def ge(self, a, b):
        return cmp(a, b, ">=")

    def lt(self, a, b):
        return cmp(a, b, "<")

    def le(self, a, b):
        return cmp(a, b, "<=")

    def and_(self, *xs):
        vs = [xb(x).v for x in xs]
        return XB(False if False in vs else (None if None in vs else True))

    def or_(self, *xs):
        vs = [xb(x).v for x in xs]
        return XB(True if True in vs else (None if None in vs else False))

    def not_(self, x):
        return ~xb(x)

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    true = XB(True)
    false = XB(False)

    def decide(self, b):
        return bool(xb(b))

    follow = decide

    # library stand-ins
    def interp_weights(self, xs, x, kind):
        from scipy.interpolate import interp1d
        np = self.np
        f = interp1d(np.array([float(v) for v in xs]), np.eye(len(xs)), kind=kind, axis=0)
        return [XF(float(v), 1e-12) for v in f(float(x))]

    def ls_weights(self, rows, row):
        # exact rational normal equations
        rows = [[Fraction(v) for v in r] for r in rows]
        p = len(row)
        M = [[sum(r[i] * r[j] for r in rows) for j in range(p)] + [Fraction(row[i])] for i in range(p)]
        for c in range(p):
            pr = next(i for i in range(c, p) if M[i][c] != 0)
            M[c], M[pr] = M[pr], M[c]
            pv = M[c][c]
            M[c] = [v / pv for v in M[c]]
            for i in range(p):
                if i != c and M[i][c] != 0:
                    f = M[i][c]
                    M[i] = [a - f * b for a, b in zip(M[i], M[c])]
        z = [M[i][p] for i in range(p)]
        out = []
        for r in rows:
            w = sum(z[j] * r[j] for j in range(p))
            x = XF.of(float(w))
            out.append(XF(x.v, 1e-11 * (1 + abs(x.v))))
        return out

    def same(self, a, b):
        a, b = XF.of(a), XF.of(b)
        return abs(a.v - b.v) <= 1e-9 * (1 + abs(a.v)) + a.e + b.e

    def peak(self, xs):
        at = 0
        for k in range(1, len(xs)):
            if bool(xb(self.gt(xs[k], xs[at]))):
                at = k
        return xs[at], at

    def kde(self, pts, qs):
        from scipy.stats import gaussian_kde
        np = self.np
        ds = np.array([[XF.of(v).v for v in r] for r in pts])
        q = np.array([[XF.of(v).v for v in r] for r in qs])
        try:
            d = gaussian_kde(ds)(q)
        except Exception:
            raise Undecided("kde")
        return [XF(float(v), 1e-9 * abs(float(v)) + 1e-300) for v in d]

    def unsupported(self, why):
        return Undecided(why)

    def set_random(self, obj):
        np = self.np
        for n in dir(obj):
            if not n.startswith("_") and hasattr(np.random, n):
                self.patches.append((np.random, n, getattr(np.random, n)))
                setattr(np.random, n, getattr(obj, n))

    def set_eigh(self, f):
        np = self.np
        self.patches.append((np.linalg, "eigh", np.linalg.eigh))
        np.linalg.eigh = f

    def set_opt(self, **k):
        import scipy.optimize as so
        for n, f in k.items():
            self.patches.append((so, n, getattr(so, n)))
            setattr(so, n, f)

    def undo(self):
        for m, n, v in reversed(self.patches):
            setattr(m, n, v)


def default_value(name, lo, hi, isint):
    import random
    rng = random.Random("%s|%d" % (name, 1))
    lo = -20 if lo is None else lo
    hi = 20 if hi is None else hi
    if lo < -20 and hi > -20:
        lo = -20
    if hi > 20 and lo < 20:
        hi = 20
    if isint:
        return rng.randint(math.ceil(lo), math.floor(hi))
    return lo + (hi - lo) * rng.randint(1, 4095) / 4096


def purge():
    """forget the package's modules: every replay starts from a fresh import (fresh module state)"""
    for m in [m for m in sys.modules if m == "proadv" or m.startswith("proadv.")]:
        del sys.modules[m]


def replay(harness, cfg, inputs, limit=30):
    """Run one harness on the real code. -> dict"""
    mod = importlib.import_module("harness." + harness)
    env = ConcEnv(inputs)

    def on_alarm(*a):
        raise TimeUp()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    st = "ok"
    note = None
    try:
        mod.run(env, cfg)
    except Stop:
        pass
    except Undecided as e:
        st = "undecided"
        note = str(e)
    except TimeUp:
        st = "timeout"
    except Exception as e:
        import traceback
        st = "error"
        note = traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        env.undo()
        if getattr(mod, "FRESH", False):
            purge()
    obs = []
    for o in env.obs:
        if isinstance(o, XC):
            obs += [o.re.v, o.im.v]
        else:
            obs.append(o.v)
    # a failure already recorded before an undecided point stands
    if env.fails and st in ("ok", "undecided"):
        st = "violation"
    return {"status": st, "fails": env.fails[:5], "obs": obs, "note": note, "inputs": env.used, "undec": env.undec}


def serve():
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        res = replay(req["harness"], req["cfg"], req["inputs"], req.get("limit", 30))
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    serve()
