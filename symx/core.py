"""Symbolic core: exact rational-function normal forms over interned atoms, symbolic
booleans, the path explorer and the translation to z3.

Values
  R  : a real/integer value  num/den, num a polynomial (dict monomial -> int|Fraction) over
       atoms, den a product of interned polynomial factors; or a special (nan, inf, -inf).
  C  : a complex value (pair of R).
  Bo : a symbolic boolean; truth-testing one asks the path explorer.

Atoms are inputs or opaque/defined functions of other values (sqrt, ite, round, exp, ...).
Every atom knows (a) its z3 variable, (b) the z3 constraints that define it and (c) how to be
evaluated numerically, so that every solver model can be replayed on the real code.
"""
from fractions import Fraction
from functools import lru_cache
import math
import struct
import time
import random

import mpmath
import z3

mp = mpmath.mp
mp.dps = 40
mpf = mpmath.mpf


class Steer(BaseException):
    """Base of the exceptions that steer the exploration (never caught by code under test)."""


class Unsupported(Steer):
    pass


class PathAbort(Steer):
    pass


# ----------------------------------------------------------------------------- constants
def _simplest_between(lo, hi):
    """Simplest fraction in the closed interval [lo, hi] (0 < lo <= hi)."""
    # continued fraction walk
    fl = lo.numerator // lo.denominator
    if Fraction(fl) == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    r = _simplest_between(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


@lru_cache(maxsize=200000)
def snap(x):
    """The simplest fraction that rounds to the double x."""
    x = float(x)
    if x == int(x) and abs(x) < 2 ** 63:
        return int(x)
    neg = x < 0
    ax = abs(x)
    f = Fraction(ax)
    up = math.nextafter(ax, math.inf)
    dn = math.nextafter(ax, 0.0)
    if up == math.inf:
        return -f if neg else f
    lo = (f + Fraction(dn)) / 2
    hi = (f + Fraction(up)) / 2
    # stay strictly inside
    eps = (hi - lo) / 1024
    lo += eps
    hi -= eps
    if lo <= 0:
        lo = f
    r = _simplest_between(lo, hi)
    if r.denominator == 1:
        r = r.numerator
    return -r if neg else r


def norm_c(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def cdiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        q, r = divmod(a, b)
        if r == 0:
            return q
        return Fraction(a, b)
    return norm_c(Fraction(a) / Fraction(b))


# ----------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("aid", "kind", "args", "name", "zv", "isint", "lo", "hi", "nonneg", "red", "extra")

    def __init__(self, aid, kind, args, name, isint=False, lo=None, hi=None, nonneg=False):
        self.aid = aid
        self.kind = kind
        self.args = args
        self.name = name
        self.isint = isint
        self.lo = lo
        self.hi = hi
        self.nonneg = nonneg
        self.red = None
        self.zv = None
        self.extra = None

    def __repr__(self):
        return self.name


class Ctx:
    """Everything that persists across the paths of one configuration."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.atoms = {}
        self.intern = {}
        self.next = -1
        self.inputs = {}
        self.facs = []
        self.facmap = {}
        self.bos = {}
        self.bocount = 0
        self.reducible = {}
        self.zpoly = {}
        self.path = None
        self.stats = dict(queries=0, solver_s=0.0, unsat=0, sat=0, unknown=0, branches=0,
                          linear_unsat=0)
        self.seed = 1
        self.zdefs = {}
        self.uf = {}
        self.psd = {}
        self.fuzzy = {}
        self.deadline = 0
        self.fork = False             # conditional values and minima/maxima branch instead of staying symbolic
        self.fuzz = False             # coefficients that cancel up to rounding vanish (implied by cut)
        self.cut = 0                  # > 0: polynomials above this many terms are named where they are divided or rooted
        self.debug = getattr(self, "debug", False)

    # -- atoms
    def atom(self, kind, args, key, **kw):
        k = (kind, key)
        a = self.intern.get(k)
        if a is None:
            aid = self.next
            self.next -= 1
            a = Atom(aid, kind, args, "%s%d" % (kind, -aid), **kw)
            self.atoms[aid] = a
            self.intern[k] = a
        return a

    def input(self, name, lo, hi, isint=False):
        k = ("in", name)
        a = self.intern.get(k)
        if a is None:
            aid = self.next
            self.next -= 1
            a = Atom(aid, "in", (), name, isint=isint, lo=lo, hi=hi, nonneg=(lo is not None and lo >= 0))
            self.atoms[aid] = a
            self.intern[k] = a
            self.inputs[name] = a
        return a

    def zvar(self, a):
        if a.zv is None:
            a.zv = z3.ToReal(z3.Int(a.name)) if a.isint else z3.Real(a.name)
        return a.zv

    # -- factors
    def fac(self, poly):
        key = pkey(poly)
        i = self.facmap.get(key)
        if i is None:
            i = fuzzy_find("fac", poly)
            if i is None:
                i = len(self.facs)
                self.facs.append(poly)
                fuzzy_add("fac", poly, i)
            self.facmap[key] = i
        return i


CTX = Ctx()


def fuzzy_find(kind, poly):
    """object registered for a polynomial with the same monomials and coefficients equal up to IEEE rounding"""
    for coefs, obj in CTX.fuzzy.get((kind, frozenset(poly)), ()):
        for m, c in poly.items():
            d = coefs[m]
            if c != d and abs(c - d) > FUZZ * max(abs(c), abs(d)):
                break
        else:
            return obj
    return None


FUZZ = Fraction(1, 10 ** 11)


def fuzzy_add(kind, poly, obj):
    CTX.fuzzy.setdefault((kind, frozenset(poly)), []).append((poly, obj))


# ----------------------------------------------------------------------------- polynomials
def pkey(p):
    return tuple(sorted(p.items()))


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x = a[i]
        y = b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] > y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    if i < la:
        out.extend(a[i:])
    if j < lb:
        out.extend(b[j:])
    return tuple(out)


def p_add(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    fz = CTX.cut or CTX.fuzz
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c if s == 1 else -c
        else:
            o = v
            v = v + c if s == 1 else v - c
            if v == 0 or (fz and abs(v) <= FUZZ * abs(o)):
                del r[m]
            else:
                r[m] = norm_c(v) if type(v) is Fraction else v
    return r


def p_scale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: norm_c(c * k) for m, c in a.items()}


MAXTERMS = 60000


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and () in a:
        return p_scale(b, a[()])
    if len(b) == 1 and () in b:
        return p_scale(a, b[()])
    if CTX.cut and len(a) * len(b) > 8000:
        a, b = cut_poly(a), cut_poly(b)
    if len(a) * len(b) > 6000000:
        raise Unsupported("polynomial product too large")
    r = {}
    red = CTX.reducible
    fz = CTX.cut or CTX.fuzz
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            c = c1 * c2
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                w = v + c
                if fz and abs(w) <= FUZZ * abs(c):
                    w = 0
                r[m] = w
    r = {m: norm_c(c) for m, c in r.items() if c != 0}
    if len(r) > MAXTERMS:
        raise Unsupported("polynomial too large")
    if red:
        r = p_reduce(r)
    return r


def wants_cut(p):
    if not CTX.cut or len(p) <= CTX.cut:
        return False
    if len(p) > 40:
        return True
    for m in p:
        for (a, _) in m:
            if CTX.atoms[a].kind in ("def", "sqrt"):
                return False          # already over named quantities: keep its structure
    return True


def cut_poly(p):
    """c*D with a definition atom D for the monic part of p (a definition the solver and the evaluator know)"""
    if not wants_cut(p):
        return p
    c = p[max(p)]
    q = {m: cdiv(v, c) for m, v in p.items()}
    key = tol_pkey(q)
    a = CTX.intern.get(("def", key))
    if a is None:
        a = fuzzy_find("def", q)
        if a is None:
            a = CTX.atom("def", (R(q, (), None, "f8"),), key, nonneg=p_known_nonneg(q, True))
            fuzzy_add("def", q, a)
        else:
            CTX.intern[("def", key)] = a
    return {((a.aid, 1),): c}


def p_reduce(p):
    """Apply the rewrite rules of the reducible atoms (sqrt: s*s -> radicand, ...)."""
    red = CTX.reducible
    for _ in range(200):
        todo = None
        for m in p:
            for (a, e) in m:
                if a in red:
                    rule = red[a](m, a, e)
                    if rule is not None:
                        todo = (m, rule)
                        break
            if todo:
                break
        if not todo:
            return p
        # rewrite every reducible monomial in one sweep
        out = {}
        for m, c in p.items():
            rep = None
            for (a, e) in m:
                if a in red:
                    rep = red[a](m, a, e)
                    if rep is not None:
                        break
            if rep is None:
                v = out.get(m)
                out[m] = c if v is None else v + c
            else:
                rest, poly = rep
                for m2, c2 in poly.items():
                    mm = mono_mul(rest, m2)
                    v = out.get(mm)
                    out[mm] = c * c2 if v is None else v + c * c2
        p = {m: norm_c(c) for m, c in out.items() if c != 0}
        if len(p) > MAXTERMS:
            raise Unsupported("polynomial too large")
    raise Unsupported("reduction does not terminate")


def p_const(p):
    """The constant value of p, or None."""
    if not p:
        return 0
    if len(p) == 1:
        return p.get((), None)
    return None


def mono_div(a, b):
    """a / b or None"""
    if not b:
        return a
    out = []
    j = 0
    lb = len(b)
    for x in a:
        if j < lb and b[j][0] == x[0]:
            e = x[1] - b[j][1]
            if e < 0:
                return None
            if e:
                out.append((x[0], e))
            j += 1
        elif j < lb and b[j][0] > x[0]:
            return None
        else:
            out.append(x)
    if j < lb:
        return None
    return tuple(out)


def p_divexact(n, f):
    """n / f if exact, else None (lex order on monomial tuples)."""
    if not n:
        return {}
    lf = max(f)
    cf = f[lf]
    if len(f) == 1:
        out = {}
        for m, c in n.items():
            q = mono_div(m, lf)
            if q is None:
                return None
            out[q] = cdiv(c, cf)
        return out
    ln = max(n)
    if mono_div(ln, lf) is None:
        return None
    mn = min(n)
    mf = min(f)
    if mono_div(mn, mf) is None:
        return None
    rem = dict(n)
    q = {}
    steps = 0
    fz = CTX.cut or CTX.fuzz
    while rem:
        lr = max(rem)
        t = mono_div(lr, lf)
        if t is None:
            return None
        c = cdiv(rem[lr], cf)
        q[t] = c
        for m, cc in f.items():
            mm = mono_mul(t, m)
            o = rem.get(mm, 0)
            v = o - c * cc
            if v == 0 or (fz and abs(v) <= FUZZ * abs(o)):
                rem.pop(mm, None)
            else:
                rem[mm] = norm_c(v) if type(v) is Fraction else v
        steps += 1
        if steps > 4000:
            return None
    return q


def p_atoms(p):
    s = set()
    for m in p:
        for (a, _) in m:
            s.add(a)
    return s


def p_nonneg_struct(p):
    """True if p is structurally >= 0 (sum of positive terms of even powers / nonneg atoms)."""
    for m, c in p.items():
        if c < 0:
            return False
        for (a, e) in m:
            if e % 2 and not CTX.atoms[a].nonneg:
                return False
    return True


def p_known_nonneg(p, free=False):
    """p >= 0 for every input; or, unless `free`, on this path, because its root was taken here"""
    if p_nonneg_struct(p):
        return True
    k = pkey(p_primitive(p)[1])
    if not free and CTX.path is not None and k in CTX.path.radicands:
        return True
    v = CTX.psd.get(k)
    if v is None:
        v = p_quad_psd(p)
        CTX.psd[k] = v
    return v


def p_quad_psd(p):
    """True if p is a positive semidefinite quadratic polynomial (exact LDL^T on its homogenisation)."""
    idx = {}
    for m in p:
        deg = 0
        for (a, e) in m:
            deg += e
            if a not in idx:
                idx[a] = len(idx)
        if deg > 2:
            return False
    n = len(idx) + 1
    if n > 161:
        return False
    H = [[Fraction(0)] * n for _ in range(n)]
    for m, c in p.items():
        ii = []
        for (a, e) in m:
            ii += [idx[a]] * e
        while len(ii) < 2:
            ii.append(n - 1)
        i, j = ii
        if i == j:
            H[i][i] += Fraction(c)
        else:
            H[i][j] += Fraction(c) / 2
            H[j][i] += Fraction(c) / 2
    for k in range(n):
        d = H[k][k]
        if d < 0:
            return False
        if d == 0:
            if any(H[k][j] != 0 for j in range(k + 1, n)):
                return False
            continue
        for i in range(k + 1, n):
            if H[i][k]:
                f = H[i][k] / d
                for j in range(k + 1, n):
                    H[i][j] -= f * H[k][j]
    return True


def p_primitive(p):
    """(content, q) with p = content*q, content > 0, q having |leading coeff| 1."""
    lead = p[max(p)]
    c = abs(lead)
    if c == 1:
        return 1, p
    return c, {m: cdiv(v, c) for m, v in p.items()}


# ----------------------------------------------------------------------------- R
FKINDS = ("pf", "f8", "f4")
IKINDS = ("pi", "i8", "b1")


def kind_promote(a, b):
    if a == b:
        return "i8" if a == "b1" else a
    s = (a, b)
    if "c16" in s:
        return "c16"
    if "f4" in s and not ("f8" in s or "i8" in s):
        return "f4"
    if "f8" in s or "f4" in s:
        return "f8"
    if "pf" in s:
        return "f8" if ("i8" in s or "b1" in s) else "pf"
    return "i8"


class R:
    __slots__ = ("n", "d", "sp", "k", "_h")
    __array_priority__ = 1000.0
    __array_ufunc__ = None

    def __init__(self, n, d=(), sp=None, k="f8"):
        self.n = n
        self.d = d
        self.sp = sp
        self.k = k
        self._h = None

    # -- constructors
    @staticmethod
    def const(x, k=None):
        if isinstance(x, R):
            return x
        if isinstance(x, bool):
            return R({(): int(x)} if x else {}, (), None, k or "pi")
        if isinstance(x, int):
            return R({(): x} if x else {}, (), None, k or "pi")
        if isinstance(x, Fraction):
            x = norm_c(x)
            return R({(): x} if x else {}, (), None, k or "pf")
        if isinstance(x, float):
            if x != x:
                return R({}, (), "nan", k or "pf")
            if x == math.inf:
                return R({}, (), "inf", k or "pf")
            if x == -math.inf:
                return R({}, (), "-inf", k or "pf")
            v = snap(x)
            return R({(): v} if v else {}, (), None, k or "pf")
        raise Unsupported("const %r" % (type(x),))

    def wk(self, k):
        if self.k == k:
            return self
        return R(self.n, self.d, self.sp, k)

    @property
    def cval(self):
        """Fraction/int if this is a finite constant, else None."""
        if self.sp is not None or self.d:
            return None
        return p_const(self.n)

    def key(self):
        if self._h is None:
            self._h = (self.sp, pkey(self.n), tuple(sorted(self.d)) if self.d else ())
        return self._h

    # -- arithmetic
    def _co(self, o):
        if isinstance(o, R):
            return o
        t = type(o)
        if t is int or t is float or t is bool or t is Fraction:
            return R.const(o)
        if isinstance(o, Bo):
            return o.as_r()
        if isinstance(o, (float, int)):
            return R.const(float(o) if isinstance(o, float) else int(o),
                           "f8" if isinstance(o, float) else "pi")
        import numpy as _np
        if isinstance(o, _np.generic):
            if isinstance(o, _np.bool_):
                return R.const(bool(o), "b1")
            if isinstance(o, _np.integer):
                return R.const(int(o), "i8")
            if isinstance(o, _np.floating):
                return R.const(float(o), "f8")
        return None

    def __add__(self, o):
        return r_bin(self, o, r_add)

    def __radd__(self, o):
        return r_bin(o, self, r_add)

    def __sub__(self, o):
        return r_bin(self, o, r_sub)

    def __rsub__(self, o):
        return r_bin(o, self, r_sub)

    def __mul__(self, o):
        return r_bin(self, o, r_mul)

    def __rmul__(self, o):
        return r_bin(o, self, r_mul)

    def __truediv__(self, o):
        return r_bin(self, o, r_div)

    def __rtruediv__(self, o):
        return r_bin(o, self, r_div)

    def __floordiv__(self, o):
        return r_bin(self, o, r_floordiv)

    def __rfloordiv__(self, o):
        return r_bin(o, self, r_floordiv)

    def __mod__(self, o):
        return r_bin(self, o, r_mod)

    def __rmod__(self, o):
        return r_bin(o, self, r_mod)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, m=None):
        return r_bin(self, o, r_pow)

    def __rpow__(self, o):
        return r_bin(o, self, r_pow)

    def __neg__(self):
        if self.sp:
            return R({}, (), {"nan": "nan", "inf": "-inf", "-inf": "inf"}[self.sp], self.k)
        return R({m: -c for m, c in self.n.items()}, self.d, None, "i8" if self.k == "b1" else self.k)

    def __pos__(self):
        return self

    def __abs__(self):
        return r_abs(self)

    def __invert__(self):
        if self.k in IKINDS:
            return -self - 1
        raise TypeError("bad operand type for unary ~")

    # -- comparisons
    def __eq__(self, o):
        return r_cmp(self, o, "==")

    def __ne__(self, o):
        return r_cmp(self, o, "!=")

    def __lt__(self, o):
        return r_cmp(self, o, "<")

    def __le__(self, o):
        return r_cmp(self, o, "<=")

    def __gt__(self, o):
        return r_cmp(self, o, ">")

    def __ge__(self, o):
        return r_cmp(self, o, ">=")

    def __hash__(self):
        c = self.cval
        if c is not None:
            return hash(c)
        return hash(self.key())

    def __bool__(self):
        if self.sp:
            return True
        return bool(r_cmp(self, 0, "!="))

    def __index__(self):
        if self.k not in IKINDS:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self.concretize()

    def __int__(self):
        c = self.cval
        if c is None:
            if self.sp:
                raise (ValueError("cannot convert float NaN to integer") if self.sp == "nan"
                       else OverflowError("cannot convert float infinity to integer"))
            return r_trunc(self).concretize()
        return int(c)

    def __float__(self):
        if self.sp:
            return float(self.sp)
        c = self.cval
        if c is None:
            raise Unsupported("float() of a symbolic value at a C boundary")
        return float(c)

    def __complex__(self):
        return complex(float(self))

    def __round__(self, nd=None):
        if nd is None:
            r = r_round(self, 0)
            if r.sp:
                raise ValueError("cannot convert float NaN to integer")
            return r.wk("pi")
        return r_round(self, nd)

    def __trunc__(self):
        return int(self)

    def __floor__(self):
        return r_floor(self).wk("pi")

    def __ceil__(self):
        return r_ceil(self).wk("pi")

    def concretize(self):
        c = self.cval
        if c is not None:
            if isinstance(c, Fraction):
                raise Unsupported("non-integer index")
            return int(c)
        return CTX.path.enumerate_int(self)

    def __repr__(self):
        if self.sp:
            return self.sp
        c = self.cval
        if c is not None:
            return "%s" % (c if isinstance(c, int) else float(c))
        return "<sym>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # -- numpy scalar look-alike
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return R({}, (), None, self.k)

    def conjugate(self):
        return self

    conj = conjugate

    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        from . import symnp
        return symnp.KDT[{"pf": "f8", "pi": "i8"}.get(self.k, self.k)]

    @property
    def T(self):
        return self

    def item(self):
        return self.wk("pf" if self.k in FKINDS else "pi")

    tolist = item

    def copy(self):
        return self

    def squeeze(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    mean = max = min = prod = sum

    def any(self, *a, **k):
        return self != 0

    all = any

    def is_integer(self):
        if self.k in IKINDS:
            return True
        c = self.cval
        if c is not None:
            return isinstance(c, int)
        raise Unsupported("is_integer of symbolic")

    def round(self, decimals=0):
        return r_round(self, decimals)

    def _arr(self):
        from . import symnp
        return symnp.NP.asarray(self)

    def astype(self, t, *a, **k):
        from . import symnp
        return symnp.cast_scalar(self, symnp.kind_of_dtype(t))

    def reshape(self, *a, **k):
        return self._arr().reshape(*a, **k)

    def ravel(self, *a):
        return self._arr().reshape(-1)

    flatten = ravel

    def __getitem__(self, i):
        if self.k in ("pi", "pf"):
            raise TypeError("'float' object is not subscriptable")
        if i is None or (isinstance(i, tuple) and all(x is None for x in i)) or i is Ellipsis or i == ():
            return self._arr()[i]
        raise IndexError("invalid index to scalar variable.")


def r_bin(a, b, f):
    ra = a if isinstance(a, R) else R._co(None, a)
    rb = b if isinstance(b, R) else R._co(None, b)
    if ra is None or rb is None:
        if isinstance(a, (complex, C)) or isinstance(b, (complex, C)):
            ca, cb = C.of(a), C.of(b)
            if ca is not None and cb is not None:
                nm = {r_add: "__add__", r_sub: "__sub__", r_mul: "__mul__", r_div: "__truediv__"}.get(f)
                if nm:
                    return getattr(ca, nm)(cb)
                if f is r_pow and rb is not None:
                    return ca ** rb
                raise Unsupported("complex operation")
        return NotImplemented
    return f(ra, rb)


def _sp_add(a, b, s):
    x = a.sp
    y = b.sp if s == 1 else {"nan": "nan", "inf": "-inf", "-inf": "inf", None: None}[b.sp]
    if x == "nan" or y == "nan":
        return "nan"
    if x and y:
        return x if x == y else "nan"
    return x or y


def r_add(a, b):
    return _addsub(a, b, 1)


def r_sub(a, b):
    return _addsub(a, b, -1)


def _addsub(a, b, s):
    k = kind_promote(a.k, b.k)
    if a.sp or b.sp:
        return R({}, (), _sp_add(a, b, s), k)
    if a.d == b.d:
        n = p_add(a.n, b.n, s)
        if a.d:
            return cancel(n, a.d, k)
        return R(n, (), None, k)
    da = dict(a.d)
    db = dict(b.d)
    na, nb = a.n, b.n
    lcm = dict(da)
    for f, e in db.items():
        if lcm.get(f, 0) < e:
            lcm[f] = e
    for f, e in lcm.items():
        x = e - da.get(f, 0)
        if x:
            na = p_mul(na, fac_pow(f, x))
        y = e - db.get(f, 0)
        if y:
            nb = p_mul(nb, fac_pow(f, y))
    return cancel(p_add(na, nb, s), tuple(sorted(lcm.items())), k)


def fac_pow(f, e):
    p = CTX.facs[f]
    r = p
    for _ in range(e - 1):
        r = p_mul(r, p)
    return r


def cancel(n, d, k):
    if not n:
        return R({}, (), None, k)
    if not d:
        return R(n, (), None, k)
    out = []
    for f, e in d:
        p = CTX.facs[f]
        single = None
        if len(p) == 1:
            m = next(iter(p))
            if len(m) == 1 and m[0][1] == 1:
                single = CTX.atoms[m[0][0]]
        while e > 0:
            q = p_divexact(n, p)
            if q is None:
                if single is not None and single.kind == "sqrt":
                    rad = single.extra
                    q = p_divexact(n, rad) if len(rad) > 1 or rad.get(()) is None else None
                    if q is not None:
                        if e >= 2:
                            n = q
                            e -= 2
                        else:
                            n = p_mul(q, p)
                            e -= 1
                        continue
                break
            n = q
            e -= 1
        if e:
            out.append((f, e))
    return R(n, tuple(out), None, k)


def dmerge(a, b):
    if not a:
        return b
    if not b:
        return a
    r = dict(a)
    for f, e in b:
        r[f] = r.get(f, 0) + e
    return tuple(sorted(r.items()))


def r_mul(a, b):
    k = kind_promote(a.k, b.k)
    if a.sp or b.sp:
        return _sp_mul(a, b, k)
    n = p_mul(a.n, b.n)
    if not a.d and not b.d:
        return R(n, (), None, k)
    return cancel(n, dmerge(a.d, b.d), k)


def r_sign_branch(a):
    """-1/0/1 of a (forks when symbolic)."""
    if a.sp:
        return {"inf": 1, "-inf": -1}[a.sp]
    c = a.cval
    if c is not None:
        return (c > 0) - (c < 0)
    if bool(r_cmp(a, 0, ">")):
        return 1
    if bool(r_cmp(a, 0, "<")):
        return -1
    return 0


def _sp_mul(a, b, k):
    if a.sp == "nan" or b.sp == "nan":
        return R({}, (), "nan", k)
    s = r_sign_branch(a) * r_sign_branch(b)
    return R({}, (), {1: "inf", -1: "-inf", 0: "nan"}[s], k)


def r_div(a, b):
    py = a.k in ("pi", "pf") and b.k in ("pi", "pf")
    k = kind_promote(a.k, b.k)
    k = {"pi": "pf", "i8": "f8", "b1": "f8"}.get(k, k)
    if a.sp == "nan" or b.sp == "nan":
        return R({}, (), "nan", k)
    if b.sp:
        if a.sp:
            return R({}, (), "nan", k)
        return R({}, (), None, k)
    c = b.cval
    if c is not None:
        if c == 0:
            if py:
                raise ZeroDivisionError("division by zero")
            if a.sp:
                return a.wk(k)
            s = r_sign_branch(a)
            return R({}, (), {1: "inf", -1: "-inf", 0: "nan"}[s], k)
        if a.sp:
            return R({}, (), a.sp if c > 0 else (-a).sp, k)
        return R({m: cdiv(v, c) for m, v in a.n.items()}, a.d, None, k)
    # symbolic divisor
    if wants_cut(b.n):
        a = R(cut_poly(a.n), a.d, a.sp, a.k)
        b = R(cut_poly(b.n), b.d, b.sp, b.k)
    if not r_nonzero(b):
        return r_div(a, R({}, (), None, b.k))
    if a.sp:
        return _sp_mul(a, b, k)
    # b = nb / db ; a / b = a * db / nb
    n = a.n
    for f, e in b.d:
        n = p_mul(n, fac_pow(f, e))
    c, mono, facs = factor(b.n)
    d = dmerge(a.d, tuple(sorted(mono + facs)))
    n = {m: cdiv(v, c) for m, v in n.items()}
    return cancel(n, d, k)


def r_nonzero(b):
    """Branch on b != 0."""
    if len(b.n) == 1 or p_nonneg_struct(b.n):
        # positive constant term makes it trivially nonzero
        if b.n.get((), 0) > 0 and p_nonneg_struct(b.n):
            return True
    return bool(r_cmp(b, 0, "!="))


def factor(p):
    """p = c * prod(atoms^e) * prod(known factors^e) as (c, [(fac,e)..], [(fac,e)..])."""
    # monomial content
    common = None
    for m in p:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            common = {a: min(e, dm[a]) for a, e in common.items() if a in dm}
        if not common:
            break
    mono = []
    rest = p
    if common:
        cm = tuple(sorted(common.items(), reverse=True))
        rest = {mono_div(m, cm): v for m, v in p.items()}
        for a, e in common.items():
            mono.append((CTX.fac({((a, 1),): 1}), e))
    c = p_const(rest)
    if c is not None:
        return c, mono, []
    lead = rest[max(rest)]
    c = lead
    rest = {m: cdiv(v, c) for m, v in rest.items()}
    facs = {}
    if len(rest) <= 400:
        for i, f in enumerate(list(CTX.facs)):
            if len(f) < 2 or len(f) > len(rest) * 4:
                continue
            while True:
                if p_const(rest) is not None:
                    break
                q = p_divexact(rest, f)
                if q is None or (not CTX.cut and p_mul(q, f) != rest):
                    break
                rest = q
                facs[i] = facs.get(i, 0) + 1
    cc = p_const(rest)
    if cc is not None:
        c = norm_c(Fraction(c) * cc)
    else:
        l2 = rest[max(rest)]
        if l2 != 1:
            c = norm_c(Fraction(c) * l2)
            rest = {m: cdiv(v, l2) for m, v in rest.items()}
        i = CTX.fac(rest)
        facs[i] = facs.get(i, 0) + 1
    return c, mono, list(facs.items())


def r_pow(a, b):
    py = a.k in ("pi", "pf") and b.k in ("pi", "pf")
    k = kind_promote(a.k, b.k)
    e = b.cval
    if b.sp or e is None:
        ca = a.cval
        if b.sp:
            raise Unsupported("pow with special exponent")
        if ca is not None and ca > 0:
            return r_exp(b * R.const(math.log(ca))).wk(k if k in FKINDS else "f8")
        raise Unsupported("symbolic exponent")
    if isinstance(e, int):
        if e < 0:
            if k == "i8" and b.k == "i8":
                raise ValueError("Integers to negative integer powers are not allowed.")
            r = r_pow(a, R.const(-e, b.k))
            return r_div(R.const(1, "pf" if py else "f8"), r.wk(r.k if r.k in FKINDS else ("pf" if py else "f8")))
        if e == 0:
            return R.const(1, k)
        if a.sp:
            if a.sp == "nan":
                return a.wk(k)
            return R({}, (), "inf" if (a.sp == "inf" or e % 2 == 0) else "-inf", k)
        r = None
        base = a
        ee = e
        while ee:
            if ee & 1:
                r = base if r is None else r_mul(r, base)
            ee >>= 1
            if ee:
                base = r_mul(base, base)
        return r.wk(k)
    # fractional exponent
    kf = k if k in FKINDS else "f8"
    ca = a.cval
    if ca is not None:
        if ca >= 0:
            if ca == 0 and e < 0:
                return R({}, (), "inf", kf)
            return R.const(float(ca) ** float(e), kf)
        return R({}, (), "nan", kf)
    if Fraction(e).denominator == 2:
        h = r_sqrt(a, kf)
        return r_pow(h, R.const(int(Fraction(e) * 2), "pi"))
    # general: principal power of a nonnegative base, else nan
    if a.sp:
        if a.sp == "inf":
            return R({}, (), "inf" if e > 0 else None, kf)
        return R({}, (), "nan", kf)
    if bool(a < 0):
        return R({}, (), "nan", kf)
    if e < 0:
        return r_div(R.const(1, "f8"), r_pow(a, R.const(-e, "pf")))
    f = Fraction(e)
    q = f.numerator // f.denominator
    fr = f - q
    res = r_pow(a, R.const(q, "pi")) if q else R.const(1)
    at = fn_atom("root", a, extra=fr, nonneg=True)
    return r_mul(res, atom_r(at)).wk(kf)


def atom_r(a, k="f8"):
    return R({((a.aid, 1),): 1}, (), None, k)


def fn_atom(kind, arg, extra=None, **kw):
    key = (tol_key(arg), extra)
    a = CTX.intern.get((kind, key))
    if a is None:
        fk = (kind, extra, arg.sp, arg.d)
        a = fuzzy_find(fk, arg.n)
        if a is None:
            a = CTX.atom(kind, (arg,), key, **kw)
            fuzzy_add(fk, arg.n, a)
        else:
            CTX.intern[(kind, key)] = a
    if a.extra is None:
        a.extra = extra
    return a


def sig12(c):
    """coefficient key: 12 significant digits (constants that only differ by IEEE rounding
    are identified)."""
    if isinstance(c, int):
        if -10 ** 11 < c < 10 ** 11:
            return float(c)
        return float("%.11e" % float(c)) if abs(c) < 1e300 else c
    return float("%.11e" % float(c))


def tol_pkey(p):
    return tuple(sorted((m, sig12(c)) for m, c in p.items()))


def tol_key(r):
    return (r.sp, tol_pkey(r.n), r.d)


# ----------------------------------------------------------------------------- functions
def _sqrt_const(c, k):
    """sqrt of a nonnegative rational constant"""
    c = Fraction(c)
    n = math.isqrt(c.numerator)
    d = math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return R.const(norm_c(Fraction(n, d)), k)
    return R.const(snap_f(mpmath.sqrt(mpf(c.numerator) / mpf(c.denominator))), k)


def snap_f(m):
    return snap(float(m))


def r_sqrt(a, k=None):
    k = k or (a.k if a.k in FKINDS else "f8")
    if a.sp:
        return R({}, (), "nan" if a.sp in ("nan", "-inf") else "inf", k)
    c = a.cval
    if c is not None:
        if c < 0:
            return R({}, (), "nan", k)
        return _sqrt_const(c, k)
    # domain
    if not r_struct_nonneg(a):
        if bool(r_cmp(a, 0, "<")):
            return R({}, (), "nan", k)
    # sqrt(num/den) = sqrt(num*den)/den for odd den powers
    n = a.n
    if wants_cut(n):
        n = cut_poly(n)
    dd = []
    for f, e in a.d:
        if e % 2:
            n = p_mul(n, CTX.facs[f])
            e += 1
        dd.append((f, e // 2))
    root = sqrt_poly(n, k)
    if not dd:
        return root
    # denominators: |f|
    den = R.const(1, "pi")
    for f, e in dd:
        fr = R(CTX.facs[f], (), None, k)
        fr = r_abs(fr)
        for _ in range(e):
            den = r_mul(den, fr)
    return r_div(root, den)


def r_struct_nonneg(a, free=False):
    if not p_known_nonneg(a.n, free):
        return False
    for f, e in a.d:
        if e % 2 and not p_known_nonneg(CTX.facs[f], free):
            return False
    return True


def _perfect_square_poly(p):
    """q with p == q*q (up to the leading coefficient being a rational square), or None."""
    lead = max(p)
    for (_, e) in lead:
        if e % 2:
            return None
    lc = Fraction(p[lead])
    if lc <= 0:
        return None
    n, d = math.isqrt(lc.numerator), math.isqrt(lc.denominator)
    if n * n != lc.numerator or d * d != lc.denominator:
        return None
    if len(p) > 300:
        return None
    lt = tuple((a, e // 2) for a, e in lead)
    q = {lt: norm_c(Fraction(n, d))}
    # Newton-like term-by-term square root
    for _ in range(200):
        rem = p_add(p, _raw_mul(q, q), -1)
        if not rem:
            return q
        m = max(rem)
        t = mono_div(m, lt)
        if t is None:
            return None
        if t in q:
            return None
        q[t] = cdiv(rem[m], 2 * q[lt])
    return None


def _raw_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return {m: norm_c(c) for m, c in r.items() if c != 0}


def sqrt_poly(p, k):
    c, mono, facs = None, None, None
    # pull out even monomial content
    common = None
    for m in p:
        dm = dict(m)
        common = dm if common is None else {a: min(e, dm[a]) for a, e in common.items() if a in dm}
        if not common:
            break
    out = R.const(1, "pi")
    rest = p
    if common:
        cm = {a: e - e % 2 for a, e in common.items() if e >= 2}
        if cm:
            t = tuple(sorted(cm.items(), reverse=True))
            rest = {mono_div(m, t): v for m, v in p.items()}
            for a, e in cm.items():
                x = r_abs(R({((a, 1),): 1}, (), None, k))
                for _ in range(e // 2):
                    out = r_mul(out, x)
    cc = p_const(rest)
    if cc is not None:
        return r_mul(out, _sqrt_const(cc, k)).wk(k)
    sq = _perfect_square_poly(rest)
    if sq is not None:
        return r_mul(out, r_abs(R(sq, (), None, k))).wk(k)
    # pull out squares of known factors
    if len(rest) <= 200:
        for f in list(CTX.facs):
            if len(f) < 2:
                continue
            while True:
                q = p_divexact(rest, f)
                if q is None:
                    break
                q2 = p_divexact(q, f)
                if q2 is None or p_const(q2) == 0:
                    break
                rest = q2
                out = r_mul(out, r_abs(R(f, (), None, k)))
                if p_const(rest) is not None:
                    return r_mul(out, _sqrt_const(p_const(rest), k)).wk(k)
    content, prim = p_primitive(rest)
    key = tol_pkey(prim)
    a = CTX.intern.get(("sqrt", key))
    if a is None:
        lc = prim[max(prim)]
        monic = {m: cdiv(c, lc) for m, c in prim.items()}
        hit = fuzzy_find(("sqrt", lc > 0), monic)
        if hit is not None:
            a = hit
            content = norm_c(Fraction(content) * Fraction(lc) / Fraction(a.extra[max(a.extra)]))
    if a is None:
        a = CTX.atom("sqrt", (R(prim, (), None, "f8"),), key, nonneg=True)
        a.extra = prim
        fuzzy_add(("sqrt", lc > 0), monic, a)
        aid = a.aid

        def red(m, at, e, prim=prim, aid=aid):
            if e < 2:
                return None
            rest = tuple((x, (ee - 2 if x == aid else ee)) for x, ee in m if not (x == aid and ee == 2))
            return rest, prim
        CTX.reducible[aid] = red
    if CTX.path is not None:
        CTX.path.radicands.add(pkey(a.extra))
        CTX.path.radicands.add(pkey(prim))
    r = r_mul(atom_r(a, k), _sqrt_const(content, k))
    return r_mul(out, r).wk(k)


def r_abs(a):
    if a.sp:
        return R({}, (), "nan" if a.sp == "nan" else "inf", a.k)
    c = a.cval
    if c is not None:
        return R.const(abs(c), a.k)
    if r_struct_nonneg(a):
        return a
    neg = -a
    if r_struct_nonneg(neg):
        return neg
    cond = r_cmp(a, 0, ">=")
    v = CTX.path.known(cond) if CTX.path else None
    if v is True:
        return a
    if v is False:
        return neg
    if a.d and a.k not in IKINDS:
        # |n/d| = |n|/d for the denominators known to be positive
        out = tuple((f, e) for f, e in a.d if e % 2 == 0 or p_known_nonneg(CTX.facs[f])
                    or (CTX.path is not None and CTX.path.known(_pos(CTX.facs[f])) is True))
        if out:
            keep = tuple(x for x in a.d if x not in out)
            return r_mul(r_abs(R(a.n, keep, None, a.k)), R({(): 1}, out, None, a.k)).wk(a.k)
    # canonical orientation and scale
    lead = a.n[max(a.n)]
    base = a if lead > 0 else neg
    if abs(lead) != 1 and a.k not in IKINDS:
        mon = R({m: cdiv(c, abs(lead)) for m, c in base.n.items()}, base.d, None, a.k)
        return r_mul(R.const(norm_c(Fraction(abs(lead))), a.k), r_abs(mon)).wk(a.k)
    at = CTX.atom("abs", (base,), tol_key(base), nonneg=True)
    if at.aid not in CTX.reducible and not base.d and len(base.n) <= 60:
        sq = p_mul(base.n, base.n)
        if len(sq) <= 400:
            aid = at.aid

            def red(m, x, e, sq=sq, aid=aid):
                if e < 2:
                    return None
                rest = tuple((y, (ee - 2 if y == aid else ee)) for y, ee in m if not (y == aid and ee == 2))
                return rest, sq
            CTX.reducible[aid] = red
    return atom_r(at, a.k)


def r_ite(c, a, b):
    """Symbolic if-then-else on values (no fork unless special values are involved)."""
    if c is True or c is False:
        return a if c else b
    if c.v is not None:
        return a if c.v else b
    v = CTX.path.known(c) if CTX.path else None
    if v is not None:
        return a if v else b
    if isinstance(a, Bo) or isinstance(b, Bo):
        a = a if isinstance(a, Bo) else Bo.const(bool(a))
        b = b if isinstance(b, Bo) else Bo.const(bool(b))
        return bo_or(bo_and(c, a), bo_and(bo_not(c), b))
    if isinstance(a, C) or isinstance(b, C):
        a = C.of(a)
        b = C.of(b)
        return C(r_ite(c, a.re, b.re), r_ite(c, a.im, b.im))
    a = R._co(None, a) if not isinstance(a, R) else a
    b = R._co(None, b) if not isinstance(b, R) else b
    if a is None or b is None:
        raise Unsupported("ite of non-numeric")
    k = kind_promote(a.k, b.k)
    if a.sp or b.sp:
        if a.sp == b.sp:
            return a
        return (a if bool(c) else b).wk(k)
    if a.key() == b.key():
        return a.wk(k)
    if CTX.fork:
        return (a if bool(c) else b).wk(k)
    if c.op == "not":
        c, a, b = c.args[0], b, a
    at = CTX.atom("ite", (c, a, b), (c.id, tol_key(a), tol_key(b)))
    at.nonneg = r_struct_nonneg(a, True) and r_struct_nonneg(b, True)
    return atom_r(at, k)


def r_min(a, b):
    if a.sp == "nan" or b.sp == "nan":
        return R({}, (), "nan", kind_promote(a.k, b.k))
    if a.sp or b.sp:
        return a if bool(a <= b) else b
    return r_minmax(a, b)[0]


def r_max(a, b):
    if a.sp == "nan" or b.sp == "nan":
        return R({}, (), "nan", kind_promote(a.k, b.k))
    if a.sp or b.sp:
        return a if bool(a >= b) else b
    return r_minmax(a, b)[1]


def r_minmax(a, b):
    """(min, max) with symmetric interning."""
    c = r_cmp(a, b, "<=")
    if c.v is not None:
        return (a, b) if c.v else (b, a)
    v = CTX.path.known(c) if CTX.path else None
    if v is not None:
        return (a, b) if v else (b, a)
    if CTX.fork:
        return (a, b) if bool(c) else (b, a)
    ka, kb = tol_key(a), tol_key(b)
    if kb < ka:
        a, b = b, a
        c = r_cmp(a, b, "<=")
    return r_ite(c, a, b), r_ite(c, b, a)


def _pow10(d):
    return Fraction(10) ** d


def r_round(a, d=0):
    d = int(d)
    if a.sp:
        return a
    if a.k in IKINDS and d >= 0:
        return a
    c = a.cval
    if c is not None:
        # numpy: rint(x * 10^d) / 10^d, half to even
        f = Fraction(c) * _pow10(d)
        fl = f.numerator // f.denominator
        fr = f - fl
        if fr > Fraction(1, 2) or (fr == Fraction(1, 2) and fl % 2 == 1):
            fl += 1
        return R.const(norm_c(fl / _pow10(d)), a.k)
    # already rounded to d (or coarser) decimals?
    if not a.d and len(a.n) == 1:
        m, cf = next(iter(a.n.items()))
        if len(m) == 1 and m[0][1] == 1 and cf in (1, -1):
            at = CTX.atoms[m[0][0]]
            if at.kind == "round" and at.extra <= d:
                return a
    if not a.d and all(isinstance(cc, int) for cc in a.n.values()) and d >= 0:
        ok = True
        for m in a.n:
            for (x, _) in m:
                at = CTX.atoms[x]
                if not (at.isint or (at.kind == "round" and at.extra <= 0)):
                    ok = False
        if ok:
            return a
    # odd symmetric normal form
    lead = a.n[max(a.n)]
    if lead < 0:
        return -r_round(-a, d)
    at = fn_atom("round", a, extra=d)
    at.nonneg = r_struct_nonneg(a, True)
    return atom_r(at, a.k)


def _int_atom(kind, a, k):
    c = a.cval
    if a.k in IKINDS or a.sp:
        return a
    if c is not None:
        f = Fraction(c)
        fl = f.numerator // f.denominator
        if kind == "floor":
            v = fl
        elif kind == "ceil":
            v = -((-f.numerator) // f.denominator)
        else:
            v = fl if f >= 0 else -((-f.numerator) // f.denominator)
        return R.const(v, k)
    if not a.d and all(isinstance(cc, int) for cc in a.n.values()) and all(CTX.atoms[x].isint and e > 0 for m in a.n for x, e in m):
        return a.wk(k)
    at = fn_atom(kind, a, isint=True)
    return atom_r(at, k)


def r_floor(a):
    return _int_atom("floor", a, a.k)


def r_ceil(a):
    if a.cval is None and not a.sp and a.k not in IKINDS:
        return -_int_atom("floor", -a, a.k)
    return _int_atom("ceil", a, a.k)


def r_trunc(a):
    if a.cval is not None or a.sp or a.k in IKINDS:
        return _int_atom("trunc", a, "i8")
    return _int_atom("trunc", a, "i8")


def r_floordiv(a, b):
    c = b.cval
    if a.k in IKINDS and b.k in IKINDS:
        if c == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if a.cval is not None and c is not None:
            return R.const(int(a.cval) // int(c), kind_promote(a.k, b.k))
    q = r_div(a.wk("f8"), b)
    k = kind_promote(a.k, b.k)
    if q.sp:
        return R({}, (), "nan", k)
    return r_floor(q).wk(k)


def r_mod(a, b):
    if a.cval is not None and b.cval is not None and b.cval != 0:
        ca, cb = a.cval, b.cval
        f = Fraction(ca) / Fraction(cb)
        return R.const(norm_c(Fraction(ca) - (f.numerator // f.denominator) * Fraction(cb)), kind_promote(a.k, b.k))
    return r_sub(a, r_mul(b, r_floordiv(a, b)))


def r_sign(a):
    if a.sp:
        return R.const({"inf": 1, "-inf": -1}.get(a.sp, 0), a.k) if a.sp != "nan" else a
    c = a.cval
    if c is not None:
        return R.const((c > 0) - (c < 0), a.k)
    return r_sub(r_ite(r_cmp(a, 0, ">"), R.const(1), R.const(0)),
                 r_ite(r_cmp(a, 0, "<"), R.const(1), R.const(0))).wk(a.k)


def r_exp(a):
    if a.sp:
        return R({}, (), {"nan": "nan", "inf": "inf", "-inf": None}[a.sp], "f8")
    c = a.cval
    k = a.k if a.k in FKINDS else "f8"
    if c is not None:
        v = mpmath.exp(mpf(Fraction(c).numerator) / mpf(Fraction(c).denominator))
        if v > mpf("1.79e308"):
            return R({}, (), "inf", k)
        return R.const(snap_f(v), k)
    # exp(sum) : split off the constant and log terms
    if a.d:
        D = {(): 1}
        for f, e in a.d:
            D = p_mul(D, fac_pow(f, e))
        lead = max(D)
        n = a.n
        cst = norm_c(Fraction(n[lead]) / D[lead]) if lead in n else 0
        if cst:
            n = p_add(n, p_scale(D, cst), -1)
        mult = R.const(1)
        for x in sorted(set(x for m in n for x, e in m if CTX.atoms[x].kind == "log" and e == 1)):
            mx = mono_mul(lead, ((x, 1),))
            if mx in n:
                co = norm_c(Fraction(n[mx]) / D[lead])
                if isinstance(co, int) or Fraction(co).denominator == 2:
                    n2 = p_add(n, p_mul(D, {((x, 1),): co}), -1)
                    if not any(x == y for m in n2 for y, _ in m):
                        n = n2
                        mult = r_mul(mult, r_pow(CTX.atoms[x].args[0], R.const(co)))
        if cst or mult.cval != 1:
            rest = r_div(R(n, (), None, "f8"), R(D, (), None, "f8"))
            e = r_exp(rest)
            ec = R.const(snap_f(mpmath.exp(mpf(Fraction(cst).numerator) / Fraction(cst).denominator)))
            return r_mul(r_mul(ec, e), mult).wk(k)
    if not a.d:
        n = dict(a.n)
        cst = n.pop((), 0)
        mult = R.const(1)
        for m in list(n):
            if len(m) == 1 and m[0][1] == 1:
                at = CTX.atoms[m[0][0]]
                co = n[m]
                if at.kind == "log" and (isinstance(co, int) or Fraction(co).denominator == 2):
                    del n[m]
                    mult = r_mul(mult, r_pow(at.args[0], R.const(norm_c(Fraction(co)))))
        if cst or mult.cval != 1:
            rest = R(n, (), None, "f8")
            e = r_exp(rest) if n else R.const(1)
            ec = R.const(snap_f(mpmath.exp(mpf(Fraction(cst).numerator) / Fraction(cst).denominator)))
            return r_mul(r_mul(ec, e), mult).wk(k)
    lead = a.n[max(a.n)]
    if lead < 0:
        at = fn_atom("exp", -a, nonneg=True)
        return r_div(R.const(1, "f8"), atom_r(at)).wk(k) if False else atom_r(fn_atom("exp", a, nonneg=True), k)
    return atom_r(fn_atom("exp", a, nonneg=True), k)


def r_log(a):
    k = a.k if a.k in FKINDS else "f8"
    if a.sp:
        return R({}, (), "inf" if a.sp == "inf" else "nan", k)
    c = a.cval
    if c is not None:
        if c == 0:
            return R({}, (), "-inf", k)
        if c < 0:
            return R({}, (), "nan", k)
        return R.const(snap_f(mpmath.log(mpf(Fraction(c).numerator) / Fraction(c).denominator)), k)
    if bool(r_cmp(a, 0, "<=")):
        if bool(r_cmp(a, 0, "==")):
            return R({}, (), "-inf", k)
        return R({}, (), "nan", k)
    # log(c * exp(x) * ...) for a single-term product
    if len(a.n) == 1 and len(a.d) <= 3 and all(len(CTX.facs[f]) == 1 for f, _ in a.d):
        m, co = next(iter(a.n.items()))
        if co > 0:
            res = r_log(R.const(norm_c(Fraction(co)))) if co != 1 else R.const(0)
            ok = True
            parts = [(x, e) for x, e in m]
            for f, e in a.d:
                mm = next(iter(CTX.facs[f]))
                parts += [(x, -e * ee) for x, ee in mm]
            if any(CTX.atoms[x].kind == "exp" for x, _ in parts) and all(CTX.atoms[x].nonneg for x, _ in parts) or (
                    len(parts) == 1 and parts[0][1] % 2 and (co != 1 or parts[0][1] != 1)):     # the product is positive, so is its only factor
                for x, e in parts:
                    at = CTX.atoms[x]
                    if at.kind == "exp":
                        res = r_add(res, r_mul(at.args[0], R.const(e)))
                    else:
                        res = r_add(res, r_mul(atom_r(fn_atom("log", R({((x, 1),): 1}, (), None, "f8"))), R.const(e)))
                return res.wk(k)
    return atom_r(fn_atom("log", a), k)


def r_erf(a):
    if a.sp:
        return R.const({"inf": 1.0, "-inf": -1.0}[a.sp]) if a.sp != "nan" else a
    c = a.cval
    if c is not None:
        return R.const(snap_f(mpmath.erf(mpf(Fraction(c).numerator) / Fraction(c).denominator)), "pf")
    lead = a.n[max(a.n)]
    # |x| handled through oddness: erf(-x) = -erf(x)
    if lead < 0:
        return -r_erf(-a)
    # erf(|x|) with known sign is resolved by r_abs; otherwise keep
    return atom_r(fn_atom("erf", a), "pf")


def r_atan(a):
    k = a.k if a.k in FKINDS else "f8"
    if a.sp:
        if a.sp == "nan":
            return a.wk(k)
        return R.const(math.pi / 2 if a.sp == "inf" else -math.pi / 2, k)
    c = a.cval
    if c is not None:
        return R.const(math.atan(float(c)), k)
    lead = a.n[max(a.n)]
    if lead < 0:
        return -r_atan(-a)
    at = fn_atom("atan", a)
    at.nonneg = r_struct_nonneg(a, True)
    return atom_r(at, k)


def r_atan2(y, x):
    k = kind_promote(y.k, x.k)
    k = k if k in FKINDS else "f8"
    if y.sp or x.sp:
        if "nan" in (y.sp, x.sp):
            return R({}, (), "nan", k)
        raise Unsupported("arctan2 of infinities")
    if y.cval is not None and x.cval is not None:
        return R.const(math.atan2(float(y.cval), float(x.cval)), k)
    if bool(r_cmp(x, 0, ">")):
        return r_atan(r_div(y.wk("f8"), x.wk("f8"))).wk(k)
    if bool(r_cmp(x, 0, "==")):
        s = r_sign_branch(y)
        return R.const([0.0, math.pi / 2, -math.pi / 2][s], k)
    base = r_atan(r_div(y.wk("f8"), x.wk("f8")))
    if bool(r_cmp(y, 0, ">=")):
        return (base + math.pi).wk(k)
    return (base - math.pi).wk(k)


def _atan_parts(a):
    """If a = +-atan(u) (+ multiple of pi), return (sign, u, half_turns)."""
    if a.d:
        return None
    n = dict(a.n)
    cst = n.pop((), 0)
    if len(n) != 1:
        return None
    m, co = next(iter(n.items()))
    if len(m) != 1 or m[0][1] != 1 or co not in (1, -1):
        return None
    at = CTX.atoms[m[0][0]]
    if at.kind != "atan":
        return None
    t = float(cst) / math.pi
    h = round(t)
    if abs(t - h) > 1e-12:
        return None
    return co, at.args[0], h


def r_cos(a):
    return _trig(a)[0]


def r_sin(a):
    return _trig(a)[1]


def _trig(a):
    k = a.k if a.k in FKINDS else "f8"
    if a.sp:
        r = R({}, (), "nan", k)
        return r, r
    c = a.cval
    if c is not None:
        return R.const(math.cos(float(c)), k), R.const(math.sin(float(c)), k)
    ap = _atan_parts(a)
    if ap:
        s, u, h = ap
        one = R.const(1, "f8")
        root = r_sqrt(r_add(one, r_mul(u, u)))
        co = r_div(one, root)
        si = r_div(u if s > 0 else -u, root)
        if h % 2:
            co, si = -co, -si
        return co.wk(k), si.wk(k)
    lead = a.n[max(a.n)]
    if lead < 0:
        co, si = _trig(-a)
        return co, -si
    ca = fn_atom("cos", a)
    sa = fn_atom("sin", a)
    if ca.aid not in CTX.reducible:
        aid, sid = ca.aid, sa.aid
        rep = {(): 1, ((sid, 2),): -1}

        def red(m, x, e, aid=aid, rep=rep):
            if e < 2:
                return None
            rest = tuple((y, (ee - 2 if y == aid else ee)) for y, ee in m if not (y == aid and ee == 2))
            return rest, rep
        CTX.reducible[aid] = red
    return atom_r(ca, k), atom_r(sa, k)


def r_tan(a):
    k = a.k if a.k in FKINDS else "f8"
    if a.sp:
        return R({}, (), "nan", k)
    c = a.cval
    if c is not None:
        return R.const(math.tan(float(c)), k)
    ap = _atan_parts(a)
    if ap:
        s, u, h = ap
        return (u if s > 0 else -u).wk(k)
    lead = a.n[max(a.n)]
    if lead < 0:
        return -r_tan(-a)
    return atom_r(fn_atom("tan", a), k)


def r_opaque(kind, a):
    """Uninterpreted unary function with a numeric evaluator of the same mpmath name."""
    if a.sp:
        raise Unsupported(kind + " of special")
    c = a.cval
    if c is not None:
        return R.const(snap_f(getattr(mpmath, kind)(mpf(Fraction(c).numerator) / Fraction(c).denominator)), "f8")
    return atom_r(fn_atom(kind, a), "f8")


# ----------------------------------------------------------------------------- complex
class C:
    __slots__ = ("re", "im")
    __array_priority__ = 1001.0
    __array_ufunc__ = None
    k = "c16"
    shape = ()
    ndim = 0
    size = 1
    sp = None

    def __init__(self, re, im):
        self.re = re.wk("f8")
        self.im = im.wk("f8")

    @staticmethod
    def of(x):
        if isinstance(x, C):
            return x
        if isinstance(x, complex):
            return C(R.const(x.real), R.const(x.imag))
        if isinstance(x, R):
            return C(x, R.const(0))
        r = R._co(None, x)
        if r is None:
            import numpy as _np
            if isinstance(x, _np.complexfloating):
                return C.of(complex(x))
            return None
        return C(r, R.const(0))

    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)

    @property
    def dtype(self):
        from . import symnp
        return symnp.KDT["c16"]

    def conjugate(self):
        return C(self.re, -self.im)

    conj = conjugate

    def _b(self, o, f):
        o = C.of(o)
        if o is None:
            return NotImplemented
        return f(self, o)

    def _rb(self, o, f):
        o = C.of(o)
        if o is None:
            return NotImplemented
        return f(o, self)

    def __add__(self, o):
        return self._b(o, lambda a, b: C(a.re + b.re, a.im + b.im))

    def __radd__(self, o):
        return self + o

    def __sub__(self, o):
        return self._b(o, lambda a, b: C(a.re - b.re, a.im - b.im))

    def __rsub__(self, o):
        return self._rb(o, lambda a, b: C(a.re - b.re, a.im - b.im))

    def __mul__(self, o):
        return self._b(o, c_mul)

    def __rmul__(self, o):
        return self * o

    def __truediv__(self, o):
        return self._b(o, c_div)

    def __rtruediv__(self, o):
        return self._rb(o, c_div)

    def __pow__(self, o, m=None):
        e = o.cval if isinstance(o, R) else o
        if isinstance(e, int):
            if e < 0:
                return c_div(C.of(1), self ** (-e))
            r = C.of(1)
            for _ in range(e):
                r = c_mul(r, self)
            return r
        if isinstance(e, (float, Fraction)) and Fraction(e) == Fraction(1, 2):
            return c_sqrt(self)
        raise Unsupported("complex power")

    def __neg__(self):
        return C(-self.re, -self.im)

    def __pos__(self):
        return self

    def __abs__(self):
        return r_sqrt(self.re * self.re + self.im * self.im, "f8")

    def __eq__(self, o):
        o = C.of(o)
        if o is None:
            return NotImplemented
        return bo_and(r_cmp(self.re, o.re, "=="), r_cmp(self.im, o.im, "=="))

    def __ne__(self, o):
        return bo_not(self == o)

    def __hash__(self):
        return hash((self.re, self.im))

    def __bool__(self):
        return bool(self != 0)

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def _arr(self):
        from . import symnp
        return symnp.NP.asarray(self)

    def item(self):
        return self

    def __repr__(self):
        return "(%r+%rj)" % (self.re, self.im)


def c_mul(a, b):
    return C(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)


def c_div(a, b):
    if b.im.cval == 0 and not b.im.sp:
        return C(a.re / b.re, a.im / b.re)
    m = b.re * b.re + b.im * b.im
    return C((a.re * b.re + a.im * b.im) / m, (a.im * b.re - a.re * b.im) / m)


def c_sqrt(z):
    re, im = z.re, z.im
    if re.sp or im.sp:
        return C(R({}, (), "nan"), R({}, (), "nan"))
    if im.cval == 0:
        c = re.cval
        if c is not None:
            if c >= 0:
                return C(_sqrt_const(c, "f8"), R.const(0))
            return C(R.const(0), _sqrt_const(-c, "f8"))
        if bool(re >= 0):
            return C(r_sqrt(re), R.const(0))
        return C(R.const(0), r_sqrt(-re))
    if re.cval is not None and im.cval is not None:
        w = complex(float(re.cval), float(im.cval)) ** 0.5
        return C(R.const(w.real), R.const(w.imag))
    if re.d or im.d:
        # sqrt(z) = sqrt(z * D^2) / |D| with D the common denominator
        dd = dict(re.d)
        for f, e in im.d:
            dd[f] = max(dd.get(f, 0), e)
        D = R.const(1)
        for f, e in dd.items():
            for _ in range(e):
                D = D * R(CTX.facs[f], (), None, "f8")
        aD = r_abs(D)
        w = c_sqrt(C(re * D * D, im * D * D))
        return C(w.re / aD, w.im / aD)
    key = (tol_key(re), tol_key(im))
    ar = CTX.atom("csqrt_re", (re, im), key, nonneg=True)
    ai = CTX.atom("csqrt_im", (re, im), key)
    if ar.aid not in CTX.reducible:
        rid, iid = ar.aid, ai.aid
        pre = re.n
        phalf = p_scale(im.n, Fraction(1, 2))

        def drop(m, x, cnt):
            return tuple((y, (ee - cnt if y == x else ee)) for y, ee in m if not (y == x and ee == cnt))

        def red_r(m, x, e):
            ei = dict(m).get(iid, 0)
            if ei:
                return drop(drop(m, rid, 1), iid, 1), phalf
            if e >= 2:
                return drop(m, rid, 2), p_add(pre, {((iid, 2),): 1})
            return None

        def red_i(m, x, e):
            if dict(m).get(rid, 0):
                return drop(drop(m, rid, 1), iid, 1), phalf
            if e >= 3:
                rep = {}
                for mm, c in pre.items():
                    rep[mono_mul(mm, ((iid, 1),))] = -c
                for mm, c in phalf.items():
                    q = mono_mul(mm, ((rid, 1),))
                    rep[q] = rep.get(q, 0) + c
                return drop(m, iid, 3), rep
            return None
        CTX.reducible[rid] = red_r
        CTX.reducible[iid] = red_i
    return C(atom_r(ar), atom_r(ai))


# ----------------------------------------------------------------------------- booleans
class Bo:
    __slots__ = ("op", "args", "id", "v")
    __array_priority__ = 999.0
    __array_ufunc__ = None
    k = "b1"
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, op, args, bid, v=None):
        self.op = op
        self.args = args
        self.id = bid
        self.v = v

    @staticmethod
    def const(b):
        return TRUE if b else FALSE

    def __bool__(self):
        if self.v is not None:
            return self.v
        if CTX.path is None:
            raise Unsupported("truth of a symbolic boolean outside a path")
        return CTX.path.branch(self)

    def as_r(self, k="b1"):
        if self.v is not None:
            return R.const(int(self.v), k)
        v = CTX.path.known(self) if CTX.path else None
        if v is not None:
            return R.const(int(v), k)
        if self.op == "not":
            return (R.const(1) - self.args[0].as_r("pi")).wk(k)
        a = CTX.atom("ind", (self,), self.id, isint=True, lo=0, hi=1, nonneg=True)
        if a.aid not in CTX.reducible:
            aid = a.aid

            def red(m, x, e, aid=aid):
                if e < 2:
                    return None
                return tuple((y, (1 if y == aid else ee)) for y, ee in m), {(): 1}
            CTX.reducible[aid] = red
        return R({((a.aid, 1),): 1}, (), None, k)

    def __and__(self, o):
        if isinstance(o, (Bo, bool)):
            return bo_and(self, o)
        try:
            import numpy as _np
            if isinstance(o, _np.bool_):
                return bo_and(self, bool(o))
        except Exception:
            pass
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (Bo, bool)):
            return bo_or(self, o)
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (Bo, bool)):
            return bo_not(bo_iff(self, o))
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return bo_not(self)

    def __eq__(self, o):
        if isinstance(o, (Bo, bool)):
            return bo_iff(self, o)
        return self.as_r() == o

    def __ne__(self, o):
        if isinstance(o, (Bo, bool)):
            return bo_not(bo_iff(self, o))
        return self.as_r() != o

    def __hash__(self):
        return hash(self.id)

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def any(self, *a, **k):
        return self

    all = any

    def item(self):
        return self

    def astype(self, t, *a, **k):
        from . import symnp
        return symnp.cast_scalar(self, symnp.kind_of_dtype(t))

    @property
    def dtype(self):
        from . import symnp
        return symnp.KDT["b1"]

    def __repr__(self):
        return "<Bo %s>" % (self.v if self.v is not None else self.op)

    def _arith(name):
        def f(self, o):
            if isinstance(o, Bo):
                o = o.as_r()
            elif isinstance(o, bool):
                o = R.const(int(o))
            return getattr(self.as_r(), name)(o)
        return f

    for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "pow", "rpow", "lt", "le", "gt",
               "ge", "floordiv", "rfloordiv", "mod", "rmod"):
        locals()["__%s__" % _n] = _arith("__%s__" % _n)

    def __neg__(self):
        return -self.as_r()

    def __abs__(self):
        return self.as_r()


TRUE = Bo("const", (), 0, True)
FALSE = Bo("const", (), 1, False)


def _bo(op, args, key):
    k = (op, key)
    b = CTX.bos.get(k)
    if b is None and op in ("pos", "eq0"):
        p = args[0]
        mx = max(abs(c) for c in p.values())
        p = {m: cdiv(c, mx) for m, c in p.items()}
        b = fuzzy_find("bo" + op, p)
        if b is not None:
            CTX.bos[k] = b
            return b
        CTX.bocount += 1
        b = Bo(op, args, 1 + CTX.bocount)
        CTX.bos[k] = b
        fuzzy_add("bo" + op, p, b)
        return b
    if b is None:
        CTX.bocount += 1
        b = Bo(op, args, 1 + CTX.bocount)
        CTX.bos[k] = b
    return b


def to_bo(x):
    if isinstance(x, Bo):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, R):
        return r_cmp(x, 0, "!=") if not x.sp else TRUE
    if isinstance(x, C):
        return x != 0
    return TRUE if bool(x) else FALSE


def bo_not(a):
    a = to_bo(a)
    if a.v is not None:
        return FALSE if a.v else TRUE
    if a.op == "not":
        return a.args[0]
    return _bo("not", (a,), a.id)


def bo_and(*xs):
    out = {}
    for x in xs:
        x = to_bo(x)
        if x.v is False:
            return FALSE
        if x.v is True:
            continue
        if x.op == "and":
            for y in x.args:
                out[y.id] = y
        else:
            out[x.id] = x
    for i, x in out.items():
        if x.op == "not" and x.args[0].id in out:
            return FALSE
    if not out:
        return TRUE
    ids = tuple(sorted(out))
    if len(ids) == 1:
        return out[ids[0]]
    return _bo("and", tuple(out[i] for i in ids), ids)


def bo_or(*xs):
    return bo_not(bo_and(*[bo_not(x) for x in xs]))


def bo_implies(a, b):
    return bo_or(bo_not(a), b)


def bo_iff(a, b):
    a = to_bo(a)
    b = to_bo(b)
    if a.id == b.id:
        return TRUE
    if a.v is not None:
        return b if a.v else bo_not(b)
    if b.v is not None:
        return a if b.v else bo_not(a)
    return bo_and(bo_or(bo_not(a), b), bo_or(a, bo_not(b)))


def p_term_pos(p):
    """p is one monomial, positive because each of its atoms is (exponentials, inputs bounded away from 0)"""
    if len(p) != 1:
        return False
    m, c = next(iter(p.items()))
    if c <= 0:
        return False
    for a, e in m:
        at = CTX.atoms[a]
        if at.kind == "exp" or (at.kind == "in" and at.lo is not None and at.lo > 0):
            continue
        return False
    return True


def _pos_mono_fn(p):
    """a*f(u) + b > 0 for a single monotone function atom, as a comparison of u (or None)"""
    if len(p) > 2:
        return None
    at = None
    for m, c in p.items():
        if m:
            if at is not None or len(m) != 1 or m[0][1] != 1:
                return None
            at, a = CTX.atoms[m[0][0]], c
    if at is None or at.kind not in ("log", "exp", "erf", "abs", "atan"):
        return None
    t = Fraction(-p.get((), 0)) / Fraction(a)
    u = at.args[0]
    f = mpf(t.numerator) / t.denominator
    up = a > 0
    k = at.kind
    if k == "abs":
        if len(u.n) > 40:
            return None
        tt = R.const(norm_c(t))
        if up:
            return TRUE if t < 0 else bo_or(r_cmp(u, tt, ">"), r_cmp(u, -tt, "<"))
        return FALSE if t <= 0 else bo_and(r_cmp(u, tt, "<"), r_cmp(u, -tt, ">"))
    if k == "exp" and t <= 0:
        return TRUE if up else FALSE
    if k == "erf" and abs(t) >= 1:
        return Bo.const((t <= -1) if up else (t >= 1))
    if k == "atan" and abs(f) >= mpmath.pi / 2:
        return Bo.const((t < 0) if up else (t > 0))
    if k == "log" and abs(f) > 200:
        return None
    g = {"log": mpmath.exp, "exp": mpmath.log, "erf": mpmath.erfinv, "atan": mpmath.tan}[k](f)
    return r_cmp(u, R.const(snap_f(g)), ">" if up else "<")


def _pos(p, k=None):
    """Bo for poly p > 0"""
    c = p_const(p)
    if c is not None:
        return TRUE if c > 0 else FALSE
    b = _pos_mono_fn(p)
    if b is not None:
        return b
    if len(p) == 1:
        if p_term_pos(p):
            return TRUE
        if p_term_pos({m: -c for m, c in p.items()}):
            return FALSE
    # drop positive monomial content / even powers cannot be dropped (may be zero)
    if CTX.cut and CTX.path is not None and len(p) > 1:
        p = CTX.path.strip(p)
        c = p_const(p)
        if c is not None:
            return TRUE if c > 0 else FALSE
    _, q = p_primitive(p)
    cst = q.get((), 0)
    if cst > 0 and p_nonneg_struct(q):
        return TRUE
    neg = {m: -c for m, c in q.items()}
    if p_nonneg_struct(neg):
        return FALSE
    return _bo("pos", (q,), tol_pkey(q))


def _eq0(p):
    c = p_const(p)
    if c is not None:
        return TRUE if c == 0 else FALSE
    lead = p[max(p)]
    q = {m: cdiv(c, lead) for m, c in p.items()}
    if q.get((), 0) > 0 and p_nonneg_struct(q):
        return FALSE
    # single monomial: zero iff one of its atoms is zero
    if len(q) == 1:
        m = next(iter(q))
        if len(m) == 1:
            at = CTX.atoms[m[0][0]]
            if at.kind == "sqrt":
                return _eq0(at.extra)
            if at.kind == "abs":
                return _eq0(at.args[0].n)
            if at.kind == "exp":
                return FALSE
            q = {((m[0][0], 1),): 1}
        else:
            r = FALSE
            for (a, e) in m:
                r = bo_or(r, _eq0({((a, 1),): 1}))
            return r
    return _bo("eq0", (q,), tol_pkey(q))


def r_cmp(a, b, op):
    a = a if isinstance(a, R) else R._co(None, a)
    b2 = b if isinstance(b, R) else R._co(None, b)
    if a is None or b2 is None:
        if isinstance(b, (str, type(None))):
            if op == "==":
                return FALSE
            if op == "!=":
                return TRUE
        return NotImplemented
    b = b2
    if a.sp or b.sp:
        if a.sp == "nan" or b.sp == "nan":
            return TRUE if op == "!=" else FALSE
        va = {"inf": 1, "-inf": -1, None: 0}[a.sp]
        vb = {"inf": 1, "-inf": -1, None: 0}[b.sp]
        return Bo.const({"==": va == vb, "!=": va != vb, "<": va < vb, "<=": va <= vb, ">": va > vb, ">=": va >= vb}[op])
    ca, cb = a.cval, b.cval
    if ca is not None and cb is not None:
        return Bo.const({"==": ca == cb, "!=": ca != cb, "<": ca < cb, "<=": ca <= cb, ">": ca > cb, ">=": ca >= cb}[op])
    d = r_sub(a, b)
    if not d.n:
        return Bo.const(op in ("==", "<=", ">="))
    if op == "==":
        return _eq0(d.n)
    if op == "!=":
        return bo_not(_eq0(d.n))
    n = d.n
    for f, e in d.d:
        if e % 2:
            p = CTX.facs[f]
            if p_known_nonneg(p):
                continue
            n = p_mul(n, p)
    neg = {m: -c for m, c in n.items()}
    if op == ">":
        return _pos(n)
    if op == "<":
        return _pos(neg)
    if op == ">=":
        return bo_not(_pos(neg))
    return bo_not(_pos(n))


def close_bo(a, b, tol):
    """Bo: |a - b| <= tol, kept as an opaque obligation node over the two normal forms."""
    if a.sp or b.sp:
        return Bo.const(a.sp == b.sp)
    la, lb = a.n, b.n
    da, db = dict(a.d), dict(b.d)
    lcm = dict(da)
    for f, e in db.items():
        lcm[f] = max(lcm.get(f, 0), e)
    for f, e in lcm.items():
        x = e - da.get(f, 0)
        if x:
            la = p_mul(la, fac_pow(f, x))
        y = e - db.get(f, 0)
        if y:
            lb = p_mul(lb, fac_pow(f, y))
    lb = identify_consts(la, lb)
    den = {(): 1}
    for f, e in lcm.items():
        den = p_mul(den, fac_pow(f, e))
    return _bo("close", (la, lb, den, tol), (pkey(la), pkey(lb), pkey(den), tol))


def identify_consts(la, lb):
    """Replace coefficients of lb by those of la where they agree to 1e-10 (IEEE rounding of the
    same constant), and drop terms that are rounding residue of cancelled terms."""
    mx = {}
    for p in (la, lb):
        for m, c in p.items():
            deg = sum(e for _, e in m)
            v = abs(float(c)) if abs(c) < 1e300 else 1e300
            if v > mx.get(deg, 0.0):
                mx[deg] = v
    top = max(mx.values()) if mx else 0.0
    out = {}
    for m in set(la) | set(lb):
        x = la.get(m, 0)
        y = lb.get(m, 0)
        if x == y:
            if y:
                out[m] = y
            continue
        deg = sum(e for _, e in m)
        ref = max(abs(float(x)), abs(float(y)), 1e-3 * mx.get(deg, 0.0))
        if abs(float(Fraction(x) - Fraction(y))) <= 1e-10 * ref:
            if x:
                out[m] = x
        elif y:
            out[m] = y
    return out


def r_resolve(r):
    """r with the |.| and if-then-else atoms replaced whose condition the path has decided"""
    if r.sp or CTX.path is None:
        return r
    memo = {}

    def atom(aid):
        v = memo.get(aid)
        if v is not None:
            return v[0]
        at = CTX.atoms[aid]
        out = None
        if at.kind == "abs":
            k = CTX.path.known(r_cmp(at.args[0], 0, ">="))
            if k is None and CTX.path.known(r_cmp(at.args[0], 0, ">")) is False:
                k = False
            if k is not None:
                out = value(at.args[0])
                if not k:
                    out = -out
        elif at.kind == "ite":
            k = CTX.path.known(at.args[0])
            if k is not None:
                out = value(at.args[1] if k else at.args[2])
        elif at.kind in ("erf", "exp", "log", "round", "root"):
            a = at.args[0]
            b = value(a)
            if b is not a and not b.sp:
                out = {"erf": r_erf, "exp": r_exp, "log": r_log}[at.kind](b) if at.kind in ("erf", "exp", "log") else \
                    r_round(b, at.extra) if at.kind == "round" else None
        memo[aid] = (out,)
        return out

    def value(x):
        if x.sp:
            return x
        ids = set(a for m in x.n for a, _ in m)
        for f, _ in x.d:
            ids |= set(a for m in CTX.facs[f] for a, _ in m)
        sub = {a: v for a in ids for v in (atom(a),) if v is not None}
        if not sub:
            return x

        def poly(p):
            t = R.const(0)
            for m, c in p.items():
                u = R({tuple(q for q in m if q[0] not in sub): c}, (), None, "f8")
                for a, e in m:
                    if a in sub:
                        for _ in range(e):
                            u = r_mul(u, sub[a])
                t = r_add(t, u)
            return t
        y = poly(x.n)
        for f, e in x.d:
            d = poly(CTX.facs[f])
            for _ in range(e):
                y = r_div(y, d)
        return y.wk(x.k)
    return value(r)


# ----------------------------------------------------------------------------- numeric evaluation
def default_input(a):
    """deterministic generic value for an unconstrained input"""
    rng = random.Random("%s|%d" % (a.name, CTX.seed))
    lo = a.lo if a.lo is not None else -20
    hi = a.hi if a.hi is not None else 20
    if lo < -20 and hi > -20:
        lo = -20
    if hi > 20 and lo < 20:
        hi = 20
    if a.isint:
        return Fraction(rng.randint(math.ceil(lo), math.floor(hi)))
    t = rng.randint(1, 4095)
    return Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(t, 4096)


class Ev:
    """Numeric evaluation of values under an assignment of the inputs (40 digits)."""

    def __init__(self, inputs, over=None):
        self.inp = inputs
        self.over = over or {}
        self.c = {}
        self.b = {}

    def atom(self, aid):
        v = self.c.get(aid)
        if v is None:
            v = self._atom(CTX.atoms[aid])
            self.c[aid] = v
        return v

    def _atom(self, a):
        k = a.kind
        if k == "in":
            v = self.inp.get(a.name)
            if v is None:
                v = default_input(a)
            if isinstance(v, Fraction):
                return mpf(v.numerator) / mpf(v.denominator)
            return mpf(v)
        if a.aid in self.over:
            return self.over[a.aid]
        if k == "ind":
            return mpf(1 if self.bo(a.args[0]) else 0)
        if k == "ite":
            return self.r(a.args[1]) if self.bo(a.args[0]) else self.r(a.args[2])
        if k in ("csqrt_re", "csqrt_im"):
            w = mpmath.sqrt(mpmath.mpc(self.r(a.args[0]), self.r(a.args[1])))
            return w.real if k == "csqrt_re" else w.imag
        if k == "order":
            vals = sorted(self.r(x) for x in a.args)
            return vals[a.extra]
        if k == "uf":
            return a.extra(self, a)
        x = self.r(a.args[0])
        if k == "def":
            return x
        if k == "sqrt":
            return mpmath.sqrt(x) if x > 0 else mpf(0)
        if k == "abs":
            return abs(x)
        if k == "round":
            s = mpf(10) ** a.extra
            y = x * s
            f = mpmath.floor(y)
            fr = y - f
            if abs(fr - mpf("0.5")) < mpf("1e-22"):
                n = f if int(f) % 2 == 0 else f + 1
            else:
                n = f if fr < mpf("0.5") else f + 1
            return n / s
        if k == "floor":
            y = mpmath.nint(x)
            return y if abs(y - x) < mpf("1e-25") else mpmath.floor(x)
        if k == "ceil":
            return mpmath.ceil(x)
        if k == "trunc":
            y = mpmath.nint(x)
            if abs(y - x) < mpf("1e-25"):
                return y
            return mpmath.floor(x) if x >= 0 else mpmath.ceil(x)
        if k == "exp":
            return mpmath.exp(x)
        if k == "log":
            return mpmath.log(x) if x > 0 else mpf("-1e300")
        if k == "root":
            return mpmath.power(x, mpf(a.extra.numerator) / a.extra.denominator) if x > 0 else mpf(0)
        return getattr(mpmath, k if k not in ("cos", "sin", "tan", "atan", "erf") else k)(x)

    def poly(self, p):
        s = mpf(0)
        for m, c in p.items():
            t = mpf(c) if isinstance(c, int) else mpf(c.numerator) / mpf(c.denominator)
            for (a, e) in m:
                v = self.atom(a)
                t = t * (v if e == 1 else v ** e)
            s += t
        return s

    def r(self, r):
        if r.sp:
            return mpf(r.sp)
        v = self.poly(r.n)
        for f, e in r.d:
            dv = self.poly(CTX.facs[f])
            if dv == 0:
                return mpf("nan")
            v = v / dv ** e
        return v

    def bo(self, b):
        if b.v is not None:
            return b.v
        r = self.b.get(b.id)
        if r is None:
            r = self._bo(b)
            self.b[b.id] = r
        return r

    def _bo(self, b):
        op = b.op
        if op == "not":
            return not self.bo(b.args[0])
        if op == "and":
            return all(self.bo(x) for x in b.args)
        if op == "pos":
            return self.poly(b.args[0]) > mpf("1e-24")
        if op == "eq0":
            return abs(self.poly(b.args[0])) <= mpf("1e-24")
        if op == "close":
            la, lb, den, tol = b.args
            d = abs(self.poly(la) - self.poly(lb))
            return d <= tol * abs(self.poly(den)) + mpf("1e-24")
        raise Unsupported("eval " + op)


# ----------------------------------------------------------------------------- z3 translation
def zc(c):
    if isinstance(c, int):
        return z3.RealVal(c)
    return z3.Q(c.numerator, c.denominator)


class Z:
    """Builds z3 terms; collects the atoms whose definitions are needed. With lin=True every
    nonlinear monomial becomes a fresh variable (a linear relaxation)."""

    def __init__(self, lin=False, margin=None):
        self.lin = lin
        self.margin = margin
        self.atoms = {}
        self.order = []
        self.monos = {}
        self.side = []
        self.nonlinear = False
        self.bmap = {}
        self.opaque = set()
        self.free = False             # named polynomials left unconstrained (a relaxation)

    def need(self, aid):
        if aid not in self.atoms:
            self.atoms[aid] = True
            self.order.append(aid)

    def mono(self, m):
        if len(m) == 1 and m[0][1] == 1:
            self.need(m[0][0])
            return CTX.zvar(CTX.atoms[m[0][0]])
        self.nonlinear = True
        for (a, _) in m:
            self.need(a)
        if self.lin:
            v = self.monos.get(m)
            if v is None:
                v = z3.Real("m_" + "_".join("%d.%d" % (-a, e) for a, e in m))
                self.monos[m] = v
                if all(e % 2 == 0 or CTX.atoms[a].nonneg for a, e in m):
                    self.side.append(v >= 0)
            return v
        t = None
        for (a, e) in m:
            z = CTX.zvar(CTX.atoms[a])
            for _ in range(e):
                t = z if t is None else t * z
        return t

    def poly(self, p):
        ts = []
        for m, c in p.items():
            if not m:
                ts.append(zc(c))
            elif c == 1:
                ts.append(self.mono(m))
            else:
                ts.append(zc(c) * self.mono(m))
        if not ts:
            return z3.RealVal(0)
        if len(ts) == 1:
            return ts[0]
        return z3.Sum(ts)

    def rel(self, r):
        """(num, den) z3 terms of an R"""
        n = self.poly(r.n)
        d = None
        for f, e in r.d:
            q = fac_pow(f, e)
            z = self.poly(q)
            d = z if d is None else d * z
            self.nonlinear = True
        return n, d

    def bo(self, b):
        if b.v is not None:
            return z3.BoolVal(b.v)
        r = self.bmap.get(b.id)
        if r is None:
            r = self._bo(b)
            self.bmap[b.id] = r
        return r

    def lit(self, b):
        """a top-level literal; with a margin, strict facts are required to hold by that margin"""
        if self.margin is None:
            return self.bo(b)
        g = zc(norm_c(Fraction(self.margin)))
        neg = False
        if b.op == "not":
            neg = True
            b = b.args[0]
        if b.op == "pos":
            t = self.poly(b.args[0])
            return t <= -g if neg else t >= g
        if b.op == "and":
            if neg:
                return z3.Or([self.lit(bo_not(x)) for x in b.args])
            return z3.And([self.lit(x) for x in b.args])
        if b.op == "eq0" and neg:
            t = self.poly(b.args[0])
            return z3.Or(t <= -g, t >= g)
        if b.op == "close" and neg:
            la, lb, den, tol = b.args
            dp = self.poly(la) - self.poly(lb)
            dz = self.poly(p_scale(den, norm_c(Fraction(self.margin))))
            return z3.Or(z3.And(dp >= dz, dp >= -dz), z3.And(-dp >= dz, -dp >= -dz))
        r = self.bo(b)
        return z3.Not(r) if neg else r

    def _bo(self, b):
        op = b.op
        if op == "not":
            return z3.Not(self.bo(b.args[0]))
        if op == "and":
            return z3.And([self.bo(x) for x in b.args])
        if op == "pos":
            return self.poly(b.args[0]) > 0
        if op == "eq0":
            return self.poly(b.args[0]) == 0
        if op == "close":
            la, lb, den, tol = b.args
            dp = self.poly(la) - self.poly(lb)
            c = p_const(den)
            if c is not None:
                t = zc(norm_c(Fraction(tol) * abs(c)))
                return z3.And(dp <= t, dp >= -t)
            if self.lin:
                # linear relaxation cannot express the product with tol; equality of numerators
                # is sufficient
                dz = self.poly(p_scale(den, norm_c(Fraction(tol))))
                return z3.Or(dp == 0, z3.And(dp <= dz, dp >= -dz), z3.And(dp >= dz, dp <= -dz))
            dz = self.poly(p_scale(den, norm_c(Fraction(tol))))
            return z3.Or(dp == 0, z3.And(dp <= dz, dp >= -dz), z3.And(dp >= dz, dp <= -dz))
        raise Unsupported("z3 " + op)

    def eqr(self, v, r):
        """v == r for an R (cross-multiplied; the denominator is nonzero on this path)"""
        n, d = self.rel(r)
        if d is None:
            return v == n
        if self.lin:
            return None
        return v * d == n

    def defs(self):
        """Definitions of all needed atoms (transitively)."""
        out = []
        i = 0
        while i < len(self.order):
            a = CTX.atoms[self.order[i]]
            i += 1
            out.extend(x for x in self.adef(a) if x is not None)
        out.extend(self.pairs())
        return out

    def adef(self, a):
        v = CTX.zvar(a)
        k = a.kind
        o = []
        if a.lo is not None:
            o.append(v >= zc(norm_c(Fraction(a.lo))))
        if a.hi is not None:
            o.append(v <= zc(norm_c(Fraction(a.hi))))
        if a.nonneg:
            o.append(v >= 0)
        if k == "in":
            return o
        if k == "def":
            if not self.free:
                o.append(v == self.poly(a.args[0].n))
            return o
        if k == "sqrt":
            if self.lin:
                o.append(self.mono(((a.aid, 2),)) == self.poly(a.extra))
                # s > 0 iff radicand > 0
                o.append((v == 0) == (self.poly(a.extra) == 0))
            else:
                o.append(v * v == self.poly(a.extra))
                self.nonlinear = True
            return o
        if k == "abs":
            x = a.args[0]
            n, d = self.rel(x)
            if d is None:
                o.append(z3.If(n >= 0, v == n, v == -n))
            elif not self.lin:
                o.append(z3.Or(v * d == n, v * d == -n))
            return o
        if k == "ite":
            c = self.bo(a.args[0])
            e1 = self.eqr(v, a.args[1])
            e2 = self.eqr(v, a.args[2])
            if e1 is not None:
                o.append(z3.Implies(c, e1))
            if e2 is not None:
                o.append(z3.Implies(z3.Not(c), e2))
            return o
        if k == "ind":
            c = self.bo(a.args[0])
            o.append(z3.If(c, v == 1, v == 0))
            return o
        if k == "order":
            self._order_def(a, v, o)
            return o
        if k in ("csqrt_re", "csqrt_im"):
            key = (tol_key(a.args[0]), tol_key(a.args[1]))
            ar = CTX.intern[("csqrt_re", key)]
            ai = CTX.intern[("csqrt_im", key)]
            self.need(ar.aid)
            self.need(ai.aid)
            if not self.lin:
                x, y = CTX.zvar(ar), CTX.zvar(ai)
                o.append(x * x - y * y == self.poly(a.args[0].n))
                o.append(2 * x * y == self.poly(a.args[1].n))
                self.nonlinear = True
            return o
        self.opaque.add(a.aid)
        if k == "uf":
            for x in a.args:
                if isinstance(x, R):
                    self.rel(x)
            return o
        n, d = self.rel(a.args[0])
        if k == "round":
            h = Fraction(1, 2) / _pow10(a.extra)
            if d is None:
                o.append(v - n <= zc(norm_c(h)))
                o.append(n - v <= zc(norm_c(h)))
            elif not self.lin:
                t = z3.Real("q%d" % -a.aid)
                o.append(t * d == n)
                o.append(v - t <= zc(norm_c(h)))
                o.append(t - v <= zc(norm_c(h)))
            if a.extra <= 6:
                # granularity (kept as an integrality constraint only when cheap)
                pass
            return o
        if k == "floor":
            if d is None:
                o.append(v <= n)
                o.append(n < v + 1)
            elif not self.lin:
                t = z3.Real("q%d" % -a.aid)
                o += [t * d == n, v <= t, t < v + 1]
            return o
        if k == "trunc":
            if d is not None and not self.lin:
                t = z3.Real("q%d" % -a.aid)
                o.append(t * d == n)
                n, d = t, None
            if d is None:
                o.append(z3.If(n >= 0, z3.And(v <= n, n < v + 1), z3.And(v >= n, n > v - 1)))
            return o
        if k == "root":
            fr = a.extra
            if not self.lin and d is None and fr.denominator <= 4:
                lhs = v
                for _ in range(fr.denominator - 1):
                    lhs = lhs * v
                rhs = n
                for _ in range(fr.numerator - 1):
                    rhs = rhs * n
                o.append(lhs == rhs)
                self.nonlinear = True
            return o
        if k == "exp":
            o.append(v > 0)
            if d is None:
                o.append(v >= 1 + n)
                o.append((n > 0) == (v > 1))
                o.append((n == 0) == (v == 1))
            return o
        if k == "log":
            if d is None:
                o.append(v <= n - 1)
                o.append((n > 1) == (v > 0))
                o.append((n == 1) == (v == 0))
            return o
        if k == "erf":
            o.append(v < 1)
            o.append(v > -1)
            if d is None:
                o.append((n > 0) == (v > 0))
                o.append((n == 0) == (v == 0))
            return o
        if k in ("cos", "sin"):
            o.append(v <= 1)
            o.append(v >= -1)
            return o
        if k == "atan":
            o.append(v < zc(snap(1.5707963267948968)))
            o.append(v > zc(snap(-1.5707963267948968)))
            if d is None:
                o.append((n > 0) == (v > 0))
                o.append((n == 0) == (v == 0))
            return o
        return o

    def _order_def(self, a, v, o):
        """k-th smallest of args: #(x < v) <= k and #(x <= v) >= k+1, and v is one of them"""
        xs = []
        for x in a.args:
            n, d = self.rel(x)
            if d is not None:
                if self.lin:
                    return
                t = z3.Real("oq%d_%d" % (-a.aid, len(xs)))
                o.append(t * d == n)
                n = t
            xs.append(n)
        k = a.extra
        o.append(z3.Or([v == x for x in xs]))
        o.append(z3.Sum([z3.If(x < v, 1, 0) for x in xs]) <= k)
        o.append(z3.Sum([z3.If(x <= v, 1, 0) for x in xs]) >= k + 1)

    def pairs(self):
        """monotonicity between the opaque atoms of the same monotone function"""
        out = []
        by = {}
        for aid in self.order:
            a = CTX.atoms[aid]
            if a.kind in ("exp", "log", "erf", "atan", "round", "floor", "trunc"):
                by.setdefault((a.kind, a.extra), []).append(a)
        for (k, _), l in by.items():
            if len(l) > 12:
                continue
            for i in range(len(l)):
                for j in range(i):
                    x, dx = self.rel(l[i].args[0])
                    y, dy = self.rel(l[j].args[0])
                    if dx is not None or dy is not None:
                        continue
                    vx, vy = CTX.zvar(l[i]), CTX.zvar(l[j])
                    if k in ("round", "floor", "trunc"):
                        out.append(z3.Implies(x <= y, vx <= vy))
                        out.append(z3.Implies(y <= x, vy <= vx))
                    else:
                        out.append((x < y) == (vx < vy))
                        out.append((x == y) == (vx == vy))
                        if k in ("erf", "atan"):
                            out.append((x == -y) == (vx == -vy))
        n = len(self.order)
        return out


def zval(m, v):
    """numeric value of z3 var v in model m as Fraction or mpf (40 digits)"""
    x = m.eval(v, model_completion=True)
    return znum(x)


def znum(x):
    if z3.is_int_value(x):
        return Fraction(x.as_long())
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_algebraic_value(x):
        a = x.approx(40)
        return mpf(a.numerator_as_long()) / mpf(a.denominator_as_long())
    x = z3.simplify(x)
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    raise Unsupported("model value %s" % x)


class SolveResult:
    __slots__ = ("st", "inputs", "over", "exact")

    def __init__(self, st, inputs=None, over=None, exact=True):
        self.st = st
        self.inputs = inputs
        self.over = over
        self.exact = exact


def _check(s, timeout_ms):
    s.set("timeout", int(timeout_ms))
    t = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    CTX.stats["queries"] += 1
    CTX.stats["solver_s"] += time.time() - t
    return r


def nice_extra(rng=8):
    """constraints of a 'nice' model: small integer inputs, integer square roots"""
    def f(z):
        out = []
        for a in CTX.inputs.values():
            v = CTX.zvar(a)
            out.append(z3.IsInt(v))
            out.append(v <= rng)
            out.append(v >= -rng)
        for aid in list(z.order):
            a = CTX.atoms[aid]
            if a.kind == "sqrt":
                out.append(z3.IsInt(2 * CTX.zvar(a)))
        return out
    return f


def solve(lits, timeout=4.0, extra=None, want_model=True, lin_only=False, margin=None, nice=None, seedw=None):
    """Decide the conjunction of Bo literals (plus extra(Z) -> list of z3 constraints)."""
    for x in lits:
        if x.v is False:
            return SolveResult("unsat")
    strengthened = margin is not None or nice is not None
    # 1. linear relaxation
    zl = Z(lin=True, margin=margin)
    fs = [zl.lit(x) for x in lits]
    if extra:
        fs += extra(zl)
    ds = zl.defs()
    s = z3.Solver()
    s.add(fs)
    s.add(ds)
    s.add(zl.side)
    if nice:
        s.add(nice_extra(nice)(zl))
    r = _check(s, max(500, 1000 * min(timeout, 3.0)))
    if r == z3.unsat:
        CTX.stats["unsat"] += 1
        CTX.stats["linear_unsat"] += 1
        return SolveResult("unsat")
    if r == z3.sat and not zl.nonlinear and not zl.opaque:
        CTX.stats["sat"] += 1
        return SolveResult("sat", _inputs(s.model()), {})
    lin_model = s.model() if r == z3.sat else None
    if not zl.nonlinear and r == z3.sat:
        # opaque functions present: the model may not respect them; hand it back as inexact
        CTX.stats["sat"] += 1
        m = s.model()
        return SolveResult("sat", _inputs(m), _over(m, zl), False)
    if lin_only:
        return SolveResult("unknown")
    if CTX.cut:
        zf = Z()
        zf.free = True
        fs = [zf.lit(x) for x in lits]
        if extra:
            fs += extra(zf)
        s = z3.SolverFor("QF_NRA") if not any(CTX.atoms[a].isint for a in zf.order) else z3.Solver()
        s.add(fs)
        s.add(zf.defs())
        if _check(s, 1000 * min(timeout, 2.0)) == z3.unsat:
            CTX.stats["unsat"] += 1
            return SolveResult("unsat")
        if extra is None and nice is None:
            w = search(lits, seedw, 1.0)
            if w is not None:
                return SolveResult("sat", w, {})
    if CTX.deadline and time.time() > CTX.deadline:
        return SolveResult("unknown")
    # 2. nonlinear
    zn = Z(margin=margin)
    fs = [zn.lit(x) for x in lits]
    if extra:
        fs += extra(zn)
    ds = zn.defs()
    if nice:
        ds = ds + nice_extra(nice)(zn)
    hasind = bool(nice) or any(CTX.atoms[a].isint for a in zn.order)
    attempts = []
    if not hasind:
        attempts.append(("nra", 0.5))
    attempts.append(("def", 0.5))
    for name, share in attempts:
        if name == "nra":
            s = z3.SolverFor("QF_NRA")
        else:
            s = z3.Solver()
        s.add(fs)
        s.add(ds)
        r = _check(s, 1000 * timeout * share)
        if r == z3.unsat:
            CTX.stats["unsat"] += 1
            return SolveResult("unsat")
        if r == z3.sat:
            try:
                m = s.model()
                res = SolveResult("sat", _inputs(m), _over(m, zn), not zn.opaque)
            except Exception:
                continue
            CTX.stats["sat"] += 1
            return res
    CTX.stats["unknown"] += 1
    w = search(lits, seedw, min(timeout, 2.0)) if extra is None and nice is None else None
    if w is not None:
        return SolveResult("sat", w, {})
    res = SolveResult("unknown")
    if lin_model is not None:
        try:
            res.inputs = _inputs(lin_model)
        except Exception:
            pass
    return res


def solve_pairs(pairs):
    """is some pair of conditions not equivalent?  (linear relaxation: enough for conditions in the same normal form)"""
    z = Z(lin=True)
    fs = [z.bo(a) != z.bo(b) for a, b in pairs]
    s = z3.Solver()
    s.add(z3.Or(fs))
    r = _check(s, 3000)
    if r == z3.unsat:
        CTX.stats["unsat"] += 1
        CTX.stats["linear_unsat"] += 1
    return r == z3.unsat


def search(lits, start, limit):
    """inputs that satisfy every literal, looked for numerically (used only to find models, never to discharge)"""
    if not CTX.inputs:
        return None
    t0 = time.time()
    ats = list(CTX.inputs.values())
    rng = random.Random(len(lits) * 7919 + len(ats))
    lits = [x for x in lits if x.v is None]

    def lohi(a):
        return (float(a.lo) if a.lo is not None else -20.0), (float(a.hi) if a.hi is not None else 20.0)

    def score(w):
        ev = Ev(w)
        n = 0
        for x in reversed(lits):
            try:
                if ev.bo(x):
                    n += 1
                elif n == 0:
                    return 0
            except (Unsupported, ArithmeticError, ValueError, TypeError):
                return -1
        return n
    base = {a.name: default_input(a) for a in ats}
    if start:
        base.update({k: v for k, v in start.items() if k in base})
    best, bs = dict(base), score(base)
    if bs == len(lits):
        return best
    it = 0
    while time.time() - t0 < limit and it < 4000:
        it += 1
        w = dict(best if rng.random() < 0.7 else base)
        k = 1 if rng.random() < 0.5 else rng.randint(1, len(ats))
        for a in rng.sample(ats, k):
            lo, hi = lohi(a)
            u = rng.random()
            if a.isint:
                v = Fraction(rng.randint(math.ceil(lo), math.floor(hi)))
            elif u < 0.35:
                v = Fraction(round(rng.uniform(lo, hi), 4))
            elif u < 0.5:
                v = Fraction(0)
            else:
                sc = (hi - lo) * 10 ** rng.uniform(-4, -0.3)
                v = Fraction(round(float(w[a.name]) + rng.gauss(0, sc), 5))
            w[a.name] = min(max(v, Fraction(lo)), Fraction(hi))
        n = score(w)
        if n == len(lits):
            return w
        if n >= bs:
            best, bs = w, n
    return None


def _inputs(m):
    out = {}
    known = {d.name() for d in m.decls()}
    for name, a in CTX.inputs.items():
        if name not in known:
            out[name] = default_input(a)
            continue
        v = zval(m, CTX.zvar(a))
        if a.isint:
            v = Fraction(round(v))
        if a.lo is not None and v < a.lo:
            v = Fraction(a.lo)
        if a.hi is not None and v > a.hi:
            v = Fraction(a.hi)
        out[name] = v
    return out


def _over(m, zn):
    out = {}
    for aid in zn.opaque:
        v = zval(m, CTX.zvar(CTX.atoms[aid]))
        out[aid] = mpf(v.numerator) / mpf(v.denominator) if isinstance(v, Fraction) else v
    return out


# ----------------------------------------------------------------------------- path explorer
class Path:
    """One execution.  base: the decisions that lead here, as (Bo, bool); they are assumed from the start,
    so a rerun follows them whatever normal form or order they come up in."""

    def __init__(self, base, witness, over, real):
        self.base = base
        self.trace = []               # decisions taken
        self.assign = {}              # bo id -> bool
        self.lits = []                # asserted Bo literals
        self.ev = Ev(witness, over) if witness is not None else None
        self.real = real
        self.new = []                 # alternatives: (prefix)
        self.obl = []
        self.pairs = []               # conditions claimed equivalent, for the query when rewriting made them identical
        self.obs = []
        self.notes = []
        self.maxdec = 4000
        self.posf = {}                # bo id -> (polynomial, "is positive" known true / false)
        self.rows = None
        self.radicands = set()        # primitive polynomials whose square root was taken: nonnegative here
        self.nzkey, self.nzset = None, set()
        for b, v in base:
            self.lits.append(b if v else bo_not(b))
            self._assume(b, v)

    def _assume(self, b, v):
        self.assign[b.id] = v
        self.rows = None
        if b.op == "pos":
            self.posf[b.id] = (b.args[0], v)
        if b.op == "not":
            self._assume(b.args[0], not v)
        elif b.op == "and" and v:
            for x in b.args:
                self._assume(x, True)
        elif b.op == "pos" and v:
            # p > 0 excludes -p > 0 and p == 0
            q = {m: -c for m, c in b.args[0].items()}
            o = CTX.bos.get(("pos", tol_pkey(q)))
            if o is not None and o.id not in self.assign:
                self.assign[o.id] = False
            e = CTX.bos.get(("eq0", tol_pkey(_monic(b.args[0]))))
            if e is not None and e.id not in self.assign:
                self.assign[e.id] = False
        elif b.op == "eq0" and v:
            for sgn in (1, -1):
                lead = b.args[0]
                q = p_primitive({m: sgn * c for m, c in lead.items()})[1]
                o = CTX.bos.get(("pos", tol_pkey(q)))
                if o is not None and o.id not in self.assign:
                    self.assign[o.id] = False

    def known(self, b):
        if b.v is not None:
            return b.v
        v = self.assign.get(b.id)
        if v is not None:
            return v
        if b.op == "not":
            v = self.known(b.args[0])
            return None if v is None else not v
        if b.op == "and":
            allt = True
            for x in b.args:
                v = self.known(x)
                if v is False:
                    return False
                if v is None:
                    allt = False
            return True if allt else None
        if b.op == "pos":
            p = b.args[0]
            q = {m: -c for m, c in p.items()}
            o = CTX.bos.get(("pos", tol_pkey(q)))
            if o is not None and self.assign.get(o.id) is True:
                return False
            e = CTX.bos.get(("eq0", tol_pkey(_monic(p))))
            ev = self.assign.get(e.id) if e is not None else None
            if ev is True:
                return False
            if ev is False and o is not None and self.assign.get(o.id) is False:
                return True
            if CTX.cut and len(p) <= 40 and p_nonneg_struct(p) and any(self.nonzero({m: 1}) for m in p):
                return True
            if CTX.cut and len(p) > 1 and len(p) <= 4000:
                r = self.strip(p)
                c = p_const(r)
                if c is not None:
                    return c > 0
                if len(r) < len(p) and len(r) <= 40 and p_nonneg_struct(r) and any(self.nonzero({m: 1}) for m in r):
                    return True
        if b.op == "eq0":
            p = b.args[0]
            if CTX.cut and len(p) == 1:
                m = next(iter(p))
                at = CTX.atoms[m[0][0]]
                if at.kind == "def" and len(m) == 1 and m[0][1] == 1:
                    e = _eq0(at.args[0].n)
                    v = self.known(e)
                    if v is not None:
                        return v
            if CTX.cut and 1 < len(p) <= 40 and p_nonneg_struct(p) and any(self.nonzero({m: 1}) for m in p if m):
                return False
            o1 = CTX.bos.get(("pos", tol_pkey(p_primitive(p)[1])))
            o2 = CTX.bos.get(("pos", tol_pkey(p_primitive({m: -c for m, c in p.items()})[1])))
            v1 = self.assign.get(o1.id) if o1 is not None else None
            v2 = self.assign.get(o2.id) if o2 is not None else None
            if v1 or v2:
                return False
            if v1 is False and v2 is False:
                return True
            if CTX.cut and 1 < len(p) <= 4000:
                _, fs, rest = self.split(p)
                if fs and all(CTX.facs[f] != p and self.nonzero(CTX.facs[f]) for f in fs) and (rest is None or (rest != p and self.nonzero(rest))):
                    return False
        return None

    def nonzero(self, f):
        """the polynomial is known not to vanish on this path"""
        if f.get((), 0) > 0 and p_nonneg_struct(f):
            return True
        if len(f) == 1:
            m = next(iter(f))
            if len(m) > 1 or (m and m[0][1] > 1):
                return all(self.nonzero({((a, 1),): 1}) for a, _ in m)
            if m and CTX.atoms[m[0][0]].kind == "sqrt":
                return self.nonzero(CTX.atoms[m[0][0]].extra)
            if m and CTX.atoms[m[0][0]].kind == "def" and self.known(_eq0(CTX.atoms[m[0][0]].args[0].n)) is False:
                return True
        elif CTX.cut and len(f) <= 40 and p_nonneg_struct(f) and any(self.nonzero({m: 1}) for m in f):
            return True
        e = CTX.bos.get(("eq0", tol_pkey(_monic(f))))
        if e is not None and self.known(e) is False:
            return True
        i = CTX.facmap.get(pkey(_monic(f))) if CTX.cut else None
        return i is not None and i in self.divisors()

    def divisors(self):
        """factors of the polynomials known not to vanish"""
        k = (len(self.assign), len(CTX.facs))
        if self.nzkey != k:
            self.nzkey, self.nzset = k, set()
            s = set()
            ps = [p for p, v in self.posf.values() if v]
            ps += [b.args[0] for b in CTX.bos.values() if b.op == "eq0" and self.assign.get(b.id) is False]
            for p in ps:
                if 1 < len(p) <= 4000:
                    s.update(self.split(p)[1])
            self.nzset = s
        return self.nzset

    def split(self, p):
        """p as (sign, {factor id: multiplicity}, rest) over the factors met so far"""
        sg, fs = 1, {}
        common = None
        for m in p:
            dm = dict(m)
            common = dm if common is None else {a: min(e, dm[a]) for a, e in common.items() if a in dm}
            if not common:
                break
        if common:
            cm = tuple(sorted(common.items(), reverse=True))
            p = {mono_div(m, cm): v for m, v in p.items()}
            for a, e in common.items():
                fs[CTX.fac({((a, 1),): 1})] = e
        if len(p) <= 4000:
            for i, f in enumerate(list(CTX.facs)):
                if len(f) < 2 or len(f) > len(p) or p_const(p) is not None:
                    continue
                while True:
                    q = p_divexact(p, f)
                    if q is None:
                        break
                    p = q
                    fs[i] = fs.get(i, 0) + 1
        c = p_const(p)
        if c is not None:
            return (1 if c > 0 else -1), fs, None
        c = p[max(p)]
        if c < 0:
            sg = -1
        p = {m: cdiv(v, abs(c) * sg) for m, v in p.items()}
        return sg, fs, p

    def signrows(self):
        """row-reduced parity equations between the signs of the factors (-1 stands for the constant)"""
        if self.rows is not None:
            return self.rows
        self.rows = {}
        eqs = []
        for p, v in list(self.posf.values()):
            if not v and not self.nonzero(p):
                continue
            sg, fs, rest = self.split(p)
            if rest is not None:
                fs[CTX.fac(rest)] = 1
            e = {f for f, k in fs.items() if k % 2}
            if (sg < 0) == v:
                e ^= {-1}
            eqs.append(e)
        for i, f in enumerate(CTX.facs):
            if p_known_nonneg(f) and self.nonzero(f):
                eqs.append({i})
        for e in eqs:
            e = self.reduce(e)
            if not (e - {-1}):
                continue
            k = max(e)
            for q in list(self.rows):
                if k in self.rows[q]:
                    self.rows[q] = self.rows[q] ^ e
            self.rows[k] = e
        return self.rows

    def reduce(self, e):
        for k, r in self.rows.items():
            if k in e:
                e = e ^ r
        return e

    def strip(self, p):
        """p without the factors whose (joint) sign is known on this path"""
        self.signrows()
        sg, fs, rest = self.split(p)
        if rest is not None and len(rest) > 1:
            i = CTX.facmap.get(pkey(rest))
            if i is None:
                i = fuzzy_find("fac", rest)
            if i is not None:
                fs[i] = fs.get(i, 0) + 1
                rest = None
        if not fs:
            return p
        keep = {-1} if sg < 0 else set()
        ev = []
        for f, k in fs.items():
            if k % 2:
                keep ^= {f}
            elif not self.nonzero(CTX.facs[f]):
                ev.append(f)
        # only factors known not to vanish may be exchanged for others
        free = {f for f in keep if f != -1 and not self.nonzero(CTX.facs[f])}
        red = self.reduce(keep - free) ^ free
        if any(f != -1 and f not in free and not self.nonzero(CTX.facs[f]) for f in red):
            red = keep
        r = dict(rest) if rest is not None else {(): 1}
        if -1 in red:
            r = {m: -c for m, c in r.items()}
        for f in sorted(x for x in red if x != -1):
            r = p_mul(r, CTX.facs[f])
        for f in ev:
            r = p_mul(r, p_mul(CTX.facs[f], CTX.facs[f]))
        return r

    def branch(self, b):
        v = self.known(b)
        if v is not None:
            return v
        if b.op == "not":
            return not self.branch(b.args[0])
        if b.op == "and":
            # decide conjuncts one at a time (short-circuit) to keep literals atomic
            for x in b.args:
                if not self.branch(x):
                    return False
            return True
        if len(self.trace) > self.maxdec:
            raise PathAbort("too many decisions on one path")
        CTX.stats["branches"] += 1
        v = self.ev.bo(b) if self.ev is not None else True
        self.new.append((len(self.trace), len(self.lits), b, not v))
        self.trace.append((b, v))
        self.lits.append(b if v else bo_not(b))
        self._assume(b, v)
        return v

    def enumerate_int(self, r):
        """Concretise a symbolic integer by forking over its values."""
        for _ in range(64):
            c = int(mpmath.nint(self.ev.r(r))) if self.ev is not None else 0
            b = r_cmp(r, c, "==")
            if bool(b):
                return c
            if self.ev is not None:
                # witness disagrees (should not happen): give up on this path
                raise PathAbort("enumeration")
        raise Unsupported("too many integer values")

    def assume(self, b):
        b = to_bo(b)
        if b.v is True:
            return
        if b.v is False:
            raise PathAbort("assumption is false")
        k = self.known(b)
        if k is True:
            return
        if k is False:
            raise PathAbort("assumption is false")
        self.lits.append(b)
        self._assume(b, True)
        if self.ev is not None and not self.ev.bo(b):
            # witness violates the assumption: get a new one
            r = solve(self.lits, timeout=4.0, seedw={n: self.ev.atom(a.aid) for n, a in CTX.inputs.items()})
            if r.st == "unsat":
                raise PathAbort("assumption infeasible")
            if r.inputs is not None:
                self.ev = Ev(r.inputs, r.over)
                self.real = r.exact


def p_range_sign(p):
    """whether p > 0, when the declared bounds of its inputs alone decide it"""
    lo = hi = 0
    for m, c in p.items():
        a = b = c
        for aid, e in m:
            at = CTX.atoms[aid]
            if at.lo is None or at.hi is None:
                return None
            l, h = at.lo ** e, at.hi ** e
            if e % 2 == 0:
                l, h = (0 if at.lo <= 0 <= at.hi else min(l, h)), max(l, h)
            xs = (a * l, a * h, b * l, b * h)
            a, b = min(xs), max(xs)
        lo, hi = lo + a, hi + b
    if lo > 0:
        return True
    if hi <= 0:
        return False
    return None


def recanon(b):
    """the same condition with its comparisons rewritten under everything known on the current path"""
    if b.v is not None:
        return b
    if b.op == "not":
        return bo_not(recanon(b.args[0]))
    if b.op == "and":
        return bo_and(*[recanon(x) for x in b.args])
    if b.op == "pos":
        r = _pos(b.args[0])
        v = CTX.path.known(r)
        if v is None and r.op == "pos":
            v = p_range_sign(r.args[0])
        return r if v is None else Bo.const(v)
    return b


def _monic(p):
    lead = p[max(p)]
    if lead == 1:
        return p
    return {m: cdiv(c, lead) for m, c in p.items()}
