"""Models of the library functions that the code under test calls besides numpy: math, scipy and
sklearn.  Linear functionals (interp1d, least squares) are exact; anything not modelled raises
Unsupported when it is called (the path is then reported as not decided, never as a violation)."""
import builtins
import math
from fractions import Fraction

import mpmath
import numpy as np

from . import core
from .core import R, C, Bo, CTX, Unsupported, atom_r, r_sqrt, r_exp, r_log, r_erf, r_atan, r_atan2, r_cos, r_sin, r_tan
from . import symnp
from .symnp import NP, SymArray, from_list, num, real, l_sum, ls_weights, chol, STATE, IdxSet


class Stub:
    """A module whose unknown attributes are callables that raise Unsupported."""

    def __init__(self, _name, **kw):
        self.__dict__["_name"] = _name
        self.__dict__.update(kw)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        name = self._name + "." + n

        class Missing:
            def __init__(self, *a, **k):
                raise Unsupported("call of " + name)
        Missing.__name__ = n
        return Missing


# ----------------------------------------------------------------------------- math
def pf(x):
    if isinstance(x, SymArray):
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        x = x.reshape(-1)[0]
    x = symnp.lift(x)
    if isinstance(x, Bo):
        x = x.as_r()
    if not isinstance(x, R):
        raise TypeError("must be real number, not %s" % type(x).__name__)
    return x.wk("pf")


def _m1(f, dom=None):
    def g(x):
        r = pf(x)
        if dom:
            dom(r)
        return f(r).wk("pf")
    return g


def _dom_sqrt(r):
    if r.sp == "-inf" or (not r.sp and bool(r < 0)):
        raise ValueError("math domain error")


def _dom_log(r):
    if r.sp == "-inf" or (not r.sp and bool(r <= 0)):
        raise ValueError("math domain error")


def _log(x, base=None):
    r = pf(x)
    _dom_log(r)
    v = r_log(r)
    if base is not None:
        v = v / r_log(pf(base))
    return v.wk("pf")


def _isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    a, b = pf(a), pf(b)
    return abs(a - b) <= symnp.u_max(rel_tol * symnp.u_max(abs(a), abs(b)), R.const(abs_tol))


class _Math:
    pi = math.pi
    e = math.e
    inf = math.inf
    nan = math.nan
    tau = math.tau
    sqrt = staticmethod(_m1(r_sqrt, _dom_sqrt))
    exp = staticmethod(_m1(r_exp))
    log = staticmethod(_log)
    log10 = staticmethod(lambda x: (_log(x) / math.log(10)).wk("pf"))
    log2 = staticmethod(lambda x: (_log(x) / math.log(2)).wk("pf"))
    log1p = staticmethod(lambda x: _log(pf(x) + 1))
    erf = staticmethod(_m1(r_erf))
    erfc = staticmethod(lambda x: (1 - r_erf(pf(x))).wk("pf"))
    sin = staticmethod(_m1(r_sin))
    cos = staticmethod(_m1(r_cos))
    tan = staticmethod(_m1(r_tan))
    atan = staticmethod(_m1(r_atan))
    atan2 = staticmethod(lambda y, x: r_atan2(pf(y), pf(x)).wk("pf"))
    fabs = staticmethod(_m1(core.r_abs))
    floor = staticmethod(lambda x: core.r_floor(pf(x)).wk("pi"))
    ceil = staticmethod(lambda x: core.r_ceil(pf(x)).wk("pi"))
    trunc = staticmethod(lambda x: core.r_trunc(pf(x)).wk("pi"))
    pow = staticmethod(lambda a, b: pf(a) ** pf(b))
    hypot = staticmethod(lambda *a: r_sqrt(sum([pf(x) * pf(x) for x in a], R.const(0))).wk("pf"))
    fsum = staticmethod(lambda xs: sum([pf(x) for x in xs], R.const(0.0)))
    isnan = staticmethod(lambda x: pf(x).sp == "nan")
    isinf = staticmethod(lambda x: pf(x).sp in ("inf", "-inf"))
    isfinite = staticmethod(lambda x: pf(x).sp is None)
    isclose = staticmethod(_isclose)
    copysign = staticmethod(lambda a, b: core.r_ite(pf(b) >= 0, abs(pf(a)), -abs(pf(a))))

    @staticmethod
    def prod(xs, start=1):
        r = R.const(start)
        for x in xs:
            r = r * x
        return r

    def __getattr__(self, n):
        f = getattr(math, n)

        def g(*a):
            b = []
            for x in a:
                if isinstance(x, R):
                    c = x.cval
                    if c is None:
                        raise Unsupported("math." + n)
                    x = int(c) if x.k in core.IKINDS else float(c)
                b.append(x)
            return f(*b)
        return g


MATH = _Math()


# ----------------------------------------------------------------------------- interpolation
def conc(xs):
    out = []
    for x in NP.asarray(xs):
        c = num(x).cval
        if c is None:
            raise Unsupported("symbolic abscissa")
        out.append(c)
    return out


def lin_weights(xs, x, kind):
    """weights of interp1d(xs, ., kind)(x) as exact-as-float numbers"""
    import scipy.interpolate as si
    xf = np.array([float(v) for v in xs])
    if kind in ("linear", 1, "slinear"):
        # exact
        o = sorted(range(len(xs)), key=lambda i: xs[i])
        sx = [Fraction(xs[i]) for i in o]
        x = Fraction(x)
        j = 0
        while j < len(sx) - 2 and x > sx[j + 1]:
            j += 1
        t = (x - sx[j]) / (sx[j + 1] - sx[j])
        w = [Fraction(0)] * len(xs)
        w[o[j]] = 1 - t
        w[o[j + 1]] = t
        return [core.norm_c(v) for v in w]
    f = si.interp1d(xf, np.eye(len(xs)), kind=kind, axis=0)
    return [core.snap(float(v)) if abs(v) > 1e-13 else 0 for v in f(float(x))]


class interp1d:
    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=math.nan,
                 assume_sorted=False):
        self.x = conc(x)
        y = NP.asarray(y)
        if y.ndim != 1:
            raise Unsupported("interp1d of a 2-d array")
        self.y = list(y)
        if len(self.x) != len(self.y):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        k = kind.concretize() if isinstance(kind, R) else kind
        self.kind = k
        need = {"linear": 1, "slinear": 1, "zero": 1, "nearest": 1, "quadratic": 3, "cubic": 4}.get(k, k + 1 if isinstance(k, int) else 1)
        if len(self.x) < need:
            raise ValueError("The number of derivatives at boundaries does not match")
        self.fill = fill_value
        self.be = bounds_error

    def _one(self, x):
        c = num(x).cval
        if c is None:
            raise Unsupported("symbolic interpolation point")
        lo, hi = builtins.min(self.x), builtins.max(self.x)
        if not (lo <= c <= hi):
            if isinstance(self.fill, str) and self.fill == "extrapolate":
                raise Unsupported("extrapolation")
            if self.be is None or self.be:
                if isinstance(self.fill, float) and math.isnan(self.fill):
                    raise ValueError("A value in x_new is outside the interpolation range.")
            return R.const(math.nan, "f8")
        if any(isinstance(v, R) and v.sp for v in self.y):
            if self.kind in ("linear", 1, "slinear"):
                w = lin_weights(self.x, c, self.kind)
                return l_sum([num(y) * R.const(k) for k, y in zip(w, self.y) if k]).wk("f8")
            return R.const(math.nan, "f8")
        w = lin_weights(self.x, c, self.kind)
        return l_sum([num(y) * R.const(k) for k, y in zip(w, self.y) if k] or [R.const(0, "f8")]).wk("f8")

    def __call__(self, x):
        a = NP.asarray(x)
        if a.ndim == 0:
            z = np.empty((), dtype=object)
            z[()] = self._one(a[()])
            return symnp.wrap(z, "f8")
        return from_list([self._one(v) for v in a.reshape(-1)], a.shape, "f8")


class CubicSpline(interp1d):
    def __init__(self, x, y, axis=0, bc_type="not-a-knot", extrapolate=None):
        if bc_type != "not-a-knot":
            raise Unsupported("CubicSpline bc_type")
        interp1d.__init__(self, x, y, "cubic")


# ----------------------------------------------------------------------------- sklearn
class PolynomialFeatures:
    def __init__(self, degree=2, *, interaction_only=False, include_bias=True, order="C"):
        self.degree = degree.concretize() if isinstance(degree, R) else int(degree)
        self.bias = include_bias
        if interaction_only:
            raise Unsupported("interaction_only")

    def fit(self, X, y=None):
        X = NP.asarray(X)
        if X.ndim != 2:
            raise ValueError("Expected 2D array, got %dD array instead" % X.ndim)
        if X.shape[0] == 0:
            raise ValueError("Found array with 0 sample(s) while a minimum of 1 is required.")
        self.n = X.shape[1]
        return self

    def transform(self, X):
        X = NP.asarray(X)
        if X.ndim != 2:
            raise ValueError("Expected 2D array, got %dD array instead" % X.ndim)
        if X.shape[1] != 1:
            raise Unsupported("multivariate PolynomialFeatures")
        cols = []
        for d in range(0 if self.bias else 1, self.degree + 1):
            cols.append([num(v) ** d for v in X[:, 0]])
        vals = [c[i].wk("f8") for i in range(X.shape[0]) for c in cols]
        return from_list(vals, (X.shape[0], len(cols)), "f8")

    def fit_transform(self, X, y=None):
        return self.fit(X).transform(X)


class LinearRegression:
    def __init__(self, *, fit_intercept=True, copy_X=True, n_jobs=None, positive=False):
        self.ic = fit_intercept
        if positive:
            raise Unsupported("positive")

    def fit(self, X, y, sample_weight=None):
        X = NP.asarray(X)
        y = NP.asarray(y)
        if X.ndim != 2:
            raise ValueError("Expected 2D array")
        if X.shape[0] != y.shape[0]:
            raise ValueError("Found input variables with inconsistent numbers of samples")
        if y.ndim != 1:
            raise Unsupported("multi-output regression")
        if sample_weight is not None:
            raise Unsupported("sample_weight")
        for v in y:
            if isinstance(v, R) and v.sp:
                raise ValueError("Input y contains NaN.")
        rows = []
        for r in X:
            row = []
            for v in r:
                c = num(v).cval
                if c is None:
                    raise Unsupported("symbolic design matrix")
                row.append(Fraction(c))
            rows.append(row)
        self.rows = rows
        self.y = [num(v) for v in y]
        return self

    def _design(self, rows):
        # with an intercept, constant columns are redundant: drop them and add one of ones
        if not self.ic:
            return rows, None
        keep = [j for j in range(len(self.rows[0])) if any(r[j] != self.rows[0][j] for r in self.rows)]
        return [[Fraction(1)] + [r[j] for j in keep] for r in rows], keep

    def predict(self, X):
        X = NP.asarray(X)
        if X.ndim != 2:
            raise ValueError("Expected 2D array, got %dD array instead" % X.ndim)
        q = [[Fraction(num(v).cval) for v in r] for r in X]
        A, _ = self._design(self.rows)
        B, _ = self._design(q)
        out = []
        for b in B:
            w = ls_weights(A, b)
            out.append(l_sum([y * R.const(core.norm_c(c)) for c, y in zip(w, self.y)]).wk("f8"))
        return from_list(out, (len(out),), "f8")


# ----------------------------------------------------------------------------- kde
def _kde_eval(pts, q):
    """numeric Gaussian KDE with scott factor (floats)"""
    X = np.array(pts, dtype=float)           # d x n
    d, n = X.shape
    cov = np.atleast_2d(np.cov(X, bias=False))
    f = n ** (-1.0 / (d + 4))
    S = cov * f * f
    L = np.linalg.cholesky(S)
    dif = np.linalg.solve(L, X - np.array(q, dtype=float)[:, None])
    e = np.exp(-0.5 * (dif ** 2).sum(0)).sum()
    return e / (n * np.prod(np.diag(L)) * (2 * np.pi) ** (d / 2))


class gaussian_kde:
    def __init__(self, dataset, bw_method=None, weights=None):
        if bw_method is not None or weights is not None:
            raise Unsupported("gaussian_kde options")
        self.ds = NP.atleast_2d(NP.asarray(dataset))
        if self.ds.size < 2:
            raise ValueError("`dataset` input should have multiple elements.")

    def __call__(self, pts):
        p = NP.atleast_2d(NP.asarray(pts))
        d, n = self.ds.shape
        m = p.shape[1]
        out = []
        dsv = tuple(num(v) for v in self.ds.reshape(-1))
        dkey = tuple(core.tol_key(v) for v in dsv)
        for j in range(m):
            q = tuple(num(v) for v in p[:, j])
            if all(x.cval is not None for x in dsv + q):
                X = [[float(dsv[i * n + k].cval) for k in range(n)] for i in range(d)]
                out.append(R.const(float(_kde_eval(X, [float(x.cval) for x in q])), "f8"))
                continue
            key = ("kde", d, dkey, tuple(core.tol_key(v) for v in q))
            a = CTX.atom("uf", dsv + q, key, nonneg=True)
            if a.extra is None:
                def ev(e, at, d=d, n=n):
                    vals = [float(e.r(x)) for x in at.args]
                    X = [[vals[i * n + k] for k in range(n)] for i in range(d)]
                    try:
                        return core.mpf(float(_kde_eval(X, vals[d * n:])))
                    except Exception:
                        return core.mpf(0)
                a.extra = ev
            out.append(atom_r(a))
        return from_list(out, (m,), "f8")

    evaluate = pdf = __call__


class _GKE:
    """gaussian_kernel_estimate[dtype](points, values, xi, cholesky, dtype) -> opaque densities"""

    def __getitem__(self, k):
        def f(points, values, xi, cho, dtype):
            xi = NP.asarray(xi)
            out = []
            for j in range(xi.shape[0]):
                key = ("gke", tuple(core.tol_key(num(v)) for v in NP.asarray(points).reshape(-1)),
                       tuple(core.tol_key(num(v)) for v in xi[j]),
                       tuple(core.tol_key(num(v)) for v in NP.asarray(cho).reshape(-1)))
                a = CTX.atom("uf", (), key)
                if a.extra is None:
                    a.extra = lambda e, at: core.mpf(0)
                out.append(atom_r(a))
            return from_list(out, (xi.shape[0], 1), "f8")
        return f


# ----------------------------------------------------------------------------- signal
def hann(M, sym=True):
    M = M.concretize() if isinstance(M, R) else int(M)
    if M < 0:
        raise ValueError("Window length M must be a non-negative integer")
    if M <= 1:
        return NP.ones(M)
    N = M if sym else M + 1
    w = [0.5 - 0.5 * math.cos(2 * math.pi * i / (N - 1)) for i in range(M)]
    w = [0.0 if abs(x) < 1e-15 else x for x in w]
    return from_list([R.const(fx(x) if M >= 256 else x, "f8") for x in w], (M,), "f8")


def get_window(window, n, fftbins=True):
    if isinstance(window, str):
        if window in ("hann", "hanning"):
            return hann(n, not fftbins)
        if window in ("boxcar", "box", "ones", "rect", "rectangular"):
            return NP.ones(n)
    raise Unsupported("window %r" % (window,))


def cint(x):
    return x.concretize() if isinstance(x, R) else int(x)


def fx(v):
    return core.norm_c(core.Fraction(int(round(float(v) * 2 ** 60)), 2 ** 60))


def welch(x, fs=1.0, window="hann", nperseg=None, noverlap=None, nfft=None, detrend="constant",
          return_onesided=True, scaling="density", axis=-1, average="mean"):
    x = NP.asarray(x)
    if x.ndim != 1:
        raise Unsupported("welch of 2-d data")
    n = x.shape[0]
    if n == 0:
        return NP.array([]), NP.array([])
    if isinstance(window, (str, tuple)):
        if nperseg is None:
            nperseg = 256
        nperseg = cint(nperseg)
        if nperseg > n:
            nperseg = n
        win = get_window(window, nperseg)
    else:
        win = NP.asarray(window)
        if n < win.shape[0]:
            raise ValueError("window is longer than input signal")
        if nperseg is None:
            nperseg = win.shape[0]
        else:
            nperseg = cint(nperseg)
            if nperseg != win.shape[0]:
                raise ValueError("value specified for nperseg is different from length of window")
    if nfft is None:
        nfft = nperseg
    else:
        nfft = cint(nfft)
        if nfft < nperseg:
            raise ValueError("nfft must be greater than or equal to nperseg.")
    if noverlap is None:
        noverlap = nperseg // 2
    else:
        if isinstance(noverlap, R) and noverlap.k not in core.IKINDS:
            noverlap = int(noverlap)
        noverlap = cint(noverlap)
    if noverlap >= nperseg:
        raise ValueError("noverlap must be less than nperseg.")
    onesided = bool(return_onesided)
    step = nperseg - noverlap
    fs = num(fs)
    ws = list(win)
    if scaling == "density":
        scale = R.const(1.0) / (fs * l_sum([w * w for w in ws]))
    elif scaling == "spectrum":
        t = l_sum(ws)
        scale = R.const(1.0) / (t * t)
    else:
        raise ValueError("Unknown scaling: %r" % scaling)
    nseg = (n - noverlap) // step
    nf = nfft // 2 + 1 if onesided else nfft
    acc = [[] for _ in range(nf)]
    xs = list(x)
    for s in range(nseg):
        seg = xs[s * step: s * step + nperseg]
        if detrend == "constant":
            mu = l_sum(seg) / nperseg
            seg = [v - mu for v in seg]
        elif detrend is not False:
            raise Unsupported("detrend")
        seg = [v * w for v, w in zip(seg, ws)]
        if nfft >= 256 and all(v.sp is None and not v.d for v in seg):
            # long blocks: the same sums, one transform per monomial
            cols = {}
            for t, v in enumerate(seg):
                for m, c in v.n.items():
                    cols.setdefault(m, np.zeros(nfft))[t] = float(c)
            tr = {m: np.fft.fft(c) for m, c in cols.items()}
            for f in range(nf):
                re = R({m: fx(c[f].real) for m, c in tr.items() if fx(c[f].real)})
                im = R({m: fx(c[f].imag) for m, c in tr.items() if fx(c[f].imag)})
                acc[f].append((re * re + im * im) * scale)
            continue
        for f in range(nf):
            re = l_sum([v * R.const(math.cos(2 * math.pi * f * t / nfft)) for t, v in enumerate(seg)])
            im = l_sum([v * R.const(-math.sin(2 * math.pi * f * t / nfft)) for t, v in enumerate(seg)])
            acc[f].append((re * re + im * im) * scale)
    P = []
    for f in range(nf):
        if average == "mean":
            v = l_sum(acc[f]) / nseg
        else:
            raise Unsupported("average")
        if onesided and f != 0 and not (nfft % 2 == 0 and f == nf - 1):
            v = v * 2
        P.append(v.wk("f8"))
    if onesided:
        fr = [fs * R.const(Fraction(f, nfft)) for f in range(nf)]
    else:
        fr = [fs * R.const(Fraction(f if f < (nfft + 1) // 2 else f - nfft, nfft)) for f in range(nf)]
    return from_list([v.wk("f8") for v in fr], (nf,), "f8"), from_list(P, (nf,), "f8")


# ----------------------------------------------------------------------------- linalg
def sp_cholesky(a, lower=False, overwrite_a=False, check_finite=True):
    return chol(a, lower=bool(lower))


class _Special(Stub):
    pass


def _ew1(f):
    def g(x):
        return symnp.apply_ew("exp", lambda v: f(real(v)), (x,)) if symnp.isarr(x) else f(real(x)).wk("f8")
    return g


SPECIAL = Stub("scipy.special", erf=_ew1(lambda r: r_erf(r)), erfc=_ew1(lambda r: 1 - r_erf(r)),
               ndtr=_ew1(lambda r: (1 + r_erf(r / math.sqrt(2))) / 2))

OPT = {"brentq": None, "fminbound": None}


class _Optimize(Stub):
    def brentq(self, *a, **k):
        if OPT["brentq"] is None:
            raise Unsupported("scipy.optimize.brentq")
        return OPT["brentq"](*a, **k)

    def fminbound(self, *a, **k):
        if OPT["fminbound"] is None:
            raise Unsupported("scipy.optimize.fminbound")
        return OPT["fminbound"](*a, **k)


_ST = Stub("scipy.stats._stats", gaussian_kernel_estimate=_GKE())
MODULES = {
    "math": MATH,
    "numpy": NP,
    "scipy.interpolate": Stub("scipy.interpolate", interp1d=interp1d, CubicSpline=CubicSpline),
    "sklearn.preprocessing": Stub("sklearn.preprocessing", PolynomialFeatures=PolynomialFeatures),
    "sklearn.linear_model": Stub("sklearn.linear_model", LinearRegression=LinearRegression),
    "scipy.stats._stats": _ST,
    "scipy.stats": Stub("scipy.stats", gaussian_kde=gaussian_kde, _stats=_ST),
    "scipy.linalg": Stub("scipy.linalg", cholesky=sp_cholesky, inv=symnp.LINALG.inv, det=symnp.LINALG.det,
                         solve=symnp.LINALG.solve, norm=symnp.LINALG.norm, LinAlgError=np.linalg.LinAlgError,
                         eigh=symnp.LINALG.eigh),
    "scipy.signal.windows": Stub("scipy.signal.windows", hann=hann, get_window=get_window),
    "scipy.special": SPECIAL,
    "scipy.optimize": _Optimize("scipy.optimize"),
}
MODULES["scipy.signal"] = Stub("scipy.signal", welch=welch, get_window=get_window,
                               windows=MODULES["scipy.signal.windows"])
MODULES["scipy"] = Stub("scipy", interpolate=MODULES["scipy.interpolate"], stats=MODULES["scipy.stats"],
                        linalg=MODULES["scipy.linalg"], signal=MODULES["scipy.signal"], special=SPECIAL,
                        optimize=MODULES["scipy.optimize"])
MODULES["sklearn"] = Stub("sklearn", preprocessing=MODULES["sklearn.preprocessing"],
                          linear_model=MODULES["sklearn.linear_model"])
