"""A numpy look-alike over symbolic values.

SymArray is a real numpy object array (so views, slicing, broadcasting and reshaping are numpy's
own) that carries a dtype kind and holds R / C / Bo / str elements. NP is the module object that
code under test receives as `numpy`.  Structural functions fall through to the real numpy on the
object arrays; numeric functions are re-implemented element-wise on symbolic values.
"""
import builtins
import math
from fractions import Fraction

import numpy as np

from . import core
from .core import (R, C, Bo, CTX, Unsupported, r_cmp, bo_and, bo_or, bo_not, to_bo, r_ite, r_sqrt,
                   r_abs, r_round, r_floor, r_ceil, r_trunc, r_exp, r_log, r_erf, r_atan, r_atan2,
                   r_cos, r_sin, r_tan, r_sign, r_min, r_max, r_minmax, kind_promote, tol_key, TRUE,
                   FALSE, FKINDS, IKINDS, atom_r)

KDT = {"f8": np.dtype("float64"), "i8": np.dtype("int64"), "b1": np.dtype("bool"), "f4": np.dtype("float32"),
       "c16": np.dtype("complex128"), "O": np.dtype("O"), "s": np.dtype("<U32")}


class SymStr(str):
    """A string whose float() value is symbolic (num is an R) or that is not numeric (num None)."""
    num = None

    def __new__(cls, text, num=None):
        o = str.__new__(cls, text)
        o.num = num
        return o


def kind_of_dtype(dt):
    if dt is None:
        return None
    if isinstance(dt, str):
        if dt in ("f8", "i8", "b1", "c16", "f4", "O"):
            return dt
        dt = np.dtype(dt)
    if dt is float or getattr(dt, "_symx_is", None) == "float":
        return "f8"
    if dt is int or getattr(dt, "_symx_is", None) == "int":
        return "i8"
    if dt is bool:
        return "b1"
    if dt is complex or getattr(dt, "_symx_is", None) == "complex":
        return "c16"
    if dt is object:
        return "O"
    if dt is str:
        return "s"
    d = np.dtype(dt)
    if d.kind == "f":
        return "f4" if d.itemsize == 4 else "f8"
    if d.kind in "iu":
        return "i8"
    if d.kind == "b":
        return "b1"
    if d.kind == "c":
        return "c16"
    if d.kind in "US":
        return "s"
    return "O"


NPK = {"pf": "f8", "pi": "i8"}


def elem_kind(x):
    if isinstance(x, R):
        return NPK.get(x.k, x.k)
    if isinstance(x, C):
        return "c16"
    if isinstance(x, Bo):
        return "b1"
    if isinstance(x, (bool, np.bool_)):
        return "b1"
    if isinstance(x, (int, np.integer)):
        return "i8"
    if isinstance(x, (float, np.floating)):
        return "f8"
    if isinstance(x, (complex, np.complexfloating)):
        return "c16"
    if isinstance(x, str):
        return "s"
    return "O"


def lift(x):
    """Any scalar -> R / C / Bo / str"""
    if isinstance(x, (R, C, Bo, str)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, (int, np.integer)):
        return R.const(int(x), "pi" if type(x) is int else "i8")
    if isinstance(x, (float, np.floating)):
        return R.const(float(x), "pf" if type(x) is float else "f8")
    if isinstance(x, (complex, np.complexfloating)):
        return C.of(complex(x))
    if isinstance(x, Fraction):
        return R.const(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x[()])
    if x is None:
        return x
    return x


def num(x):
    """lift to R or C"""
    x = lift(x)
    if isinstance(x, Bo):
        return x.as_r()
    if isinstance(x, (R, C)):
        return x
    raise TypeError("unsupported operand type: %r" % type(x).__name__)


def real(x):
    x = num(x)
    if isinstance(x, C):
        raise TypeError("complex where a real is needed")
    return x


def cast_scalar(x, k):
    """value as stored in an array of kind k"""
    x = lift(x)
    if k == "O":
        return x
    if k == "s":
        if isinstance(x, str):
            return x
        r = num(x)
        return SymStr(repr(r), r)
    if isinstance(x, str):
        v = sym_float(x)
        return cast_scalar(v, k)
    if k == "c16":
        return C.of(x.as_r() if isinstance(x, Bo) else x)
    if k == "b1":
        return to_bo(x)
    if isinstance(x, C):
        raise TypeError("can't convert complex to float")
    if not isinstance(x, (R, Bo)):
        raise TypeError("float() argument must be a string or a real number, not '%s'" % type(x).__name__)
    r = x.as_r() if isinstance(x, Bo) else x
    if k == "i8":
        if r.k in IKINDS:
            return r.wk("i8")
        if r.sp:
            raise ValueError("cannot convert float NaN to integer")
        return r_trunc(r).wk("i8")
    return r.wk(k)


def promote_list(ks):
    k = None
    for x in ks:
        if x == "O":
            return "O"
        if x == "s":
            return "s"
        k = x if k is None else ("b1" if k == x == "b1" else kind_promote(k, x))
    return k or "f8"


class SymArray(np.ndarray):
    _k = "f8"

    def __array_finalize__(self, obj):
        self._k = getattr(obj, "_k", "O")

    @property
    def dtype(self):
        return KDT[self._k]

    @dtype.setter
    def dtype(self, d):
        if kind_of_dtype(d) != self._k:
            raise Unsupported("dtype reinterpretation")

    @property
    def itemsize(self):
        return KDT[self._k].itemsize

    @property
    def nbytes(self):
        return self.size * self.itemsize

    # ---- ufuncs / functions
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return do_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        f = getattr(NP, func.__name__, None)
        if f is not None:
            return f(*args, **kwargs)
        raise Unsupported("numpy function " + func.__name__)

    # ---- indexing
    def __getitem__(self, idx):
        if isinstance(idx, str):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or "
                             "boolean arrays are valid indices")
        i = norm_index(idx)
        return np.ndarray.__getitem__(self, i)

    def __setitem__(self, idx, val):
        m = mask_of(idx)
        if m is not None and m.shape == self.shape and not all(b.v is not None for b in m.ravel().tolist()):
            v = lift(val) if not isinstance(val, (SymArray, np.ndarray, list, tuple)) else val
            if not isinstance(v, (SymArray, np.ndarray, list, tuple)) or (isinstance(v, SymArray) and v.ndim == 0):
                if isinstance(v, SymArray):
                    v = v[()]
                flat = self.reshape(-1)
                base = base_of(self)
                mm = m.reshape(-1)
                bf = base.reshape(-1)
                if bf.base is None and base.size:
                    pass
                it = np.ndindex(*self.shape)
                for pos, b in zip(it, mm.tolist()):
                    old = np.ndarray.__getitem__(self, pos)
                    if b.v is False:
                        continue
                    base_set(self, pos, cast_scalar(r_ite(b, cast_scalar(v, self._k), old), self._k))
                return
        i = norm_index(idx)
        v = cast_value(val, self._k)
        np.ndarray.__setitem__(base_of(self), i, v)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield np.ndarray.__getitem__(self, i)

    def __contains__(self, x):
        return bool(NP.any(NP.equal(self, x)))

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __index__(self):
        if self.ndim == 0 and self._k == "i8":
            return self[()].__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __float__(self):
        if self.size == 1:
            return float(self.reshape(-1)[0])
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __int__(self):
        if self.size == 1:
            return int(self.reshape(-1)[0])
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __repr__(self):
        return "SymArray(%s, %s)" % (self._k, list(self.reshape(-1)[:8]))

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __reduce__(self):
        raise Unsupported("pickling")

    def __deepcopy__(self, memo):
        return NP.copy(self)

    def __copy__(self):
        return NP.copy(self)

    # ---- methods
    def astype(self, t, *a, **k):
        k2 = kind_of_dtype(t)
        if k2 in ("f8", "f4", "i8") and self._k == "c16":
            return wrap(emap1(lambda x: cast_scalar(x.re, k2), self), k2)
        return wrap(emap1(lambda x: cast_scalar(x, k2), self), k2)

    def copy(self, order="C"):
        return wrap(base_of(self).copy(), self._k)

    def flatten(self, order="C"):
        return wrap(base_of(self).flatten(order), self._k)

    def tolist(self):
        def f(x):
            if isinstance(x, R):
                return x.item()
            return x
        if self.ndim == 0:
            return f(self[()])
        if self.ndim == 1:
            return [f(x) for x in self]
        return [r.tolist() for r in self]

    def item(self, *a):
        if a:
            v = self[a if len(a) > 1 else a[0]] if self.ndim == len(a) else self.reshape(-1)[a[0]]
        else:
            if self.size != 1:
                raise ValueError("can only convert an array of size 1 to a Python scalar")
            v = self.reshape(-1)[0]
        return v.item() if isinstance(v, R) else v

    def fill(self, v):
        self[...] = v

    @property
    def real(self):
        if self._k != "c16":
            return self
        return wrap(emap1(lambda x: x.re, self), "f8")

    @property
    def imag(self):
        if self._k != "c16":
            return NP.zeros_like(self)
        return wrap(emap1(lambda x: x.im, self), "f8")

    def conj(self):
        return NP.conj(self)

    conjugate = conj

    def sort(self, axis=-1, kind=None, order=None):
        self[...] = NP.sort(self, axis=axis)

    def nonzero(self):
        return NP.nonzero(self)

    def dot(self, o):
        return NP.dot(self, o)

    def __matmul__(self, o):
        return NP.matmul(self, o)

    def __rmatmul__(self, o):
        return NP.matmul(o, self)

    def clip(self, *a, **k):
        return NP.clip(self, *a, **k)

    def round(self, decimals=0, out=None):
        return NP.around(self, decimals)

    def view(self, *a, **k):
        if not a and not k:
            return np.ndarray.view(self)
        if a and a[0] in (np.ndarray, SymArray):
            return np.ndarray.view(self)
        raise Unsupported("view")

    def tobytes(self, *a):
        raise Unsupported("tobytes")

    def searchsorted(self, v, side="left", sorter=None):
        return NP.searchsorted(self, v, side)

    def repeat(self, n, axis=None):
        return NP.repeat(self, n, axis)

    def compress(self, c, axis=None):
        return NP.compress(c, self, axis)

    def take(self, idx, axis=None, out=None, mode="raise"):
        return NP.take(self, idx, axis)

    def diagonal(self, *a):
        return wrap(np.diagonal(base_of(self), *a), self._k)

    def trace(self, *a):
        return NP.sum(self.diagonal())


def _mk_method(name):
    def m(self, *a, **k):
        return getattr(NP, name)(self, *a, **k)
    m.__name__ = name
    return m


for _n in ("sum", "mean", "std", "var", "min", "max", "any", "all", "argmax", "argmin", "cumsum", "cumprod", "prod",
           "argsort", "ptp"):
    setattr(SymArray, _n, _mk_method(_n))


def _ew_dunder(name):
    uf = getattr(np, name)

    def f(self, o):
        if isinstance(o, (dict, set, type(None), str)) and not isinstance(o, SymStr):
            if name in ("equal", "not_equal"):
                return wrap(emap1(lambda x: (TRUE if name == "not_equal" else FALSE), self), "b1")
            return NotImplemented
        return do_ufunc(uf, "__call__", (self, o), {})

    def r(self, o):
        return do_ufunc(uf, "__call__", (o, self), {})

    def i(self, o):
        res = do_ufunc(uf, "__call__", (self, o), {})
        if isinstance(res, SymArray) and res.shape != self.shape:
            raise ValueError("non-broadcastable output operand")
        rk = res._k if isinstance(res, SymArray) else elem_kind(res)
        rank = {"b1": 0, "i8": 1, "f4": 2, "f8": 2, "c16": 3}
        if rank.get(rk, 9) > rank.get(self._k, 9):
            raise TypeError("Cannot cast ufunc %r output from dtype(%r) to dtype(%r) with casting rule 'same_kind'"
                            % (name, str(KDT[rk]), str(KDT[self._k])))
        self[...] = res
        return self
    return f, r, i


for _n, _u in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "divide"),
               ("floordiv", "floor_divide"), ("mod", "remainder"), ("pow", "power"), ("and", "bitwise_and"),
               ("or", "bitwise_or"), ("xor", "bitwise_xor")):
    _f, _r, _i = _ew_dunder(_u)
    setattr(SymArray, "__%s__" % _n, _f)
    setattr(SymArray, "__r%s__" % _n, _r)
    setattr(SymArray, "__i%s__" % _n, _i)
for _n, _u in (("lt", "less"), ("le", "less_equal"), ("gt", "greater"), ("ge", "greater_equal"), ("eq", "equal"),
               ("ne", "not_equal")):
    setattr(SymArray, "__%s__" % _n, _ew_dunder(_u)[0])
for _n, _u in (("neg", "negative"), ("pos", "positive"), ("abs", "absolute"), ("invert", "invert")):
    setattr(SymArray, "__%s__" % _n,
            (lambda uf: lambda self: do_ufunc(uf, "__call__", (self,), {}))(getattr(np, _u)))


def base_of(a):
    return np.ndarray.view(a, np.ndarray) if type(a) is SymArray else a


def base_set(a, pos, v):
    np.ndarray.__setitem__(base_of(a), pos, v)


def wrap(o, k):
    """object ndarray (or scalar) -> SymArray of kind k"""
    if not isinstance(o, np.ndarray):
        return o
    if o.dtype != object if type(o) is np.ndarray else False:
        b = np.empty(o.shape, dtype=object)
        flat = b.reshape(-1)
        for i, x in enumerate(o.reshape(-1).tolist()):
            flat[i] = cast_scalar(x, k)
        o = b
    r = np.ndarray.view(base_of(o), SymArray)
    r._k = k
    return r


def from_list(vals, shape, k):
    b = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        b[i] = v
    return wrap(b.reshape(shape), k)


def emap1(f, a):
    b = np.empty(a.shape, dtype=object)
    src = base_of(a).reshape(-1)
    dst = b.reshape(-1)
    for i in range(src.size):
        dst[i] = f(src[i])
    return b


def cast_value(val, k):
    """value to store in an array of kind k: scalar or object ndarray"""
    if isinstance(val, IdxSet):
        val = val.materialize()
    if isinstance(val, SymArray):
        if val.ndim == 0:
            return cast_scalar(val[()], k)
        if val._k == k:
            return base_of(val)
        if val._k == "c16" and k in ("f8", "i8"):
            return emap1(lambda x: cast_scalar(x.re, k), val)
        return emap1(lambda x: cast_scalar(x, k), val)
    if isinstance(val, (list, tuple, np.ndarray, range)) and not (isinstance(val, np.ndarray) and val.ndim == 0):
        a = NP.asarray(val)
        if a.ndim == 0:
            return cast_scalar(a[()], k)
        return cast_value(a, k)
    return cast_scalar(val, k)


def mask_of(idx):
    if isinstance(idx, SymArray) and idx._k == "b1":
        return base_of(idx)
    return None


def norm_index(idx):
    if isinstance(idx, tuple):
        return tuple(norm_index1(i) for i in idx)
    return norm_index1(idx)


def norm_index1(i):
    if isinstance(i, IdxSet):
        i = i.materialize()
    if isinstance(i, R):
        if i.k not in IKINDS:
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or "
                             "boolean arrays are valid indices")
        return i.concretize()
    if isinstance(i, Bo):
        return bool(i)
    if isinstance(i, SymArray):
        if i._k == "b1":
            r = np.empty(i.shape, dtype=bool)
            f = r.reshape(-1)
            for j, b in enumerate(base_of(i).reshape(-1).tolist()):
                f[j] = bool(b)
            return r
        if i._k == "i8":
            r = np.empty(i.shape, dtype=np.intp)
            f = r.reshape(-1)
            for j, b in enumerate(base_of(i).reshape(-1).tolist()):
                f[j] = b.concretize()
            return r if i.ndim else int(r)
        if i.size == 0 and i.ndim == 1:
            # numpy: float index array is an error even when empty
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(i, slice):
        return slice(sl(i.start), sl(i.stop), sl(i.step))
    if isinstance(i, (list,)):
        if not i:
            return i
        return norm_index1(NP.asarray(i))
    if isinstance(i, range):
        return list(i)
    return i


def sl(x):
    if isinstance(x, R):
        return x.__index__()
    if isinstance(x, SymArray):
        return x.__index__()
    return x


# ----------------------------------------------------------------------------- lazy index sets
class IdxSet:
    """The sorted index array returned by where/nonzero on a symbolic 1-D mask, kept lazy: member i
    is present iff self.m[i] holds.  Set-algebra on these needs no case split."""
    _k = "i8"
    ndim = 1

    def __init__(self, m, dup=None):
        self.m = {i: b for i, b in m.items() if b.v is not False}
        self.dup = dup or []          # further parts (unsorted concatenation)
        self._mat = None

    def parts(self):
        return [self.m] + [p for p in self.dup]

    def union(self):
        out = {}
        for p in self.parts():
            for i, b in p.items():
                out[i] = bo_or(out.get(i, FALSE), b)
        return IdxSet(out)

    @property
    def dtype(self):
        return KDT["i8"]

    def count(self):
        s = R.const(0, "pi")
        for p in self.parts():
            for b in p.values():
                s = s + b.as_r("pi")
        return s.wk("pi")

    size = property(lambda s: s.count())

    @property
    def shape(self):
        return (self.count(),)

    def is_const(self):
        return all(b.v is not None for p in self.parts() for b in p.values())

    def materialize(self):
        if self._mat is None:
            out = []
            for p in self.parts():
                for i in sorted(p):
                    if bool(p[i]):
                        out.append(R.const(i, "i8"))
            self._mat = from_list(out, (len(out),), "i8")
        return self._mat

    def member(self, i):
        r = FALSE
        for p in self.parts():
            r = bo_or(r, p.get(i, FALSE))
        return r

    def __len__(self):
        return len(self.materialize())

    def __iter__(self):
        return iter(self.materialize())

    def __getitem__(self, i):
        return self.materialize()[i]

    def __bool__(self):
        return bool(self.materialize())

    def __contains__(self, x):
        return x in self.materialize()

    def __getattr__(self, n):
        if n.startswith("__") or n in ("m", "dup", "_mat"):
            raise AttributeError(n)
        return getattr(self.materialize(), n)

    def astype(self, t, *a, **k):
        if kind_of_dtype(t) == "i8":
            return self
        return self.materialize().astype(t)

    def copy(self):
        return self

    def ravel(self, *a):
        return self

    flatten = ravel

    def squeeze(self, *a):
        return self.materialize().squeeze(*a)


def _idx_op(name):
    def f(self, *a):
        return getattr(self.materialize(), name)(*a)
    return f


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "floordiv", "mod", "lt", "le", "gt", "ge", "eq",
           "ne", "neg"):
    setattr(IdxSet, "__%s__" % _n, _idx_op("__%s__" % _n))


# ----------------------------------------------------------------------------- ufuncs
def cplx1(fr, fc=None):
    def f(x):
        x = num(x)
        if isinstance(x, C):
            if fc is None:
                raise Unsupported("complex argument")
            return fc(x)
        return fr(x)
    return f


def u_exp_c(z):
    m = r_exp(z.re)
    return C(m * r_cos(z.im), m * r_sin(z.im))


def u_fabs(x):
    return r_abs(real(x))


def fk(x):
    return x if x.k in FKINDS else x.wk("f8")


def u_log10(x):
    c = x.cval
    if c is not None and c > 0:
        return R.const(math.log10(float(c)), "f8")
    return r_log(x) / R.const(math.log(10))


def u_log2(x):
    c = x.cval
    if c is not None and c > 0:
        return R.const(math.log2(float(c)), "f8")
    return r_log(x) / R.const(math.log(2))


def u_cbrt(x):
    if bool(x < 0):
        return -core.r_pow(-x, R.const(Fraction(1, 3)))
    return core.r_pow(x, R.const(Fraction(1, 3)))


def u_sinh(x):
    e = r_exp(x)
    return (e - R.const(1, "f8") / e) / 2


def u_cosh(x):
    e = r_exp(x)
    return (e + R.const(1, "f8") / e) / 2


def u_arcsinh(x):
    return r_log(x + r_sqrt(x * x + 1))


def u_isreal(x):
    x = lift(x)
    if isinstance(x, C):
        return x.im == 0
    return TRUE


def u_isfinite(x):
    x = num(x)
    if isinstance(x, C):
        return Bo.const(not x.re.sp and not x.im.sp)
    return Bo.const(not x.sp)


def u_isnan(x):
    x = lift(x)
    if isinstance(x, str):
        raise TypeError("ufunc 'isnan' not supported for the input types")
    x = num(x)
    if isinstance(x, C):
        return Bo.const(x.re.sp == "nan" or x.im.sp == "nan")
    return Bo.const(x.sp == "nan")


def u_isinf(x):
    x = num(x)
    return Bo.const(x.sp in ("inf", "-inf"))


UN = {
    "negative": lambda x: -num(x),
    "positive": lambda x: num(x),
    "absolute": lambda x: abs(num(x)),
    "abs": lambda x: abs(num(x)),
    "fabs": u_fabs,
    "sqrt": cplx1(lambda x: r_sqrt(fk(x)), core.c_sqrt),
    "square": lambda x: num(x) * num(x),
    "exp": cplx1(r_exp, u_exp_c),
    "exp2": cplx1(lambda x: r_exp(x * R.const(math.log(2)))),
    "expm1": cplx1(lambda x: r_exp(x) - 1),
    "log": cplx1(r_log),
    "log10": cplx1(u_log10),
    "log2": cplx1(u_log2),
    "log1p": cplx1(lambda x: r_log(fk(x) + 1)),
    "sin": cplx1(r_sin),
    "cos": cplx1(r_cos),
    "tan": cplx1(r_tan),
    "arctan": cplx1(r_atan),
    "sinh": cplx1(u_sinh),
    "cosh": cplx1(u_cosh),
    "arcsinh": cplx1(u_arcsinh),
    "tanh": cplx1(lambda x: u_sinh(x) / u_cosh(x)),
    "cbrt": cplx1(u_cbrt),
    "sign": cplx1(r_sign),
    "floor": cplx1(r_floor),
    "ceil": cplx1(r_ceil),
    "trunc": cplx1(lambda x: r_trunc(x).wk(x.k)),
    "rint": cplx1(lambda x: r_round(x, 0)),
    "reciprocal": lambda x: R.const(1, "f8") / num(x),
    "isnan": u_isnan,
    "isfinite": u_isfinite,
    "isinf": u_isinf,
    "isreal": u_isreal,
    "iscomplex": lambda x: bo_not(u_isreal(x)),
    "logical_not": lambda x: bo_not(to_bo(lift(x))),
    "invert": lambda x: ~lift(x),
    "conjugate": lambda x: num(x).conjugate(),
    "conj": lambda x: num(x).conjugate(),
    "deg2rad": lambda x: num(x) * R.const(math.pi / 180),
    "radians": lambda x: num(x) * R.const(math.pi / 180),
    "rad2deg": lambda x: num(x) * R.const(180 / math.pi),
    "degrees": lambda x: num(x) * R.const(180 / math.pi),
    "signbit": lambda x: real(x) < 0,
}


def np_div(a, b):
    a, b = num(a), num(b)
    if isinstance(a, R) and isinstance(b, R):
        if a.k in ("pi", "pf") and b.k in ("pi", "pf"):
            a = a.wk("f8")
        return core.r_div(a, b)
    return C.of(a) / C.of(b)


def np_floordiv(a, b):
    a, b = real(a), real(b)
    if b.cval == 0 and a.k in IKINDS and b.k in IKINDS:
        return R.const(0, "i8")
    return core.r_floordiv(a.wk(NPK.get(a.k, a.k)), b)


def np_pow(a, b):
    a, b = num(a), num(b)
    if isinstance(b, C):
        raise Unsupported("complex exponent")
    if isinstance(a, R):
        if b.cval is not None and b.cval < 0 and a.k in ("pi", "i8", "b1") and b.k in IKINDS:
            raise ValueError("Integers to negative integer powers are not allowed.")
        a = a.wk(NPK.get(a.k, a.k))
    return a ** b


def u_max(a, b):
    a, b = real(a), real(b)
    return r_max(a, b).wk(_pk(a, b))


def u_min(a, b):
    a, b = real(a), real(b)
    return r_min(a, b).wk(_pk(a, b))


def _pk(a, b):
    k = kind_promote(a.k, b.k)
    return NPK.get(k, k)


def u_fmax(a, b):
    a, b = real(a), real(b)
    if a.sp == "nan":
        return b
    if b.sp == "nan":
        return a
    return r_max(a, b)


def u_fmin(a, b):
    a, b = real(a), real(b)
    if a.sp == "nan":
        return b
    if b.sp == "nan":
        return a
    return r_min(a, b)


def eqf(a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, str) or isinstance(b, str):
        return Bo.const(str(a) == str(b) if isinstance(a, str) and isinstance(b, str) else False)
    r = a == b
    return to_bo(r) if r is not NotImplemented else FALSE


def boolop(f):
    def g(a, b):
        return f(to_bo(lift(a)), to_bo(lift(b)))
    return g


def bitop(name):
    def g(a, b):
        a, b = lift(a), lift(b)
        if isinstance(a, Bo) and isinstance(b, Bo):
            return {"and": bo_and, "or": bo_or, "xor": lambda x, y: bo_not(core.bo_iff(x, y))}[name](a, b)
        ia, ib = int(num(a)), int(num(b))
        return R.const({"and": ia & ib, "or": ia | ib, "xor": ia ^ ib}[name], "i8")
    return g


def cmpf(op):
    def g(a, b):
        a, b = num(a), num(b)
        if isinstance(a, C) or isinstance(b, C):
            a, b = C.of(a), C.of(b)
            lt = bo_or(a.re < b.re, bo_and(a.re == b.re, a.im < b.im))
            eq = bo_and(a.re == b.re, a.im == b.im)
            return {"<": lt, "<=": bo_or(lt, eq), ">": bo_not(bo_or(lt, eq)), ">=": bo_not(lt)}[op]
        return r_cmp(a, b, op)
    return g


def u_add(a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, Bo) and isinstance(b, Bo):
        return bo_or(a, b)
    return num(a) + num(b)


def u_mul(a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, Bo) and isinstance(b, Bo):
        return bo_and(a, b)
    return num(a) * num(b)


def u_sub(a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, Bo) and isinstance(b, Bo):
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported, use the bitwise_xor, the `^` "
                        "operator, or the logical_xor function instead.")
    return num(a) - num(b)


def u_hypot(a, b):
    a, b = real(a), real(b)
    return r_sqrt(a * a + b * b)


BIN = {
    "add": u_add, "subtract": u_sub, "multiply": u_mul,
    "divide": np_div, "true_divide": np_div,
    "floor_divide": np_floordiv,
    "remainder": lambda a, b: core.r_mod(real(a), real(b)),
    "mod": lambda a, b: core.r_mod(real(a), real(b)),
    "power": np_pow, "float_power": lambda a, b: np_pow(num(a).wk("f8") if isinstance(num(a), R) else a, b),
    "maximum": u_max, "minimum": u_min, "fmax": u_fmax, "fmin": u_fmin,
    "greater": cmpf(">"), "greater_equal": cmpf(">="), "less": cmpf("<"), "less_equal": cmpf("<="),
    "equal": eqf, "not_equal": lambda a, b: bo_not(eqf(a, b)),
    "logical_and": boolop(bo_and), "logical_or": boolop(bo_or),
    "logical_xor": boolop(lambda a, b: bo_not(core.bo_iff(a, b))),
    "bitwise_and": bitop("and"), "bitwise_or": bitop("or"), "bitwise_xor": bitop("xor"),
    "arctan2": lambda a, b: r_atan2(real(a), real(b)),
    "hypot": u_hypot,
    "heaviside": lambda a, b: r_ite(real(a) > 0, R.const(1.0, "f8"), r_ite(real(a) == 0, num(b), R.const(0.0, "f8"))),
    "copysign": lambda a, b: r_ite(real(b) >= 0, r_abs(real(a)), -r_abs(real(a))),
}

BOOLRES = {"greater", "greater_equal", "less", "less_equal", "equal", "not_equal", "logical_and", "logical_or",
           "logical_xor", "logical_not", "isnan", "isfinite", "isinf", "isreal", "iscomplex", "signbit"}
FLOATRES = {"divide", "true_divide", "sqrt", "exp", "log", "log10", "log2", "log1p", "sin", "cos", "tan", "arctan",
            "arctan2", "exp2", "expm1", "fabs", "sinh", "cosh", "tanh", "cbrt", "hypot", "rint", "reciprocal",
            "deg2rad", "rad2deg", "arcsinh", "floor", "ceil", "trunc", "float_power", "degrees", "radians"}


def isarr(x):
    return isinstance(x, (np.ndarray, IdxSet))


def arr_obj(x):
    """ndarray-ish -> object ndarray of lifted elements; scalars stay scalars"""
    if isinstance(x, IdxSet):
        x = x.materialize()
    if isinstance(x, SymArray):
        return base_of(x)
    if isinstance(x, np.ndarray) or isinstance(x, (list, tuple, range)):
        return base_of(NP.asarray(x))
    return x


def res_kind(name, ins):
    if name in BOOLRES:
        return "b1"
    ks = []
    for x in ins:
        if isinstance(x, (SymArray, IdxSet)):
            ks.append(x._k)
        elif isinstance(x, np.ndarray):
            ks.append(kind_of_dtype(x.dtype))
        else:
            e = lift(x)
            ks.append(e.k if isinstance(e, R) else elem_kind(e))
    k = ks[0]
    for y in ks[1:]:
        k = k if (k == y == "b1" and name in ("add", "multiply", "bitwise_and", "bitwise_or", "bitwise_xor", "maximum",
                                               "minimum")) else kind_promote(k, y)
    if len(ks) == 1 and k == "b1" and name not in ("invert",):
        k = "i8"
    k = NPK.get(k, k)
    if name in FLOATRES and k in ("i8", "b1"):
        k = "f8"
    if k == "c16" and name in ("absolute", "abs"):
        k = "f8"
    return k


def apply_ew(name, f, ins):
    """element-wise application with broadcasting"""
    anyarr = builtins.any(isarr(x) or isinstance(x, (list, tuple, range)) for x in ins)
    if not anyarr:
        r = f(*ins)
        if isinstance(r, R):
            k = res_kind(name, ins)
            r = r.wk(k)
        return r
    ins = [NP.asarray(x) if isinstance(x, (list, tuple, range)) else x for x in ins]
    k = res_kind(name, ins)
    objs = []
    for x in ins:
        o = arr_obj(x)
        if not isinstance(o, np.ndarray):
            z = np.empty((), dtype=object)
            z[()] = o
            o = z
        objs.append(o)
    if len(objs) > 1:
        objs = np.broadcast_arrays(*objs)
    shape = objs[0].shape
    out = np.empty(shape, dtype=object)
    of = out.reshape(-1)
    its = [o.reshape(-1) for o in objs]
    for i in range(of.size):
        v = f(*[it[i] for it in its])
        if isinstance(v, R):
            v = v.wk(k) if k in ("f8", "i8", "f4") else (C.of(v) if k == "c16" else v)
        of[i] = v
    if shape == ():
        return out[()]
    return wrap(out, k)


def do_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    kw.pop("casting", None)
    dt = kw.pop("dtype", None)
    if method == "__call__":
        if name == "matmul":
            res = NP.matmul(*inputs)
        elif len(inputs) == 1 and name in UN:
            res = apply_ew(name, UN[name], inputs)
        elif len(inputs) == 2 and name in BIN:
            if where is not True:
                b = out[0] if out is not None else NP.zeros(np.broadcast_shapes(*[np.shape(x) for x in inputs]))
                wm = np.broadcast_to(arr_obj(NP.asarray(where)), b.shape)
                xs = np.broadcast_arrays(*[arr_obj(NP.asarray(x)) for x in inputs])
                for pos in np.ndindex(*b.shape):
                    if bool(wm[pos]):
                        b[pos] = BIN[name](xs[0][pos], xs[1][pos])
                return b
            res = apply_ew(name, BIN[name], inputs)
        else:
            raise Unsupported("ufunc " + name)
    elif method == "reduce":
        axis = kw.get("axis", 0)
        kd = kw.get("keepdims", False)
        fn = {"add": "sum", "multiply": "prod", "maximum": "max", "minimum": "min", "logical_and": "all",
              "logical_or": "any"}.get(name)
        if fn is None:
            raise Unsupported("reduce " + name)
        res = getattr(NP, fn)(inputs[0], axis=axis, keepdims=kd)
    elif method == "accumulate":
        fn = {"add": "cumsum", "multiply": "cumprod"}.get(name)
        if fn is None:
            a = NP.asarray(inputs[0])
            if a.ndim != 1:
                raise Unsupported("accumulate " + name)
            vals = []
            for x in a:
                vals.append(x if not vals else BIN[name](vals[-1], x))
            res = from_list(vals, (len(vals),), a._k)
        else:
            res = getattr(NP, fn)(inputs[0], axis=kw.get("axis", 0))
    elif method == "outer":
        a, b = NP.asarray(inputs[0]), NP.asarray(inputs[1])
        res = apply_ew(name, BIN[name], (a.reshape(a.shape + (1,) * b.ndim), b))
    elif method == "at":
        a, idx, v = inputs[0], inputs[1], inputs[2] if len(inputs) > 2 else None
        idx = [int(i) for i in np.atleast_1d(norm_index1(NP.asarray(idx)))]
        vv = NP.asarray(v)
        for j, i in enumerate(idx):
            a[i] = BIN[name](a[i], vv[j] if vv.ndim else vv[()])
        return None
    else:
        raise Unsupported("ufunc method " + method)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        rk = res._k if isinstance(res, SymArray) else elem_kind(res)
        if o._k == "i8" and rk in ("f8", "f4", "c16"):
            raise TypeError("Cannot cast ufunc '%s' output from dtype('float64') to dtype('int64') with casting rule "
                            "'same_kind'" % name)
        if o._k in ("f8", "f4") and rk == "c16":
            raise TypeError("Cannot cast ufunc output from complex128 to float64")
        if o._k == "b1" and rk != "b1":
            raise TypeError("Cannot cast ufunc output to bool")
        if isinstance(res, SymArray) and res.shape != o.shape:
            res = wrap(np.broadcast_to(base_of(res), o.shape).copy(), res._k)
        o[...] = res
        return o
    if dt is not None:
        res = res.astype(dt)
    return res


# ----------------------------------------------------------------------------- reductions
def axis_reduce(f, a, axis, keepdims=False, kind=None):
    """apply f(list)->scalar along axis"""
    a = NP.asarray(a)
    if axis is None:
        v = f(base_of(a).reshape(-1).tolist())
        if keepdims:
            return from_list([v], (1,) * a.ndim, kind or elem_kind(v))
        return v
    if isinstance(axis, tuple):
        axes = sorted(x % a.ndim for x in axis)
        if len(axes) == a.ndim:
            return axis_reduce(f, a, None, keepdims, kind)
        rest = [i for i in range(a.ndim) if i not in axes]
        b = base_of(a).transpose(rest + axes)
        b = b.reshape([a.shape[i] for i in rest] + [-1])
        return axis_reduce(f, wrap(b, a._k), -1, False, kind)
    axis = int(axis)
    if a.ndim == 0:
        return f([a[()]])
    if axis >= a.ndim or axis < -a.ndim:
        raise np.exceptions.AxisError(axis, a.ndim)
    b = np.moveaxis(base_of(a), axis, -1)
    shp = b.shape[:-1]
    rows = b.reshape(-1, b.shape[-1]) if b.size else b.reshape(int(np.prod(shp)), b.shape[-1])
    vals = [f(list(r)) for r in rows]
    if not shp and not keepdims:
        return vals[0]
    k = kind or (elem_kind(vals[0]) if vals else a._k)
    r = from_list(vals, shp, k)
    if keepdims:
        r = wrap(np.expand_dims(base_of(r), axis), k)
    return r


def l_sum(xs):
    xs = [num(x) for x in xs]
    if builtins.any(isinstance(x, C) for x in xs):
        s = C.of(0)
        for x in xs:
            s = s + x
        return s
    if not xs:
        return R.const(0.0, "f8")
    n = {}
    if all(not x.d and not x.sp for x in xs):
        k = xs[0].k
        for x in xs:
            k = kind_promote(k, x.k)
            for m, c in x.n.items():
                v = n.get(m)
                n[m] = c if v is None else v + c
        n = {m: core.norm_c(c) for m, c in n.items() if c != 0}
        return R(n, (), None, NPK.get(k, k) if k != "b1" else "i8")
    s = xs[0]
    for x in xs[1:]:
        s = s + x
    return s.wk(NPK.get(s.k, s.k) if s.k != "b1" else "i8")


def l_prod(xs):
    s = R.const(1, "i8") if (xs and all(elem_kind(x) in ("i8", "b1") for x in xs)) else R.const(1, "f8")
    for x in xs:
        s = s * num(x)
    return s


def l_mean(xs):
    if not xs:
        return R.const(math.nan, "f8")
    return np_div(l_sum(xs), R.const(len(xs), "i8"))


def l_var(ddof):
    def f(xs):
        xs = [num(x) for x in xs]
        if not xs:
            return R.const(math.nan, "f8")
        m = l_mean(xs)
        if isinstance(m, C):
            q = l_sum([abs(x - m) ** 2 for x in xs])
        else:
            q = l_sum([(x.wk("f8") - m) ** 2 for x in xs])
        dn = len(xs) - ddof
        dn = R.const(dn if not isinstance(dn, R) else dn, "i8")
        if dn.cval is not None and dn.cval <= 0:
            dn = R.const(0, "i8")
        return np_div(q, dn)
    return f


def l_min(xs):
    if not xs:
        raise ValueError("zero-size array to reduction operation minimum which has no identity")
    s = lift(xs[0])
    if isinstance(s, Bo):
        return bo_and(*[lift(x) for x in xs])
    return order_stat([real(x) for x in xs], 0)


def l_max(xs):
    if not xs:
        raise ValueError("zero-size array to reduction operation maximum which has no identity")
    s = lift(xs[0])
    if isinstance(s, Bo):
        return bo_or(*[lift(x) for x in xs])
    return order_stat([real(x) for x in xs], len(xs) - 1)


def order_stat(xs, k):
    """k-th smallest (0-based) of a list of R, as an interned order-statistic atom."""
    for x in xs:
        if x.sp == "nan":
            return x
    if builtins.any(x.sp for x in xs):
        return sorted_fork(xs)[k]
    kd = xs[0].k
    for x in xs[1:]:
        kd = kind_promote(kd, x.k)
    if len(xs) == 1:
        return xs[0]
    cs = [x for x in xs if x.cval is not None]
    sy = [x for x in xs if x.cval is None]
    if not sy:
        return sorted(xs, key=lambda x: x.cval)[k].wk(kd)
    # structurally identical values
    # drop constants that cannot matter is left to the solver; only min/max of constants merge
    if k == 0 and len(cs) > 1:
        return order_stat(sy + [builtins.min(cs, key=lambda x: x.cval)], 0).wk(kd)
    if k == len(xs) - 1 and len(cs) > 1:
        xs = sy + [builtins.max(cs, key=lambda x: x.cval)]
        return order_stat(xs, len(xs) - 1).wk(kd)
    if k in (0, len(xs) - 1):
        uniq = {}
        for x in xs:
            uniq[tol_key(x)] = x
        if len(uniq) == 1:
            return xs[0]
        if len(uniq) < len(xs):
            xs = list(uniq.values())
            k = 0 if k == 0 else len(xs) - 1
    if CTX.fork and k in (0, len(xs) - 1):
        r = xs[0]
        for x in xs[1:]:
            if bool(x < r) if k == 0 else bool(x > r):
                r = x
        return r.wk(kd)
    ks = sorted(xs, key=tol_key)
    a = CTX.atom("order", tuple(ks), (k, tuple(tol_key(x) for x in ks)))
    a.extra = k
    if all(core.r_struct_nonneg(x, True) for x in ks):
        a.nonneg = True
    if all(x.k in IKINDS for x in ks):
        a.isint = True
    return atom_r(a, kd)


def sorted_fork(xs):
    """fully sorted list, forking on comparisons (insertion sort; NaN last)"""
    nan = [x for x in xs if isinstance(x, R) and x.sp == "nan"]
    out = []
    for x in xs:
        if isinstance(x, R) and x.sp == "nan":
            continue
        lo, hi = 0, len(out)
        while lo < hi:
            mid = (lo + hi) // 2
            if bool(x < out[mid]):
                hi = mid
            else:
                lo = mid + 1
        out.insert(lo, x)
    return out + nan


def argsort_fork(xs, less=None):
    """stable argsort with forking"""
    less = less or (lambda a, b: a < b)
    out = []
    nan = []
    for i, x in enumerate(xs):
        if isinstance(x, R) and x.sp == "nan":
            nan.append(i)
            continue
        lo, hi = 0, len(out)
        while lo < hi:
            mid = (lo + hi) // 2
            if bool(less(x, xs[out[mid]])):
                hi = mid
            else:
                lo = mid + 1
        out.insert(lo, i)
    return out + nan


def l_median(xs):
    xs = [real(x) for x in xs]
    n = len(xs)
    if n == 0:
        return R.const(math.nan, "f8")
    for x in xs:
        if x.sp == "nan":
            return x.wk("f8")
    if n % 2:
        return order_stat(xs, n // 2).wk("f8")
    return ((order_stat(xs, n // 2 - 1) + order_stat(xs, n // 2)) / 2).wk("f8")


def l_quantile(q):
    def f(xs):
        xs = [real(x) for x in xs]
        n = len(xs)
        pos = Fraction(q) * (n - 1)
        i = pos.numerator // pos.denominator
        fr = pos - i
        a = order_stat(xs, i)
        if fr == 0:
            return a.wk("f8")
        b = order_stat(xs, i + 1)
        return (a + (b - a) * R.const(core.norm_c(fr))).wk("f8")
    return f


def nanfilter(xs):
    return [x for x in xs if not (isinstance(num(x), R) and num(x).sp == "nan")]


def conc_num(x):
    """R const / python scalar -> python number"""
    if isinstance(x, R):
        c = x.cval
        if x.sp:
            return float(x.sp)
        if c is None:
            if x.k in IKINDS:
                return x.concretize()
            raise Unsupported("symbolic parameter of a structural function")
        return int(c) if (isinstance(c, int) and x.k in IKINDS) else float(c)
    if isinstance(x, SymArray):
        if x.ndim == 0:
            return conc_num(x[()])
        return x
    if isinstance(x, Bo):
        return bool(x)
    return x


def cshape(s):
    if isinstance(s, (list, tuple, SymArray)):
        return tuple(int(x) for x in s)
    return (s.__index__() if not isinstance(s, int) else s,)


def sym_float(x):
    """builtin float()"""
    if isinstance(x, SymStr):
        if x.num is None:
            raise ValueError("could not convert string to float: %r" % str(x))
        return x.num.wk("pf")
    if isinstance(x, R):
        return x.wk("pf")
    if isinstance(x, Bo):
        return x.as_r().wk("pf")
    if isinstance(x, SymArray):
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return sym_float(x.reshape(-1)[0])
    if isinstance(x, C):
        raise TypeError("float() argument must be a string or a real number, not 'complex'")
    return builtins.float(x)


def sym_int(x, *a):
    if isinstance(x, R):
        if x.sp:
            return builtins.int(builtins.float(x.sp))
        return r_trunc(x).wk("pi")
    if isinstance(x, Bo):
        return x.as_r("pi")
    if isinstance(x, SymArray):
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return sym_int(x.reshape(-1)[0])
    return builtins.int(x, *a)


class _NP:
    """The `numpy` module seen by the code under test."""
    ndarray = np.ndarray
    nan = NaN = NAN = math.nan
    inf = Inf = infty = math.inf
    NINF = -math.inf
    pi = math.pi
    e = math.e
    euler_gamma = 0.5772156649015329
    newaxis = None
    float64 = np.float64
    float32 = np.float32
    int64 = np.int64
    int32 = np.int32
    intp = np.intp
    bool_ = np.bool_
    complex128 = np.complex128
    __version__ = "1.26.4"

    # ------------------------------------------------------------------ creation
    def array(self, obj, dtype=None, copy=True, order=None, subok=False, ndmin=0, like=None):
        k = kind_of_dtype(dtype)
        if isinstance(obj, IdxSet):
            if k in (None, "i8"):
                return obj
            obj = obj.materialize()
        if isinstance(obj, SymArray):
            r = obj.copy()
            if k and k != obj._k:
                r = obj.astype(k)
        elif isinstance(obj, np.ndarray):
            r = wrap(obj, kind_of_dtype(obj.dtype)) if obj.dtype != object else wrap(obj.copy(), "O")
            if k and k != r._k:
                r = r.astype(k)
        elif isinstance(obj, (list, tuple, range)) or hasattr(obj, "__iter__") and not isinstance(obj, (str, R, C, Bo)):
            if not isinstance(obj, (list, tuple, range)):
                if isinstance(obj, (set, dict, map, filter, zip)) or not hasattr(obj, "__len__"):
                    z = np.empty((), dtype=object)
                    z[()] = obj
                    return wrap(z, "O")
            r = self._from_seq(list(obj), k)
        else:
            v = lift(obj)
            kk = k or elem_kind(v)
            z = np.empty((), dtype=object)
            z[()] = cast_scalar(v, kk)
            r = wrap(z, kk)
        if ndmin and r.ndim < ndmin:
            r = wrap(base_of(r).reshape((1,) * (ndmin - r.ndim) + r.shape), r._k)
        return r

    def _from_seq(self, seq, k):
        if not seq:
            return wrap(np.empty((0,), dtype=object), k or "f8")
        subs = []
        nested = False
        for x in seq:
            if isinstance(x, IdxSet):
                x = x.materialize()
            if isinstance(x, (list, tuple, range)) or (isinstance(x, np.ndarray) and x.ndim > 0):
                nested = True
                subs.append(self.array(x))
            elif isinstance(x, np.ndarray):
                subs.append(lift(x[()]))
            else:
                subs.append(lift(x))
        if nested:
            if not all(isinstance(s, SymArray) for s in subs) or len({s.shape for s in subs}) != 1:
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous "
                                 "shape after 1 dimensions.")
            kk = k or promote_list([s._k for s in subs])
            b = np.empty((len(subs),) + subs[0].shape, dtype=object)
            for i, s in enumerate(subs):
                b[i] = cast_value(s, kk) if s.size else b[i]
            return wrap(b, kk)
        kk = k or promote_list([elem_kind(s) for s in subs])
        return from_list([cast_scalar(s, kk) for s in subs], (len(subs),), kk)

    def asarray(self, obj, dtype=None, order=None, **kw):
        if isinstance(obj, IdxSet) and kind_of_dtype(dtype) in (None, "i8"):
            return obj
        if isinstance(obj, SymArray) and (dtype is None or kind_of_dtype(dtype) == obj._k):
            return obj
        return self.array(obj, dtype)

    asanyarray = ascontiguousarray = asfarray = asarray

    def asfarray(self, a, dtype=None):
        return self.asarray(a, dtype or "f8")

    def asarray_chkfinite(self, a, dtype=None):
        a = self.asarray(a, dtype)
        for x in a.reshape(-1):
            if isinstance(x, R) and x.sp:
                raise ValueError("array must not contain infs or NaNs")
        return a

    def copy(self, a, order="K", subok=False):
        return self.array(a)

    def zeros(self, shape, dtype=None, order="C", like=None):
        return self.full(shape, 0, dtype or "f8")

    def ones(self, shape, dtype=None, order="C", like=None):
        return self.full(shape, 1, dtype or "f8")

    def empty(self, shape, dtype=None, order="C", like=None):
        return self.full(shape, 0, dtype or "f8")

    def full(self, shape, fill, dtype=None, order="C", like=None):
        s = cshape(shape)
        if builtins.any(x < 0 for x in s):
            raise ValueError("negative dimensions are not allowed")
        v = lift(fill)
        if isinstance(v, SymArray):
            v = v[()]
        k = kind_of_dtype(dtype) or elem_kind(v)
        b = np.empty(s, dtype=object)
        b[...] = None
        f = b.reshape(-1)
        cv = cast_scalar(v, k)
        for i in range(f.size):
            f[i] = cv
        return wrap(b, k)

    def zeros_like(self, a, dtype=None, order="K", subok=True, shape=None):
        a = self.asarray(a)
        return self.full(a.shape if shape is None else shape, 0, dtype or a._k)

    def ones_like(self, a, dtype=None, order="K", subok=True, shape=None):
        a = self.asarray(a)
        return self.full(a.shape if shape is None else shape, 1, dtype or a._k)

    def empty_like(self, a, dtype=None, order="K", subok=True, shape=None):
        return self.zeros_like(a, dtype, shape=shape)

    def full_like(self, a, fill, dtype=None, order="K", subok=True, shape=None):
        a = self.asarray(a)
        return self.full(a.shape if shape is None else shape, fill, dtype or a._k)

    def arange(self, start=None, stop=None, step=None, dtype=None, like=None):
        if stop is None:
            start, stop = 0, start
        if step is None:
            step = 1
        st, sp, se = num(start), num(stop), num(step)
        k = kind_of_dtype(dtype) or promote_list([elem_kind(st), elem_kind(sp), elem_kind(se)])
        n = r_ceil(core.r_div((sp - st).wk("f8"), se.wk("f8")))
        # numpy computes the length in floating point: ceil((stop - start)/step)
        if n.cval is not None and st.cval is not None and sp.cval is not None and se.cval is not None and isinstance(core.norm_c(Fraction(se.cval)), Fraction):
            n = R.const(math.ceil((float(sp.cval) - float(st.cval)) / float(se.cval)))
        n = builtins.max(0, n.wk("i8").concretize())
        return from_list([cast_scalar(st + se * i, k) for i in range(n)], (n,), k)

    def linspace(self, start, stop, num_=50, endpoint=True, retstep=False, dtype=None, axis=0, **kw):
        if "num" in kw:
            num_ = kw["num"]
        n = num_.__index__()
        a, b = num(start), num(stop)
        if isinstance(a, C) or isinstance(b, C):
            raise Unsupported("complex linspace")
        div = n - 1 if endpoint else n
        step = (b - a).wk("f8") / div if div > 0 else R.const(math.nan)
        vals = [(a + (b - a) * R.const(core.norm_c(Fraction(i, div))) if div > 0 else a).wk("f8") for i in range(n)]
        r = from_list(vals, (n,), "f8")
        return (r, step) if retstep else r

    def logspace(self, a, b, num=50, **k):
        return self.power(10.0, self.linspace(a, b, num))

    def eye(self, n, m=None, k=0, dtype=None, **kw):
        n = int(n)
        m = n if m is None else int(m)
        return wrap(np.eye(n, m, k), kind_of_dtype(dtype) or "f8")

    def identity(self, n, dtype=None):
        return self.eye(n, dtype=dtype)

    def frombuffer(self, *a, **k):
        raise Unsupported("frombuffer")

    def fromiter(self, it, dtype, count=-1):
        return self._from_seq(list(it), kind_of_dtype(dtype))

    def diag(self, v, k=0):
        v = self.asarray(v)
        if v.ndim == 1:
            n = v.size + abs(k)
            r = self.zeros((n, n), v._k)
            for i in range(v.size):
                r[i + (0 if k >= 0 else -k), i + (k if k >= 0 else 0)] = v[i]
            return r
        return wrap(np.diag(base_of(v), k), v._k)

    def diagonal(self, v, *a):
        return wrap(np.diagonal(base_of(self.asarray(v)), *a), self.asarray(v)._k)

    def trace(self, v, *a):
        return self.sum(self.diagonal(v))

    def tri(self, n, m=None, k=0, dtype=float):
        return wrap(np.tri(int(n), m, k), "f8")

    def meshgrid(self, *xs, indexing="xy", **kw):
        arrs = [self.asarray(x) for x in xs]
        res = np.meshgrid(*[base_of(a) for a in arrs], indexing=indexing)
        return [wrap(r.copy(), a._k) for r, a in zip(res, arrs)]

    @property
    def mgrid(self):
        return MGrid()

    def indices(self, dims, dtype=int):
        return wrap(np.indices(tuple(int(d) for d in dims)), "i8")

    # ------------------------------------------------------------------ structure
    def _gen(self, name, arrs, *a, **k):
        arrs = [self.asarray(x) if not isinstance(x, SymArray) else x for x in arrs]
        arrs = [x.materialize() if isinstance(x, IdxSet) else x for x in arrs]
        kk = promote_list([x._k for x in arrs])
        objs = [base_of(x) if x._k == kk else cast_value(x, kk) if x.ndim else np.array(cast_scalar(x[()], kk), dtype=object) for x in arrs]
        return getattr(np, name)(objs, *a, **k), kk

    def concatenate(self, arrs, axis=0, out=None, dtype=None, casting=None):
        if isinstance(arrs, SymArray):
            arrs = list(arrs)
        arrs = list(arrs)
        flat = []
        for x in arrs:
            if isinstance(x, tuple) and axis is None and builtins.any(isinstance(y, IdxSet) for y in x):
                flat.extend(x)
            else:
                flat.append(x)
        arrs = flat
        if arrs and builtins.any(isinstance(x, IdxSet) for x in arrs):
            parts = []
            ok = True
            for x in arrs:
                if isinstance(x, IdxSet):
                    parts += x.parts()
                else:
                    y = self.asarray(x)
                    if y.size == 0:
                        continue
                    if y._k == "i8" and y.ndim == 1 and all(v.cval is not None for v in y):
                        vals = [int(v.cval) for v in y]
                        for v in vals:
                            parts.append({v: TRUE})
                    else:
                        ok = False
            if ok:
                return IdxSet(parts[0], parts[1:]) if parts else self.zeros(0, "i8")
        arrs = [self.asarray(x) for x in arrs]
        arrs = [x.materialize() if isinstance(x, IdxSet) else x for x in arrs]
        if builtins.any(x.ndim == 0 for x in arrs) and axis is not None:
            raise ValueError("zero-dimensional arrays cannot be concatenated")
        if axis is None:
            arrs = [wrap(base_of(x).reshape(-1), x._k) for x in arrs]
            axis = 0
        kk = kind_of_dtype(dtype) or promote_list([x._k for x in arrs])
        objs = [base_of(x) if x._k == kk else emap1(lambda v: cast_scalar(v, kk), x) for x in arrs]
        return wrap(np.concatenate(objs, axis=axis), kk)

    def append(self, arr, values, axis=None):
        if axis is None:
            if isinstance(arr, IdxSet) or isinstance(values, IdxSet):
                return self.concatenate([arr, values])
            a, v = self.asarray(arr), self.asarray(values)
            return self.concatenate([a.reshape(-1), v.reshape(-1)])
        return self.concatenate([self.asarray(arr), self.asarray(values)], axis=axis)

    def hstack(self, tup, **k):
        tup = list(tup)
        if builtins.any(isinstance(x, IdxSet) for x in tup):
            return self.concatenate(tup)
        arrs = [self.atleast_1d(x) for x in tup]
        return self.concatenate(arrs, axis=0 if arrs[0].ndim == 1 else 1)

    def vstack(self, tup, **k):
        return self.concatenate([self.atleast_2d(x) for x in tup], axis=0)

    row_stack = vstack

    def stack(self, arrs, axis=0, **k):
        r, kk = self._gen("stack", list(arrs), axis=axis)
        return wrap(r, kk)

    def column_stack(self, tup):
        cols = []
        for x in tup:
            x = self.asarray(x)
            cols.append(wrap(base_of(x).reshape(-1, 1), x._k) if x.ndim == 1 else x)
        return self.concatenate(cols, axis=1)

    def block(self, a):
        raise Unsupported("block")

    def r_get(self):
        return RClass()

    r_ = property(r_get)
    c_ = property(lambda self: CClass())

    def insert(self, arr, obj, values, axis=None):
        a = self.asarray(arr)
        a = a.materialize() if isinstance(a, IdxSet) else a
        v = self.asarray(values)
        vv = base_of(v) if v.ndim else v[()]
        if isinstance(vv, np.ndarray):
            vv = cast_value(v, a._k)
        else:
            vv = cast_scalar(vv, a._k)
        o = norm_index1(obj if not isinstance(obj, (list,)) else self.asarray(obj))
        b = base_of(a) if axis is not None else base_of(a).reshape(-1)
        if not isinstance(vv, np.ndarray):
            z = np.empty((), dtype=object)
            z[()] = vv
            vv = z
        return wrap(np.insert(b, o, vv, axis=axis), a._k)

    def delete(self, arr, obj, axis=None):
        a = self.asarray(arr)
        a = a.materialize() if isinstance(a, IdxSet) else a
        o = norm_index1(obj if not isinstance(obj, (list,)) else self.asarray(obj))
        if isinstance(o, list) and not o:
            return a.copy()
        b = base_of(a) if axis is not None else base_of(a).reshape(-1)
        return wrap(np.delete(b, o, axis=axis), a._k)

    def atleast_1d(self, *xs):
        if len(xs) > 1:
            return [self.atleast_1d(x) for x in xs]
        a = self.asarray(xs[0])
        return a if a.ndim else wrap(base_of(a).reshape(1), a._k)

    def atleast_2d(self, *xs):
        if len(xs) > 1:
            return [self.atleast_2d(x) for x in xs]
        a = self.asarray(xs[0])
        a = a.materialize() if isinstance(a, IdxSet) else a
        if a.ndim == 0:
            return wrap(base_of(a).reshape(1, 1), a._k)
        if a.ndim == 1:
            return wrap(base_of(a)[None, :], a._k)
        return a

    def reshape(self, a, *shape, **k):
        a = self.asarray(a)
        if "newshape" in k:
            shape = (k["newshape"],)
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return a.reshape(tuple(int(s) for s in shape))

    def _struct(name):
        def f(self, a, *args, **k):
            a = self.asarray(a)
            a = a.materialize() if isinstance(a, IdxSet) else a
            args = tuple(conc_arg(x) for x in args)
            k = {q: conc_arg(x) for q, x in k.items()}
            r = getattr(np, name)(base_of(a), *args, **k)
            if isinstance(r, list):
                return [wrap(x, a._k) for x in r]
            return wrap(r, a._k) if isinstance(r, np.ndarray) else r
        return f

    for _nm in ("ravel", "squeeze", "transpose", "swapaxes", "moveaxis", "flip", "fliplr", "flipud", "roll", "tile",
                "repeat", "expand_dims", "rot90", "broadcast_to", "split", "array_split", "hsplit", "vsplit",
                "resize", "triu", "tril", "rollaxis", "trim_zeros"):
        locals()[_nm] = _struct(_nm)

    def take(self, a, idx, axis=None, **k):
        a = self.asarray(a)
        i = norm_index1(self.asarray(idx))
        r = np.take(base_of(a), i, axis=axis)
        return wrap(r, a._k) if isinstance(r, np.ndarray) else r

    def put(self, a, ind, v, mode="raise"):
        ind = np.atleast_1d(norm_index1(self.asarray(ind)))
        vv = self.asarray(v).reshape(-1)
        f = a.reshape(-1)
        for j, i in enumerate(ind):
            pos = np.unravel_index(int(i) % a.size, a.shape)
            a[tuple(int(p) for p in pos)] = vv[j % vv.size]

    def take_along_axis(self, a, idx, axis):
        return wrap(np.take_along_axis(base_of(self.asarray(a)), norm_index1(idx), axis), a._k)

    def pad(self, a, pad_width, mode="constant", **k):
        a = self.asarray(a)
        if mode == "constant":
            cv = k.get("constant_values", 0)
            pw = pad_width
            if isinstance(pw, R):
                pw = int(pw)
            if isinstance(pw, (tuple, list)):
                pw = tuple(tuple(int(q) for q in p) if isinstance(p, (tuple, list)) else int(p) for p in pw)
            if isinstance(cv, (tuple, list)):
                cvs = [cast_scalar(c, a._k) for c in cv]
            else:
                cvs = [cast_scalar(cv, a._k)] * 2
            if a.ndim != 1:
                raise Unsupported("pad nd")
            l, r = (pw, pw) if isinstance(pw, int) else (pw if len(pw) == 2 and isinstance(pw[0], int) else pw[0] if not isinstance(pw[0], int) else (pw[0], pw[0]))
            return from_list([cvs[0]] * l + list(a) + [cvs[1]] * r, (l + a.size + r,), a._k)
        pw = pad_width
        return wrap(np.pad(base_of(a), pw, mode=mode, **k), a._k)

    def broadcast_arrays(self, *xs):
        arrs = [self.asarray(x) for x in xs]
        return [wrap(b, a._k) for b, a in zip(np.broadcast_arrays(*[base_of(a) for a in arrs]), arrs)]

    def shape(self, a):
        return self.asarray(a).shape

    def size(self, a, axis=None):
        if isinstance(a, IdxSet):
            return a.count()
        a = self.asarray(a)
        return a.size if axis is None else a.shape[axis]

    def ndim(self, a):
        return self.asarray(a).ndim

    def isscalar(self, x):
        return isinstance(x, (R, C, Bo, str)) or np.isscalar(x)

    def iscomplexobj(self, x):
        return self.asarray(x)._k == "c16"

    def isrealobj(self, x):
        return not self.iscomplexobj(x)

    def may_share_memory(self, a, b, *k):
        return np.may_share_memory(base_of(a), base_of(b))

    shares_memory = may_share_memory

    # ------------------------------------------------------------------ reductions
    def sum(self, a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
        if isinstance(a, IdxSet):
            a = a.materialize()
        if where is not None:
            a = self.where(where, a, 0)
        if not isinstance(a, (np.ndarray, list, tuple, R, C, Bo, int, float, complex)) and hasattr(a, "__next__"):
            return builtins.sum(a)
        a = self.asarray(a)
        if a._k == "s":
            raise TypeError("ufunc 'add' did not contain a loop with signature matching types (dtype('<U32'), "
                            "dtype('<U32')) -> None")
        if a._k == "b1":
            a = a.astype("i8")
        if dtype is not None:
            a = a.astype(dtype)
        if axis is None and a.size == 0:
            return R.const(0, a._k if a._k != "b1" else "i8")
        r = axis_reduce(l_sum, a, axis, keepdims, None)
        if initial is not None:
            r = r + initial
        return r

    def nansum(self, a, axis=None, **k):
        return axis_reduce(lambda xs: l_sum(nanfilter(xs)), a, axis)

    def prod(self, a, axis=None, dtype=None, out=None, keepdims=False, **k):
        return axis_reduce(l_prod, a, axis, keepdims)

    product = prod

    def _chk(self, a):
        a = self.asarray(a)
        a = a.materialize() if isinstance(a, IdxSet) else a
        if a._k == "s":
            raise TypeError("cannot perform reduce with flexible type")
        return a

    def mean(self, a, axis=None, dtype=None, out=None, keepdims=False, where=None):
        a = self._chk(a)
        if where is not None:
            raise Unsupported("mean where")
        return axis_reduce(l_mean, a, axis, keepdims)

    def nanmean(self, a, axis=None, **k):
        return axis_reduce(lambda xs: l_mean(nanfilter(xs)), self._chk(a), axis)

    def average(self, a, axis=None, weights=None, returned=False, **k):
        if weights is None:
            return self.mean(a, axis)
        a = self.asarray(a)
        w = self.asarray(weights)
        if axis is None and a.shape != w.shape:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        if a.ndim != 1:
            raise Unsupported("average nd")
        sw = self.sum(w)
        if sw.cval == 0:
            raise ZeroDivisionError("Weights sum to zero, can't be normalized")
        r = self.sum(a * w) / sw.wk("f8")
        return (r, sw) if returned else r

    def var(self, a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return axis_reduce(l_var(ddof), self._chk(a), axis, keepdims)

    def std(self, a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        v = l_var(ddof)
        return axis_reduce(lambda xs: r_sqrt(v(xs)), self._chk(a), axis, keepdims)

    def nanvar(self, a, axis=None, dtype=None, out=None, ddof=0, **k):
        v = l_var(ddof)
        return axis_reduce(lambda xs: v(nanfilter(xs)), self._chk(a), axis)

    def nanstd(self, a, axis=None, dtype=None, out=None, ddof=0, **k):
        v = l_var(ddof)
        return axis_reduce(lambda xs: r_sqrt(v(nanfilter(xs))), self._chk(a), axis)

    def median(self, a, axis=None, out=None, overwrite_input=False, keepdims=False):
        return axis_reduce(l_median, self._chk(a), axis, keepdims)

    def nanmedian(self, a, axis=None, **k):
        return axis_reduce(lambda xs: l_median(nanfilter(xs)), self._chk(a), axis)

    def quantile(self, a, q, axis=None, **k):
        qs = self.asarray(q)
        if qs.ndim == 0:
            return axis_reduce(l_quantile(qs[()].cval), self._chk(a), axis)
        return self.array([axis_reduce(l_quantile(x.cval), self._chk(a), axis) for x in qs])

    def percentile(self, a, q, axis=None, **k):
        return self.quantile(a, self.asarray(q) / 100, axis, **k)

    def min(self, a, axis=None, out=None, keepdims=False, **k):
        a = self._chk(a)
        return axis_reduce(l_min, a, axis, keepdims)

    def max(self, a, axis=None, out=None, keepdims=False, **k):
        a = self._chk(a)
        return axis_reduce(l_max, a, axis, keepdims)

    amin = min
    amax = max

    def nanmin(self, a, axis=None, **k):
        return axis_reduce(lambda xs: l_min(nanfilter(xs)), self._chk(a), axis)

    def nanmax(self, a, axis=None, **k):
        return axis_reduce(lambda xs: l_max(nanfilter(xs)), self._chk(a), axis)

    def ptp(self, a, axis=None, **k):
        return self.max(a, axis) - self.min(a, axis)

    def any(self, a, axis=None, out=None, keepdims=False, **k):
        return axis_reduce(lambda xs: bo_or(*[to_bo(lift(x)) for x in xs]), self.asarray(a), axis, keepdims, "b1")

    def all(self, a, axis=None, out=None, keepdims=False, **k):
        return axis_reduce(lambda xs: bo_and(*[to_bo(lift(x)) for x in xs]), self.asarray(a), axis, keepdims, "b1")

    sometrue = any
    alltrue = all

    def count_nonzero(self, a, axis=None, **k):
        if isinstance(a, IdxSet):
            a = a.materialize()
        return axis_reduce(lambda xs: l_sum([to_bo(lift(x)).as_r("i8") for x in xs] or [R.const(0, "i8")]).wk("i8"),
                           self.asarray(a), axis)

    def _arg(self, xs, better, top=None):
        if not xs:
            raise ValueError("attempt to get argmax of an empty sequence")
        xs = [num(x) for x in xs]
        for i, x in enumerate(xs):
            if isinstance(x, R) and x.sp == "nan":
                return R.const(i, "i8")
        if top is not None and len(xs) > 2 and not CTX.fork and CTX.path and builtins.all(isinstance(x, R) and not x.sp for x in xs):
            m = order_stat(xs, len(xs) - 1 if top else 0)
            for i, x in enumerate(xs):          # the extreme value already has a place on this path
                c = x == m
                v = c.v if c.v is not None else CTX.path.known(c)
                if v is None and len(xs) >= 8:
                    v = bool(c)
                if v is None:
                    break
                if v:
                    return R.const(i, "i8")
        b = 0
        for i in range(1, len(xs)):
            if bool(better(xs[i], xs[b])):
                b = i
        return R.const(b, "i8")

    def argmax(self, a, axis=None, out=None, **k):
        return axis_reduce(lambda xs: self._arg(xs, lambda x, y: x > y, True), self.asarray(a), axis)

    def argmin(self, a, axis=None, out=None, **k):
        return axis_reduce(lambda xs: self._arg(xs, lambda x, y: x < y, False), self.asarray(a), axis)

    def nanargmax(self, a, axis=None):
        a = self.asarray(a)
        idx = [i for i, x in enumerate(a) if not x.sp == "nan"]
        return R.const(idx[int(self._arg([a[i] for i in idx], lambda x, y: x > y))], "i8")

    def nanargmin(self, a, axis=None):
        a = self.asarray(a)
        idx = [i for i, x in enumerate(a) if not x.sp == "nan"]
        return R.const(idx[int(self._arg([a[i] for i in idx], lambda x, y: x < y))], "i8")

    def _cum(self, a, axis, f, k=None):
        a = self.asarray(a)
        if axis is None:
            a = a.reshape(-1)
            axis = 0
        kk = a._k if a._k != "b1" else "i8"
        b = np.moveaxis(base_of(a), int(axis), -1).copy()
        rows = b.reshape(-1, b.shape[-1]) if b.size else b
        for r in rows:
            acc = None
            for i in range(len(r)):
                v = num(r[i])
                acc = v if acc is None else f(acc, v)
                r[i] = acc
        return wrap(np.moveaxis(rows.reshape(b.shape), -1, int(axis)), kk)

    def cumsum(self, a, axis=None, dtype=None, out=None):
        return self._cum(a, axis, lambda x, y: x + y)

    def cumprod(self, a, axis=None, dtype=None, out=None):
        return self._cum(a, axis, lambda x, y: x * y)

    def diff(self, a, n=1, axis=-1, prepend=None, append=None):
        a = self.asarray(a)
        a = a.materialize() if isinstance(a, IdxSet) else a
        if a.ndim == 0:
            raise ValueError("diff requires input that is at least one dimensional")
        if prepend is not None or append is not None:
            parts = []
            if prepend is not None:
                parts.append(self.atleast_1d(prepend))
            parts.append(a)
            if append is not None:
                parts.append(self.atleast_1d(append))
            a = self.concatenate(parts, axis=axis)
        for _ in range(int(n)):
            b = np.moveaxis(base_of(a), axis, -1)
            hi, lo = b[..., 1:], b[..., :-1]
            op = "not_equal" if a._k == "b1" else "subtract"
            r = apply_ew(op, BIN[op], (wrap(hi, a._k), wrap(lo, a._k)))
            a = wrap(np.moveaxis(base_of(r), -1, axis), r._k)
        return a

    def ediff1d(self, a, to_end=None, to_begin=None):
        r = self.diff(self.asarray(a).reshape(-1))
        if to_begin is not None:
            r = self.append(to_begin, r)
        if to_end is not None:
            r = self.append(r, to_end)
        return r

    def gradient(self, f, *varargs, axis=None, edge_order=1):
        f = self.asarray(f)
        if f.ndim != 1:
            raise Unsupported("gradient nd")
        n = f.size
        if n < edge_order + 1:
            raise ValueError("Shape of array too small to calculate a numerical gradient, at least (edge_order + 1) "
                             "elements are required.")
        f = f.astype("f8") if f._k != "f8" else f
        h = R.const(1, "pi")
        if varargs:
            h = varargs[0]
            if isinstance(h, (SymArray, list)):
                raise Unsupported("gradient coordinates")
        out = []
        for i in range(n):
            if i == 0:
                v = (f[1] - f[0]) / h if edge_order == 1 else (f[1] * 4 - f[0] * 3 - f[2]) / (num(h) * 2)
            elif i == n - 1:
                v = (f[n - 1] - f[n - 2]) / h if edge_order == 1 else (f[n - 1] * 3 - f[n - 2] * 4 + f[n - 3]) / (num(h) * 2)
            else:
                v = (f[i + 1] - f[i - 1]) / (num(h) * 2)
            out.append(v.wk("f8"))
        return from_list(out, (n,), "f8")

    # ------------------------------------------------------------------ sorting / searching
    def sort(self, a, axis=-1, kind=None, order=None, **k):
        if isinstance(a, IdxSet):
            if not a.dup:
                return a
            a = a.materialize()
        a = self.asarray(a)
        if axis is None:
            a = a.reshape(-1)
            axis = 0

        def f(xs):
            if xs and isinstance(xs[0], C):
                return [xs[i] for i in argsort_fork(xs, cmpf("<"))]
            if xs and isinstance(xs[0], Bo):
                return [x for x in sorted_fork([b.as_r() for b in xs])]
            xs = [real(x) for x in xs]
            if all(not x.sp for x in xs):
                return [order_stat(xs, i).wk(xs[i].k) for i in range(len(xs))]
            return sorted_fork(xs)
        b = np.moveaxis(base_of(a), int(axis), -1)
        out = np.empty(b.shape, dtype=object)
        for pos in np.ndindex(*b.shape[:-1]):
            v = f(list(b[pos]))
            for i, x in enumerate(v):
                out[pos + (i,)] = x
        return wrap(np.moveaxis(out, -1, int(axis)), a._k)

    def sort_complex(self, a):
        a = self.asarray(a)
        xs = [C.of(x) for x in a]
        o = argsort_fork(xs, cmpf("<"))
        return from_list([xs[i] for i in o], (len(o),), "c16")

    def argsort(self, a, axis=-1, kind=None, order=None, **k):
        a = self.asarray(a)
        if a.ndim != 1:
            raise Unsupported("argsort nd")
        xs = list(a)
        o = argsort_fork(xs, cmpf("<") if a._k == "c16" else None)
        return from_list([R.const(i, "i8") for i in o], (len(o),), "i8")

    def lexsort(self, keys, axis=-1):
        keys = [list(self.asarray(k)) for k in keys]
        n = len(keys[0])

        def less(i, j):
            for k in reversed(keys):
                if bool(k[i] < k[j]):
                    return True
                if bool(k[i] > k[j]):
                    return False
            return False
        out = []
        for i in range(n):
            lo, hi = 0, len(out)
            while lo < hi:
                mid = (lo + hi) // 2
                if less(i, out[mid]):
                    hi = mid
                else:
                    lo = mid + 1
            out.insert(lo, i)
        return from_list([R.const(i, "i8") for i in out], (n,), "i8")

    @staticmethod
    def _unsorted(n, kth):
        """positions in sorted order that a partition may show: only the kth are in place; the stretches
        between them come in descending order, so that code that relies on more is noticed"""
        ks = sorted(set(int(t) % n for t in np.ravel([q.concretize() if isinstance(q, R) else q for q in
                                                      (list(kth) if isinstance(kth, (list, tuple, SymArray)) else [kth])])))
        out, lo = [], 0
        for t in ks + [n]:
            out += list(range(t - 1, lo - 1, -1)) + ([t] if t < n else [])
            lo = t + 1
        return out

    def partition(self, a, kth, axis=-1, **k):
        s = self.sort(a, axis)
        return s[self._unsorted(s.size, kth)] if s.ndim == 1 and s.size else s

    def argpartition(self, a, kth, axis=-1, **k):
        s = self.argsort(a, axis)
        return s[self._unsorted(s.size, kth)] if s.ndim == 1 and s.size else s

    def unique(self, a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
        if isinstance(a, IdxSet):
            if not (return_index or return_inverse or return_counts):
                return a.union()
            a = a.materialize()
        a = self.asarray(a).reshape(-1)
        if a._k == "s" or a._k == "O":
            raise Unsupported("unique of strings")
        xs = list(a)
        if a._k == "c16":
            raise Unsupported("unique complex")
        o = argsort_fork(xs)
        groups = []
        for i in o:
            if groups and bool(xs[groups[-1][0]] == xs[i]):
                groups[-1].append(i)
            elif groups and xs[i].sp == "nan" and xs[groups[-1][0]].sp == "nan":
                groups[-1].append(i)
            else:
                groups.append([i])
        u = from_list([xs[g[0]] for g in groups], (len(groups),), a._k)
        if not (return_index or return_inverse or return_counts):
            return u
        res = [u]
        if return_index:
            res.append(from_list([R.const(builtins.min(g), "i8") for g in groups], (len(groups),), "i8"))
        if return_inverse:
            inv = [None] * len(xs)
            for gi, g in enumerate(groups):
                for i in g:
                    inv[i] = R.const(gi, "i8")
            res.append(from_list(inv, (len(inv),), "i8"))
        if return_counts:
            res.append(from_list([R.const(len(g), "i8") for g in groups], (len(groups),), "i8"))
        return tuple(res)

    def _nz(self, a):
        a = self.asarray(a)
        a = a.materialize() if isinstance(a, IdxSet) else a
        return a, [to_bo(lift(x)) for x in base_of(a).reshape(-1).tolist()]

    def nonzero(self, a):
        a, bs = self._nz(a)
        if a.ndim == 0:
            raise ValueError("Calling nonzero on 0d arrays is not allowed.")
        if a.ndim == 1:
            if all(b.v is not None for b in bs):
                return (from_list([R.const(i, "i8") for i, b in enumerate(bs) if b.v], (-1,), "i8"),)
            return (IdxSet({i: b for i, b in enumerate(bs)}),)
        cols = [[] for _ in range(a.ndim)]
        for pos, b in zip(np.ndindex(*a.shape), bs):
            if bool(b):
                for d, p in enumerate(pos):
                    cols[d].append(R.const(p, "i8"))
        return tuple(from_list(c, (len(c),), "i8") for c in cols)

    def flatnonzero(self, a):
        return self.nonzero(self.asarray(a).reshape(-1))[0]

    def argwhere(self, a):
        r = self.nonzero(a)
        r = [x.materialize() if isinstance(x, IdxSet) else x for x in r]
        return self.column_stack(r) if r[0].size else self.zeros((0, len(r)), "i8")

    def where(self, cond, *xy):
        if not xy:
            return self.nonzero(cond)
        x, y = xy
        if builtins.any(isarr(v) or isinstance(v, (list, tuple)) for v in (cond, x, y)):
            c = self.asarray(cond)
            x = self.asarray(x) if isinstance(x, (list, tuple, np.ndarray)) else x
            y = self.asarray(y) if isinstance(y, (list, tuple, np.ndarray)) else y
            k = res_kind("where", [x, y])
            return apply_ew3(lambda cc, a, b: cast_scalar(r_ite(to_bo(lift(cc)), lift(a), lift(b)), k), (c, x, y), k)
        # numpy returns a 0-d array
        r = r_ite(to_bo(lift(cond)), num(x), num(y))
        z = np.empty((), dtype=object)
        k = res_kind("where", [x, y])
        z[()] = cast_scalar(r, k)
        return wrap(z, k)

    def select(self, conds, choices, default=0):
        r = default
        for c, v in reversed(list(zip(conds, choices))):
            r = self.where(c, v, r)
        return r

    def piecewise(self, x, conds, funcs, *a, **k):
        x = self.asarray(x)
        out = self.zeros_like(x)
        if len(funcs) == len(conds) + 1:
            rest = self.asarray(conds[0])
            for c in conds[1:]:
                rest = self.logical_or(rest, c)
            conds = list(conds) + [self.logical_not(rest)]
        for c, f in zip(conds, funcs):
            v = f(x, *a, **k) if callable(f) else f
            out = self.where(c, v, out)
        return out

    def extract(self, c, a):
        a = self.asarray(a).reshape(-1)
        return a[self.asarray(c).reshape(-1).astype("b1")]

    def compress(self, c, a, axis=None, out=None):
        a = self.asarray(a)
        if axis is None and a.ndim != 1:
            a = a.reshape(-1)
        c = self.asarray(c).astype("b1")
        n = c.size
        return a[:n][c] if n < a.shape[0] else a[c]

    def place(self, a, mask, vals):
        vals = self.asarray(vals).reshape(-1)
        if vals.size == 1:
            a[self.asarray(mask)] = vals[0]
        else:
            raise Unsupported("place")

    def putmask(self, a, mask, vals):
        v = self.asarray(vals)
        if v.ndim == 0:
            a[self.asarray(mask)] = v[()]
        else:
            a[...] = self.where(mask, v, a)

    def copyto(self, dst, src, casting="same_kind", where=True):
        if where is True:
            dst[...] = src
        else:
            dst[...] = self.where(where, src, dst)

    def _setop(self, a, b, f):
        def tomap(x):
            if isinstance(x, IdxSet):
                return x.union().m
            x = self.asarray(x).reshape(-1)
            if x.size == 0:
                return {}
            if x._k != "i8":
                return None
            if not all(v.cval is not None for v in x):
                return None
            return {int(v.cval): TRUE for v in x}
        ma, mb = tomap(a), tomap(b)
        if ma is None or mb is None:
            return None
        r = IdxSet(f(ma, mb))
        if r.is_const():
            return r.materialize()
        return r

    def intersect1d(self, a, b, assume_unique=False, return_indices=False):
        if return_indices:
            raise Unsupported("intersect1d indices")
        r = self._setop(a, b, lambda x, y: {i: bo_and(x[i], y[i]) for i in x if i in y})
        if r is not None:
            return r
        xa, xb = list(self.unique(a)), list(self.unique(b))
        return self._from_seq([x for x in xa if builtins.any(bool(x == y) for y in xb)], self.asarray(a)._k)

    def union1d(self, a, b):
        r = self._setop(a, b, lambda x, y: {i: bo_or(x.get(i, FALSE), y.get(i, FALSE)) for i in set(x) | set(y)})
        if r is not None:
            return r
        return self.unique(self.concatenate([self.asarray(a).reshape(-1), self.asarray(b).reshape(-1)]))

    def setdiff1d(self, a, b, assume_unique=False):
        r = self._setop(a, b, lambda x, y: {i: bo_and(x[i], bo_not(y.get(i, FALSE))) for i in x})
        if r is not None:
            return r
        raise Unsupported("setdiff1d")

    def setxor1d(self, a, b, assume_unique=False):
        r = self._setop(a, b, lambda x, y: {i: bo_not(core.bo_iff(x.get(i, FALSE), y.get(i, FALSE)))
                                            for i in set(x) | set(y)})
        if r is not None:
            return r
        raise Unsupported("setxor1d")

    def isin(self, el, test, assume_unique=False, invert=False, **k):
        el = self.asarray(el)
        el = el.materialize() if isinstance(el, IdxSet) else el
        if isinstance(test, IdxSet):
            u = test.union()

            def f(x):
                if x.cval is None:
                    return bool(x in u)
                b = u.m.get(int(x.cval), FALSE)
                return bo_not(b) if invert else b
            return wrap(emap1(f, el), "b1")
        t = list(self.asarray(test).reshape(-1))

        def g(x):
            b = bo_or(*[eqf(x, y) for y in t]) if t else FALSE
            return bo_not(b) if invert else b
        return wrap(emap1(g, el), "b1")

    in1d = isin

    def searchsorted(self, a, v, side="left", sorter=None):
        xs = list(self.asarray(a))
        va = self.asarray(v)

        def f(x):
            s = R.const(0, "i8")
            for y in xs:
                s = s + to_bo((y < x) if side == "left" else (y <= x)).as_r("i8")
            return s.wk("i8")
        r = wrap(emap1(f, va), "i8")
        return r if va.ndim else r[()]

    def digitize(self, x, bins, right=False):
        b = self.asarray(bins)
        # increasing bins only
        bs = list(b)
        if len(bs) > 1 and bool(bs[0] > bs[-1]):
            raise Unsupported("decreasing bins")
        return self.searchsorted(b, x, side="left" if bool(right) else "right")

    def bincount(self, x, weights=None, minlength=0):
        idx = [int(i) for i in np.atleast_1d(norm_index1(self.asarray(x)))]
        n = builtins.max([minlength] + [i + 1 for i in idx])
        r = self.zeros(n, "f8" if weights is not None else "i8")
        w = self.asarray(weights) if weights is not None else None
        for j, i in enumerate(idx):
            r[i] = r[i] + (w[j] if w is not None else 1)
        return r

    def interp(self, x, xp, fp, left=None, right=None, period=None):
        xa = self.asarray(x)
        xs = list(self.asarray(xp))
        fs = list(self.asarray(fp))
        if not xs:
            raise ValueError("array of sample points is empty")
        if not all(v.cval is not None for v in xs):
            raise Unsupported("interp with symbolic nodes")

        def f(v):
            if v.cval is None:
                raise Unsupported("interp at symbolic point")
            c = v.cval
            if c < xs[0].cval:
                return num(left) if left is not None else fs[0].wk("f8")
            if c > xs[-1].cval:
                return num(right) if right is not None else fs[-1].wk("f8")
            for j in range(len(xs) - 1):
                if xs[j].cval <= c <= xs[j + 1].cval:
                    if xs[j + 1].cval == xs[j].cval:
                        continue
                    t = Fraction(c - xs[j].cval) / Fraction(xs[j + 1].cval - xs[j].cval)
                    return (fs[j] + (fs[j + 1] - fs[j]) * R.const(core.norm_c(t))).wk("f8")
            return fs[-1].wk("f8")
        if xa.ndim == 0:
            return f(xa[()])
        return wrap(emap1(f, xa), "f8")

    # ------------------------------------------------------------------ rounding etc
    def around(self, a, decimals=0, out=None):
        d = int(conc_num(lift(decimals)))

        def f(x):
            x = num(x)
            if isinstance(x, C):
                return C(r_round(x.re, d), r_round(x.im, d))
            return r_round(x, d)
        if not isarr(a) and not isinstance(a, (list, tuple)):
            r = f(a)
            return r.wk(NPK.get(r.k, r.k)) if isinstance(r, R) else r
        a = self.asarray(a)
        if a.ndim == 0:
            return f(a[()])
        r = wrap(emap1(f, a), a._k)
        if out is not None:
            out[...] = r
            return out
        return r

    round = round_ = around

    def fix(self, x):
        return self.trunc(x)

    def clip(self, a, a_min=None, a_max=None, out=None, **k):
        a_min = k.get("min", a_min)
        a_max = k.get("max", a_max)
        r = a
        if a_min is not None:
            r = self.maximum(r, a_min)
        if a_max is not None:
            r = self.minimum(r, a_max)
        if out is not None:
            out[...] = r
            return out
        return r

    def nan_to_num(self, x, copy=True, nan=0.0, posinf=None, neginf=None):
        def f(v):
            if v.sp == "nan":
                return cast_scalar(nan, v.k)
            if v.sp:
                return cast_scalar(posinf if v.sp == "inf" else neginf, v.k)
            return v
        if isarr(x):
            r = wrap(emap1(f, self.asarray(x)), x._k)
            if not copy:
                x[...] = r
                return x
            return r
        return f(num(x))

    def real(self, a):
        if isarr(a):
            return self.asarray(a).real
        return num(a).real

    def imag(self, a):
        if isarr(a):
            return self.asarray(a).imag
        return num(a).imag

    def angle(self, z, deg=False):
        z = C.of(num(z))
        return r_atan2(z.im, z.re)

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        def f(x, y):
            x, y = num(x), num(y)
            if isinstance(x, C) or isinstance(y, C):
                return abs(C.of(x) - C.of(y)) <= R.const(atol) + R.const(rtol) * abs(C.of(y))
            if x.sp or y.sp:
                return Bo.const(x.sp == y.sp and (x.sp != "nan" or equal_nan))
            return r_abs(x - y) <= R.const(atol) + R.const(rtol) * r_abs(y)
        return apply_ew("equal", f, (a, b))

    def allclose(self, a, b, **k):
        return bool(self.all(self.isclose(a, b, **k)))

    def array_equal(self, a, b, equal_nan=False):
        a, b = self.asarray(a), self.asarray(b)
        if a.shape != b.shape:
            return False
        return bool(self.all(self.equal(a, b)))

    def array_equiv(self, a, b):
        return self.array_equal(a, b)

    # ------------------------------------------------------------------ linear algebra
    def dot(self, a, b, out=None):
        if not isarr(a) and not isinstance(a, (list, tuple)) or not isarr(b) and not isinstance(b, (list, tuple)):
            return self.multiply(a, b)
        a, b = self.asarray(a), self.asarray(b)
        if a.ndim == 0 or b.ndim == 0:
            return self.multiply(a, b)
        if a.ndim == 1 and b.ndim == 1:
            if a.size != b.size:
                raise ValueError("shapes (%d,) and (%d,) not aligned: %d (dim 0) != %d (dim 0)" % (a.size, b.size, a.size, b.size))
            return l_dot(list(a), list(b))
        if b.ndim == 1:
            if a.shape[-1] != b.size:
                raise ValueError("shapes not aligned")
            return axis_reduce(lambda xs: l_dot(xs, list(b)), a, -1)
        if a.shape[-1] != b.shape[-2]:
            raise ValueError("shapes not aligned")
        if a.ndim <= 2 and b.ndim == 2:
            A = base_of(a).reshape(-1, a.shape[-1])
            B = base_of(b)
            k = kind_promote(a._k, b._k)
            out_ = np.empty((A.shape[0], B.shape[1]), dtype=object)
            cols = [list(B[:, j]) for j in range(B.shape[1])]
            for i in range(A.shape[0]):
                row = list(A[i])
                for j, c in enumerate(cols):
                    out_[i, j] = cast_scalar(l_dot(row, c), k)
            r = wrap(out_, k)
            return r if a.ndim == 2 else r[0]
        raise Unsupported("dot nd")

    def matmul(self, a, b, **k):
        a, b = self.asarray(a), self.asarray(b)
        if a.ndim == 0 or b.ndim == 0:
            raise ValueError("matmul: Input operand 0 does not have enough dimensions")
        if (a.shape[-1] != b.shape[-2 if b.ndim > 1 else 0]):
            raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
        if a.shape[-1] == 0 and a.ndim <= 2 and b.ndim <= 2:
            z = self.zeros(a.shape[:-1] + (b.shape[1:] if b.ndim == 2 else ()))
            return z if z.ndim else z[()]
        return self.dot(a, b)

    def inner(self, a, b):
        return self.dot(a, b)

    def vdot(self, a, b):
        return self.dot(self.conj(self.asarray(a).reshape(-1)), self.asarray(b).reshape(-1))

    def outer(self, a, b, out=None):
        a, b = self.asarray(a).reshape(-1), self.asarray(b).reshape(-1)
        return self.multiply(a.reshape(-1, 1), b.reshape(1, -1))

    def kron(self, a, b):
        raise Unsupported("kron")

    def einsum(self, sub, *ops, **k):
        sub = sub.replace(" ", "")
        ops = [self.asarray(o) for o in ops]
        ins, out = (sub.split("->") + [None])[:2]
        terms = ins.split(",")
        if out is None:
            al = "".join(terms)
            out = "".join(sorted(c for c in set(al) if al.count(c) == 1))
        dims = {}
        for t, o in zip(terms, ops):
            for c, d in zip(t, o.shape):
                dims[c] = d
        summed = [c for c in dims if c not in out]
        res = np.empty(tuple(dims[c] for c in out), dtype=object)
        for pos in np.ndindex(*res.shape):
            env = dict(zip(out, pos))
            acc = []
            for sp in np.ndindex(*[dims[c] for c in summed]):
                env.update(zip(summed, sp))
                v = None
                for t, o in zip(terms, ops):
                    x = np.ndarray.__getitem__(o, tuple(env[c] for c in t))
                    v = x if v is None else v * x
                acc.append(v)
            res[pos] = l_sum(acc)
        if res.ndim == 0:
            return res[()]
        return wrap(res, promote_list([o._k for o in ops]))

    def tensordot(self, a, b, axes=2):
        a, b = self.asarray(a), self.asarray(b)
        if axes == 1:
            return self.dot(a, b)
        raise Unsupported("tensordot")

    def convolve(self, a, v, mode="full"):
        a, v = list(self.asarray(a)), list(self.asarray(v))
        if not a or not v:
            raise ValueError("a cannot be empty")
        if len(v) > len(a):
            a, v = v, a
        n, m = len(a), len(v)
        full = []
        for i in range(n + m - 1):
            full.append(l_sum([num(a[j]) * num(v[i - j]) for j in range(builtins.max(0, i - m + 1), builtins.min(n, i + 1))]))
        if mode == "same":
            s = (m - 1) // 2
            full = full[s:s + n]
        elif mode == "valid":
            full = full[m - 1:n]
        return self._from_seq(full, None)

    def correlate(self, a, v, mode="valid"):
        v = self.asarray(v)
        return self.convolve(a, self.conj(v)[::-1], mode)

    def cov(self, m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, dtype=None):
        X = self.array(m, ndmin=2)
        if not rowvar and X.shape[0] != 1:
            X = X.T
        if y is not None:
            X = self.vstack([X, self.array(y, ndmin=2)])
        if fweights is not None:
            raise Unsupported("fweights")
        if ddof is None:
            ddof = 0 if bias else 1
        n = X.shape[1]
        if aweights is None:
            avg = [l_mean(list(r)) for r in X]
            w = [R.const(1)] * n
            fact = R.const(n - int(ddof), "f8")
        else:
            w = list(self.asarray(aweights))
            ws = l_sum(w)
            avg = [l_sum([a * b for a, b in zip(r, w)]) / ws for r in X]
            if ddof == 0:
                fact = ws
            else:
                fact = ws - R.const(int(ddof)) * l_sum([a * a for a in w]) / ws
        rows = []
        for i in range(X.shape[0]):
            row = []
            for j in range(X.shape[0]):
                s = l_sum([(X[i, t] - avg[i]) * w[t] * (X[j, t] - avg[j]) for t in range(n)])
                row.append(np_div(s, fact))
            rows.append(row)
        return self.array(rows).squeeze()

    def corrcoef(self, x, y=None, rowvar=True, **k):
        c = self.cov(x, y, rowvar)
        d = [r_sqrt(c[i, i]) for i in range(c.shape[0])]
        return self.array([[c[i, j] / d[i] / d[j] for j in range(len(d))] for i in range(len(d))])

    def poly(self, seq):
        seq = self.atleast_1d(seq)
        if seq.ndim == 2:
            raise Unsupported("poly of a matrix")
        n = seq.size
        if n == 0:
            return R.const(1.0, "f8")
        a = [R.const(1.0, "f8")]
        zs = [num(z) for z in seq]
        cpx = seq._k == "c16"
        for z in zs:
            a = [(a[i] if i < len(a) else R.const(0.0, "f8")) - (z * a[i - 1] if i > 0 else R.const(0.0, "f8"))
                 for i in range(len(a) + 1)]
        if cpx:
            r = from_list([C.of(x) for x in a], (n + 1,), "c16")
            # numpy: real coefficients when the roots are complex conjugate pairs
            nn = self.sort(seq)
            if bool(self.all(self.equal(nn, self.sort(seq.conjugate())))):
                return r.real.copy()
            return r
        return from_list([x.wk("f8") for x in a], (n + 1,), "f8")

    def polyval(self, p, x):
        p = self.asarray(p)
        y = self.zeros_like(x) if isarr(x) else R.const(0, "f8")
        for c in p:
            y = y * x + c
        return y

    def polyfit(self, x, y, deg, **k):
        w = [core.Fraction(v.cval) for v in self.asarray(x).astype("f8")]
        return ls_poly(w, list(self.asarray(y)), int(deg), self)

    def roots(self, p):
        raise Unsupported("roots")

    def trapz(self, y, x=None, dx=1.0, axis=-1):
        y = self.asarray(y)
        if y.ndim != 1:
            raise Unsupported("trapz nd")
        if x is not None:
            d = list(self.diff(self.asarray(x)))
        else:
            d = [num(dx)] * (y.size - 1)
        return l_sum([d[i] * (y[i] + y[i + 1]) / 2 for i in range(y.size - 1)])

    def cross(self, *a, **k):
        raise Unsupported("cross")

    def vectorize(self, f, otypes=None, **k):
        def g(*args):
            anyarr = builtins.any(isarr(x) or isinstance(x, (list, tuple)) for x in args)
            if not anyarr:
                return f(*args)
            arrs = np.broadcast_arrays(*[arr_obj(self.asarray(x)) for x in args])
            out = [f(*[a[pos] for a in arrs]) for pos in np.ndindex(*arrs[0].shape)]
            k = kind_of_dtype(otypes[0]) if otypes else promote_list([elem_kind(x) for x in out])
            return from_list([cast_scalar(x, k) for x in out], arrs[0].shape, k)
        return g

    def frompyfunc(self, f, a, b):
        return self.vectorize(f)

    def apply_along_axis(self, f, axis, arr, *a, **k):
        arr = self.asarray(arr)
        b = np.moveaxis(base_of(arr), axis, -1)
        res = [f(wrap(b[pos], arr._k), *a, **k) for pos in np.ndindex(*b.shape[:-1])]
        r = self._from_seq(res, None)
        return r.reshape(b.shape[:-1] + (r.shape[1:] if r.ndim > 1 else ()))

    def ndenumerate(self, a):
        a = self.asarray(a)
        return ((pos, np.ndarray.__getitem__(a, pos)) for pos in np.ndindex(*a.shape))

    def ndindex(self, *s):
        return np.ndindex(*s)

    def nditer(self, a, **k):
        return iter(self.asarray(a).reshape(-1))

    def fill_diagonal(self, a, v):
        for i in range(builtins.min(a.shape)):
            a[i, i] = v

    def issubdtype(self, a, b):
        if getattr(a, "_symx_is", None):
            a = {"float": float, "int": int, "complex": complex}[a._symx_is]
        return np.issubdtype(a, b)

    def dtype(self, d):
        return KDT.get(kind_of_dtype(d), np.dtype("O"))

    def finfo(self, d=float):
        return np.finfo(KDT[kind_of_dtype(d)])

    def iinfo(self, d=int):
        return np.iinfo(KDT[kind_of_dtype(d)])

    def common_type(self, *arrs):
        ks = [a._k if isinstance(a, SymArray) else elem_kind(a) for a in arrs]
        return np.complex128 if "c16" in ks else np.float64

    def result_type(self, *arrs):
        return KDT[promote_list([a._k if isinstance(a, SymArray) else (kind_of_dtype(a) if isinstance(a, (type, np.dtype)) else elem_kind(a)) for a in arrs])]

    def promote_types(self, a, b):
        return KDT[promote_list([kind_of_dtype(a), kind_of_dtype(b)])]

    def can_cast(self, *a, **k):
        return True

    def errstate(self, **k):
        return np.errstate(**k)

    def seterr(self, **k):
        return {}

    def set_printoptions(self, *a, **k):
        pass

    def require(self, a, *r, **k):
        return self.asarray(a)

    def cumulative_sum(self, a):
        return self.cumsum(a)

    # ------------------------------------------------------------------ fallbacks
    @property
    def linalg(self):
        return LINALG

    @property
    def random(self):
        return STATE["random"] or _NoRandom()

    @property
    def ma(self):
        return MA

    @property
    def fft(self):
        return FFT

    @property
    def lib(self):
        return LIB

    # ------------------------------------------------------------------ index helpers
    def unravel_index(self, indices, shape, order="C"):
        shape = (int(shape),) if not isinstance(shape, (tuple, list)) else tuple(int(x) for x in shape)
        if isinstance(indices, (R, Bo, int, np.integer)):
            return tuple(R.const(int(v), "i8") for v in np.unravel_index(int(indices), shape, order=order))
        a = self.asarray(indices)
        c = np.array([int(x) for x in base_of(a).reshape(-1)], dtype=np.int64).reshape(a.shape)
        return tuple(self.array(v) for v in np.unravel_index(c, shape, order=order))

    def ravel_multi_index(self, multi_index, dims, mode="raise", order="C"):
        dims = tuple(int(x) for x in dims)
        if all(isinstance(i, (R, Bo, int, np.integer)) for i in multi_index):
            return R.const(int(np.ravel_multi_index(tuple(int(i) for i in multi_index), dims, mode=mode, order=order)), "i8")
        cs = []
        for x in multi_index:
            a = self.asarray(x)
            cs.append(np.array([int(v) for v in base_of(a).reshape(-1)], dtype=np.int64).reshape(a.shape))
        return self.array(np.ravel_multi_index(tuple(cs), dims, mode=mode, order=order))

    def ix_(self, *args):
        out, nd = [], len(args)
        for k, x in enumerate(args):
            x = self.asarray(x)
            if x._k == "b1":
                x = self.asarray(self.nonzero(x)[0])
            c = np.array([int(v) for v in base_of(x)], dtype=np.int64)
            out.append(self.array(c.reshape((1,) * k + (-1,) + (1,) * (nd - k - 1))))
        return tuple(out)

    def dstack(self, tup):
        parts = []
        for x in tup:
            x = self.atleast_2d(x)
            parts.append(x.reshape(x.shape + (1,)) if x.ndim == 2 and self.asarray(x).ndim == 2 else x)
        if any(p.ndim != 3 for p in parts):
            raise Unsupported("numpy.dstack of these shapes")
        return self.concatenate(parts, axis=2)

    def divmod(self, a, b):
        q = self.floor_divide(a, b)
        return q, self.remainder(a, b)

    def bitwise_not(self, a, **k):
        return self.invert(a, **k)

    def diagflat(self, v, k=0):
        return self.diag(self.asarray(v).reshape(-1), k)

    def choose(self, a, choices, out=None, mode="raise"):
        a = self.asarray(a)
        ch = [self.asarray(c) for c in choices]
        r = ch[-1]
        for i in range(len(ch) - 2, -1, -1):
            r = self.where(a == i, ch[i], r)
        return r

    def __getattr__(self, name):
        if name in UN:
            return Ufunc(name, 1)
        if name in BIN:
            return Ufunc(name, 2)
        v = getattr(np, name, None)
        if v is None:
            if name in ("float_", "float96", "cfloat"):
                return np.float64
            if name in ("complex_",):
                return np.complex128
            if name in ("int_", "in1d"):
                return np.int64
            raise AttributeError("module 'numpy' has no attribute %r" % name)
        if isinstance(v, (type, int, float, str, bool)) or v is None:
            return v
        if callable(v):
            def f(*a, **k):
                raise Unsupported("numpy function %s" % name)
            f.__name__ = name
            return f
        return v


class Ufunc:
    def __init__(self, name, nin):
        self.__name__ = name
        self.nin = nin

    def __call__(self, *a, **k):
        out = k.get("out")
        a = list(a)
        if len(a) > self.nin:
            out = a.pop()
        kw = {x: y for x, y in k.items() if x != "out"}
        if out is not None:
            kw["out"] = out if isinstance(out, tuple) else (out,)
        if not kw:
            f = UN[self.__name__] if self.nin == 1 else BIN[self.__name__]
            return apply_ew(self.__name__, f, a)
        return do_ufunc(self, "__call__", a, kw)

    def reduce(self, a, axis=0, **k):
        return do_ufunc(self, "reduce", (NP.asarray(a),), dict(axis=axis, **k))

    def accumulate(self, a, axis=0, **k):
        return do_ufunc(self, "accumulate", (NP.asarray(a),), dict(axis=axis, **k))

    def outer(self, a, b, **k):
        return do_ufunc(self, "outer", (a, b), {})

    def at(self, a, idx, v=None):
        return do_ufunc(self, "at", (a, idx, v), {})


def apply_ew3(f, ins, k):
    objs = []
    for x in ins:
        o = arr_obj(x)
        if not isinstance(o, np.ndarray):
            z = np.empty((), dtype=object)
            z[()] = o
            o = z
        objs.append(o)
    objs = np.broadcast_arrays(*objs)
    out = np.empty(objs[0].shape, dtype=object)
    of = out.reshape(-1)
    its = [o.reshape(-1) for o in objs]
    for i in range(of.size):
        of[i] = f(*[it[i] for it in its])
    return wrap(out, k)


def l_dot(xs, ys):
    xs = [num(x) for x in xs]
    ys = [num(y) for y in ys]
    return l_sum([x * y for x, y in zip(xs, ys)]) if xs else R.const(0, "f8")


def conc_arg(x):
    if isinstance(x, R):
        return conc_num(x)
    if isinstance(x, (tuple, list)):
        return type(x)(conc_arg(y) for y in x)
    if isinstance(x, SymArray):
        return norm_index1(x)
    return x


def ls_weights(rows, xrow):
    """weights w with prediction = sum w_i y_i of the least-squares fit y ~ rows at xrow (exact)."""
    p = len(xrow)
    A = [[sum((r[i] * r[j] for r in rows), Fraction(0)) for j in range(p)] for i in range(p)]
    # solve A z = xrow
    M = [A[i] + [Fraction(xrow[i])] for i in range(p)]
    piv = []
    r = 0
    for c in range(p):
        pr = next((i for i in range(r, p) if M[i][c] != 0), None)
        if pr is None:
            continue
        M[r], M[pr] = M[pr], M[r]
        pv = M[r][c]
        M[r] = [v / pv for v in M[r]]
        for i in range(p):
            if i != r and M[i][c] != 0:
                f = M[i][c]
                M[i] = [a - f * b for a, b in zip(M[i], M[r])]
        piv.append(c)
        r += 1
    if r < p:
        raise Unsupported("rank-deficient least squares")
    z = [M[i][p] for i in range(p)]
    return [sum((z[j] * row[j] for j in range(p)), Fraction(0)) for row in rows]


def ls_poly(xs, ys, deg, npx):
    rows = [[x ** d for d in range(deg + 1)] for x in xs]
    coefs = []
    for d in range(deg, -1, -1):
        unit = [Fraction(int(i == d)) for i in range(deg + 1)]
        w = ls_weights(rows, unit)
        coefs.append(l_sum([num(y) * R.const(core.norm_c(a)) for a, y in zip(w, ys)]).wk("f8"))
    return from_list(coefs, (deg + 1,), "f8")


class MGrid:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        axes = []
        for s in key:
            st = s.step
            if isinstance(st, C):
                n = st.im.cval
                if n is None:
                    raise Unsupported("mgrid step")
                axes.append(list(NP.linspace(s.start if s.start is not None else 0, s.stop, int(abs(n)))))
            elif isinstance(st, complex):
                axes.append(list(NP.linspace(s.start if s.start is not None else 0, s.stop, int(abs(st.imag)))))
            else:
                axes.append(list(NP.arange(s.start if s.start is not None else 0, s.stop, st)))
        shp = tuple(len(a) for a in axes)
        if len(axes) == 1:
            return NP._from_seq(axes[0], None)
        out = np.empty((len(axes),) + shp, dtype=object)
        for pos in np.ndindex(*shp):
            for d in range(len(axes)):
                out[(d,) + pos] = axes[d][pos[d]]
        return wrap(out, promote_list([elem_kind(x) for a in axes for x in a[:1]]))


class RClass:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts = []
        for k in key:
            if isinstance(k, slice):
                st = k.step
                if isinstance(st, complex):
                    parts.append(NP.linspace(k.start, k.stop, int(abs(st))))
                else:
                    parts.append(NP.arange(k.start or 0, k.stop, st))
            else:
                parts.append(NP.atleast_1d(k))
        return NP.concatenate(parts)


class CClass:
    def __getitem__(self, key):
        return NP.column_stack(key)


class _LinAlg:
    LinAlgError = np.linalg.LinAlgError

    def norm(self, x, ord=None, axis=None, keepdims=False):
        if axis is not None or ord not in (None, 2, 1, np.inf):
            raise Unsupported("norm")
        a = NP.asarray(x)
        xs = list(a.reshape(-1))
        if ord == 1:
            return l_sum([abs(num(v)) for v in xs])
        if ord == np.inf:
            return l_max([abs(num(v)) for v in xs])
        return r_sqrt(l_sum([(v * v) if isinstance(v, R) else (v.re * v.re + v.im * v.im) for v in map(num, xs)]).wk("f8"))

    def _mat(self, a):
        a = NP.asarray(a)
        if a.ndim != 2 or a.shape[0] != a.shape[1]:
            raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
        return a

    def det(self, a):
        a = self._mat(a)
        n = a.shape[0]
        if n == 1:
            return a[0, 0].wk("f8") if isinstance(a[0, 0], R) else a[0, 0]
        if n == 2:
            return (a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]).wk("f8")
        s = R.const(0, "f8")
        for j in range(n):
            idx = [q for q in range(n) if q != j]
            m = self.det(a[1:, idx])
            s = s + a[0, j] * m if j % 2 == 0 else s - a[0, j] * m
        return s

    def inv(self, a):
        a = self._mat(a)
        n = a.shape[0]
        if n == 1:
            v = a[0, 0]
            if not bool(v != 0):
                raise np.linalg.LinAlgError("Singular matrix")
            return NP.array([[R.const(1, "f8") / v]])
        d = self.det(a)
        if not bool(d != 0):
            raise np.linalg.LinAlgError("Singular matrix")
        out = NP.zeros((n, n))
        for i in range(n):
            for j in range(n):
                ri = [q for q in range(n) if q != j]
                ci = [q for q in range(n) if q != i]
                m = self.det(a[ri][:, ci]) if n > 1 else R.const(1, "f8")
                out[i, j] = (m if (i + j) % 2 == 0 else -m) / d
        return out

    pinv = inv

    def solve(self, a, b):
        return NP.dot(self.inv(a), b)

    def cholesky(self, a):
        # lower
        return STATE["cholesky"](a, True) if STATE.get("cholesky") else chol(a, lower=True)

    def lstsq(self, a, b, rcond=None):
        A = NP.asarray(a)
        rows = [[Fraction(v.cval) for v in r] for r in A.astype("f8")]
        p = len(rows[0])
        ys = list(NP.asarray(b))
        sol = []
        for d in range(p):
            w = ls_weights(rows, [Fraction(int(i == d)) for i in range(p)])
            sol.append(l_sum([num(y) * R.const(core.norm_c(c)) for c, y in zip(w, ys)]).wk("f8"))
        return from_list(sol, (p,), "f8"), NP.array([]), p, NP.array([])

    def eigh(self, a, UPLO="L"):
        if STATE.get("eigh"):
            return STATE["eigh"](a)
        raise Unsupported("eigh")

    def eig(self, a):
        raise Unsupported("eig")

    def svd(self, a, *k, **kw):
        raise Unsupported("svd")

    def matrix_power(self, a, n):
        r = NP.eye(a.shape[0])
        for _ in range(int(n)):
            r = NP.dot(r, a)
        return r


def chol(a, lower=False):
    a = NP.asarray(a)
    n = a.shape[0]
    L = NP.zeros((n, n))
    for i in range(n):
        for j in range(i + 1):
            s = a[i, j] if lower else a[j, i]
            for t in range(j):
                s = s - L[i, t] * L[j, t]
            if i == j:
                if not bool(s > 0):
                    raise np.linalg.LinAlgError("Matrix is not positive definite")
                L[i, j] = r_sqrt(s)
            else:
                L[i, j] = s / L[j, j]
    return L if lower else L.T


class _MA:
    MaskedArray = type("MaskedArray", (), {})

    class _Masked:
        def __repr__(self):
            return "masked"

        def _m(self, *a):
            return self
        __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = _m
        __neg__ = __abs__ = _m
    masked = _Masked()

    def sqrt(self, x):
        if isarr(x):
            raise Unsupported("ma.sqrt of array")
        x = num(x)
        if bool(x < 0):
            return self.masked
        return r_sqrt(fk(x))

    def log(self, x):
        x = num(x)
        if bool(x <= 0):
            return self.masked
        return r_log(x)

    def power(self, a, b):
        if a is self.masked:
            return a
        if isarr(a):
            raise Unsupported("ma.power of array")
        a = num(a)
        r = core.r_pow(fk(a), num(b))
        if r.sp:
            return self.masked
        return r.wk("f8")

    def __getattr__(self, n):
        raise Unsupported("numpy.ma." + n)


class _FFT:
    def fft(self, a, n=None, axis=-1, norm=None):
        a = NP.asarray(a)
        N = a.shape[axis]
        b = np.moveaxis(base_of(a), axis, -1)
        out = np.empty(b.shape, dtype=object)
        tw = [C(R.const(core.snap(round(math.cos(2 * math.pi * t / N), 16))), R.const(core.snap(round(-math.sin(2 * math.pi * t / N), 16)))) for t in range(N)]
        for pos in np.ndindex(*b.shape[:-1]):
            row = [C.of(num(x)) for x in b[pos]]
            for k in range(N):
                out[pos + (k,)] = l_sum([row[j] * tw[(j * k) % N] for j in range(N)])
        return wrap(np.moveaxis(out, -1, axis), "c16")

    def ifft(self, a, n=None, axis=-1, norm=None):
        a = NP.asarray(a).astype("c16")
        N = a.shape[axis]
        r = self.fft(NP.conj(a), axis=axis)
        return NP.conj(r) / N

    def __getattr__(self, n):
        raise Unsupported("numpy.fft." + n)


class _Stride:
    def sliding_window_view(self, x, window_shape, axis=None, **k):
        x = NP.asarray(x)
        w = window_shape
        if isinstance(w, tuple):
            w = w[0]
        w = int(w)
        if x.ndim != 1:
            raise Unsupported("sliding_window_view nd")
        if w > x.size:
            raise ValueError("window shape cannot be larger than input array shape")
        return NP.array([list(x[i:i + w]) for i in range(x.size - w + 1)])

    def as_strided(self, *a, **k):
        raise Unsupported("as_strided")


class _Lib:
    stride_tricks = _Stride()


class _NoRandom:
    def __getattr__(self, n):
        raise Unsupported("numpy.random." + n)


STATE = {"random": None, "eigh": None, "cholesky": None}
LINALG = _LinAlg()
MA = _MA()
FFT = _FFT()
LIB = _Lib()
NP = _NP()
