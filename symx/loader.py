"""Executes /repo's modules from source with symbolic numpy/scipy/math and adjusted builtins.

Every path re-executes the modules it uses from their (cached) code objects in a fresh namespace,
so module-level state is rebuilt per path; the code objects are compiled from /repo's working tree
at the start of the run."""
import builtins
import importlib
import os
import sys
import types

import numpy as np

from . import core, symnp, stubs
from .core import R, C, Bo, Unsupported
from .symnp import NP, SymArray, IdxSet, sym_float, sym_int

REPO = os.environ.get("SYMX_REPO", "/repo")
PKG = "proadv"
_code = {}
FUNCS = set()

SAFE = {"warnings", "functools", "itertools", "collections", "collections.abc", "typing", "operator", "numbers",
        "abc", "enum", "dataclasses", "copy", "__future__", "types", "contextlib", "fractions", "string", "re",
        "inspect", "sys", "os", "time", "logging", "bisect", "heapq"}


class _Meta(type):
    def __instancecheck__(cls, o):
        return sym_isinstance(o, cls)

    def __subclasscheck__(cls, o):
        return issubclass(o, cls._real) if isinstance(o, type) and not hasattr(o, "_symx_is") else o is cls

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __getattr__(cls, n):
        if n.startswith("_symx") or n in ("_real", "_conv"):
            raise AttributeError(n)
        return getattr(cls._real, n)


def _proxy(name, real, is_, conv):
    return _Meta(name, (), {"_real": real, "_symx_is": is_, "_conv": staticmethod(conv)})


def _f8(x=0.0):
    if isinstance(x, SymArray) and x.ndim:
        return x.astype("f8")
    v = sym_float(x)
    return v.wk("f8") if isinstance(v, R) else R.const(float(v), "f8")


def _i8(x=0):
    if isinstance(x, SymArray) and x.ndim:
        return x.astype("i8")
    v = sym_int(x)
    return v.wk("i8") if isinstance(v, R) else R.const(int(v), "i8")


def _cplx(re=0, im=0):
    if isinstance(re, (R, C, Bo, SymArray)) or isinstance(im, (R, C)):
        if isinstance(re, SymArray):
            re = re.item()
        a = C.of(re)
        b = C.of(im)
        return C(a.re - b.im, a.im + b.re)
    return builtins.complex(re, im)


def _float(x=0.0):
    if type(x) is str:
        return builtins.float(x)
    return sym_float(x)


FLOAT = _proxy("float", builtins.float, "float", _float)
INT = _proxy("int", builtins.int, "int", lambda *a: sym_int(*a) if a else 0)
COMPLEX = _proxy("complex", builtins.complex, "complex", _cplx)
F64 = _proxy("float64", np.float64, "float", _f8)
I64 = _proxy("int64", np.int64, "int", _i8)
C128 = _proxy("complex128", np.complex128, "complex", _cplx)
symnp._NP.float64 = F64
symnp._NP.float_ = F64
symnp._NP.double = F64
symnp._NP.int64 = I64
symnp._NP.int_ = I64
symnp._NP.intp = I64
symnp._NP.int32 = I64
symnp._NP.complex128 = C128


def _one(o, c):
    if isinstance(c, (tuple, types.UnionType)):
        cs = c if isinstance(c, tuple) else c.__args__
        return any(_one(o, x) for x in cs)
    real = getattr(c, "_real", c) if isinstance(c, _Meta) else c
    if isinstance(o, R):
        if real is builtins.float:
            return o.k in ("pf", "f8")
        if real is builtins.int:
            return o.k == "pi"
        if real in (np.float64, np.floating, np.inexact):
            return o.k == "f8"
        if real in (np.number, np.generic):
            return o.k in ("f8", "i8", "f4", "c16")
        if real in (np.integer, np.int64, np.signedinteger, np.int_):
            return o.k == "i8"
        if real is object:
            return True
        if real in (np.ndarray, SymArray):
            return False
        import numbers
        if real in (numbers.Number, numbers.Real, numbers.Complex):
            return o.k != "b1"
        if real in (numbers.Integral,):
            return o.k in ("pi", "i8")
        return builtins.isinstance(o, real)
    if isinstance(o, C):
        return real in (builtins.complex, np.complex128, np.complexfloating, np.number, np.generic, object)
    if isinstance(o, Bo):
        return real in (builtins.bool, np.bool_, np.generic, object)
    if isinstance(o, IdxSet):
        return real in (np.ndarray, SymArray, object)
    if isinstance(o, SymArray):
        return real in (np.ndarray, SymArray, object) or (builtins.isinstance(real, type) and not
                                                        issubclass(real, np.ndarray) and builtins.isinstance(o, real))
    if isinstance(real, type) or not isinstance(c, _Meta):
        return builtins.isinstance(o, real)
    return builtins.isinstance(o, real)


def sym_isinstance(o, c):
    return _one(o, c)


def sym_len(x):
    if isinstance(x, IdxSet):
        return x.count()
    return builtins.len(x)


def _mm(name, pick):
    base = getattr(builtins, name)

    def f(*a, key=None, default=NotImplemented):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if key is None and xs and any(isinstance(x, R) for x in xs) and all(
                isinstance(x, (R, int, float)) for x in xs):
            xs = [x if isinstance(x, R) else R._co(None, x) for x in xs]
            if not any(x.sp for x in xs):
                r = xs[0]
                for x in xs[1:]:
                    r = pick(r, x)
                return r
        kw = {}
        if key is not None:
            kw["key"] = key
        if default is not NotImplemented:
            kw["default"] = default
        return base(xs, **kw)
    return f


def _range(*a):
    return builtins.range(*[x.__index__() if isinstance(x, (R, SymArray)) else x for x in a])


def _round(x, nd=None):
    if isinstance(nd, R):
        nd = nd.concretize()
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


def _sum(xs, start=0):
    t = start
    for x in xs:
        t = t + x
    return t


def _bool(x=False):
    if isinstance(x, R) and not x.sp:
        return x != 0
    if isinstance(x, Bo):
        return x
    return builtins.bool(x)


BOOL = _proxy("bool", builtins.bool, "bool", _bool)


def _type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, R):
            return {"pf": FLOAT, "pi": INT, "f8": F64, "i8": I64}.get(x.k, F64)
        if isinstance(x, (SymArray, IdxSet)):
            return np.ndarray
        if isinstance(x, C):
            return C128
        if isinstance(x, symnp.SymStr):
            return str
        t = builtins.type(x)
        return {float: FLOAT, int: INT, complex: COMPLEX}.get(t, t)
    return builtins.type(*a)


def make_builtins(imp):
    d = dict(vars(builtins))
    d.update(float=FLOAT, int=INT, complex=COMPLEX, isinstance=sym_isinstance, len=sym_len,
             min=_mm("min", core.r_min), max=_mm("max", core.r_max), range=_range, round=_round, sum=_sum,
             print=lambda *a, **k: None, __import__=imp, type=_type)

    def _open(*a, **k):
        raise Unsupported("file access")
    d["open"] = _open
    d["input"] = _open
    return d


class Loader:
    def __init__(self):
        self.mods = {}
        self.b = make_builtins(self.imp)

    def find(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None, False

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        path, ispkg = self.find(name)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name)
        co = _code.get(path)
        if co is None:
            with open(path) as f:
                co = compile(f.read(), path, "exec", dont_inherit=True)
            _code[path] = co
        m = types.ModuleType(name)
        m.__file__ = path
        m.__builtins__ = self.b
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        try:
            exec(co, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if "." in name:
            par, _, leaf = name.rpartition(".")
            setattr(self.mods[par], leaf, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            parts = pkg.split(".")
            base = ".".join(parts[:len(parts) - (level - 1)])
            name = base + ("." + name if name else "")
        if name == PKG or name.startswith(PKG + "."):
            m = self.load(name)
            if fromlist:
                for x in fromlist:
                    if x != "*" and not hasattr(m, x):
                        if self.find(name + "." + x)[0]:
                            self.load(name + "." + x)
                return m
            if level:
                return m
            return self.mods[PKG]
        if name in stubs.MODULES:
            return stubs.MODULES[name] if fromlist else stubs.MODULES[name.split(".")[0]]
        if name.startswith("numpy."):
            o = NP
            for p in name.split(".")[1:]:
                try:
                    o = getattr(o, p)
                except AttributeError:
                    raise Unsupported("import " + name)
            return o if fromlist else NP
        if name in SAFE:
            m = importlib.import_module(name)
            return m if fromlist else importlib.import_module(name.split(".")[0])
        if name.split(".")[0] in ("scipy", "sklearn"):
            return stubs.Stub(name) if fromlist else stubs.MODULES[name.split(".")[0]]
        raise Unsupported("import " + name)


# ----------------------------------------------------------------------------- coverage of functions
def start_monitor():
    mon = sys.monitoring
    tid = mon.COVERAGE_ID
    try:
        mon.use_tool_id(tid, "symx")
    except ValueError:
        return
    pre = os.path.join(REPO, PKG)

    def on(code, off):
        if code.co_filename.startswith(pre) and code.co_name != "<module>":
            FUNCS.add("%s:%s" % (os.path.relpath(code.co_filename, REPO), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, on)
    mon.set_events(tid, mon.events.PY_START)
