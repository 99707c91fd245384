"""The environment a harness runs in, symbolic side.  The concrete side (conc.py) offers the same
interface over the real package, so every harness doubles as the replay program."""
import math
from fractions import Fraction

import numpy as np

from . import core, symnp, stubs
from .core import (R, C, Bo, CTX, TRUE, FALSE, Unsupported, PathAbort, Steer, atom_r, r_cmp, bo_and, bo_or, bo_not,
                   bo_iff, bo_implies, to_bo, r_ite, close_bo)
from .symnp import NP, SymArray, IdxSet, from_list, SymStr
from .loader import Loader


class Stop(BaseException):
    """The harness ended early (an obligation already failed for sure)."""


class SymEnv:
    symbolic = True

    def __init__(self, path):
        self.path = path
        self.loader = Loader()
        symnp.STATE.update(random=None, eigh=None, cholesky=None)
        stubs.OPT.update(brentq=None, fminbound=None)

    # ------------------------------------------------------------------ inputs
    def real(self, name, lo=-1000, hi=1000):
        return atom_r(CTX.input(name, lo, hi))

    def int(self, name, lo, hi):
        return atom_r(CTX.input(name, lo, hi, isint=True), "pi")

    def vec(self, name, n, lo=-1000, hi=1000):
        return [self.real("%s%d" % (name, i), lo, hi) for i in range(n)]

    def const(self, x):
        return R.const(x, "f8")

    def assume(self, b):
        self.path.assume(b)

    # ------------------------------------------------------------------ arguments for the code
    def arr(self, vals, dtype="f8", shape=None):
        k = symnp.kind_of_dtype(dtype)
        vals = [symnp.cast_scalar(v, k) for v in vals]
        a = from_list(vals, (len(vals),), k)
        return a if shape is None else a.reshape(shape)

    def idx(self, ints):
        return from_list([R.const(int(i), "i8") for i in ints], (len(ints),), "i8")

    def pyfloat(self, v):
        return symnp.lift(v).wk("pf")

    def pyint(self, v):
        return symnp.lift(v).wk("pi")

    def npfloat(self, v):
        return symnp.lift(v).wk("f8")

    def string(self, v):
        if isinstance(v, str):
            try:
                return SymStr(v, R.const(float(v), "pf"))
            except ValueError:
                return SymStr(v, None)
        r = symnp.lift(v).wk("pf")
        return SymStr("<num%d>" % id(r), r)

    def strarr(self, items):
        """numpy array made from a list that contains strings"""
        return NP.array(items)

    def unsupported(self, why):
        return Unsupported(why)

    # ------------------------------------------------------------------ calls
    def fn(self, mod, name):
        try:
            return getattr(self.loader.load(mod), name)
        except AttributeError:
            raise Unsupported("%s.%s is gone" % (mod, name))

    def attempt(self, mod, name, *a, **k):
        """(exception class name or None, value)"""
        f = self.fn(mod, name)
        try:
            return None, f(*a, **k)
        except RecursionError:
            raise Unsupported("recursion")
        except Exception as e:
            self.last_exc = e
            if CTX.debug:
                import traceback
                traceback.print_exc()
            return type(e).__name__, None

    def call(self, mod, name, *a, **k):
        e, v = self.attempt(mod, name, *a, **k)
        if e is not None:
            self.fail("%s raised %s" % (name, e))
            raise Stop()
        return v

    # ------------------------------------------------------------------ results
    def vals(self, res, n=None, label="result"):
        """flat list of numeric values of an array or sequence"""
        if isinstance(res, IdxSet):
            res = res.materialize()
        if isinstance(res, (list, tuple)):
            res = NP.asarray(list(res))
        if not isinstance(res, SymArray):
            if isinstance(res, np.ndarray):
                res = NP.asarray(res)
            else:
                self.fail("%s is not an array" % label)
                raise Stop()
        out = [symnp.num(x) for x in res.reshape(-1)]
        if n is not None and len(out) != n:
            self.fail("%s has %d elements, expected %d" % (label, len(out), n))
            raise Stop()
        self.path.obs.extend(out)
        return out

    def val(self, res, label="result"):
        if isinstance(res, SymArray):
            if res.size != 1:
                self.fail("%s is not a scalar" % label)
                raise Stop()
            res = res.reshape(-1)[0]
        if isinstance(res, (bool, str, type(None))) or not isinstance(symnp.lift(res), (R, C, Bo)):
            self.fail("%s is not a number" % label)
            raise Stop()
        r = symnp.num(res)
        self.path.obs.append(r)
        return r

    def shape(self, res):
        if isinstance(res, IdxSet):
            return (len(res),)
        return tuple(np.shape(res))

    def kind(self, res):
        if isinstance(res, (SymArray, IdxSet)):
            return res.dtype.kind
        return None

    def members(self, res, n, label="indices"):
        """index-set result -> list of n membership conditions; checks range, order, uniqueness"""
        if isinstance(res, IdxSet) and not res.dup:
            for i in res.m:
                if not 0 <= i < n:
                    self.require(bo_not(res.m[i]), "%s within range" % label)
            ms = [res.m.get(i, FALSE) for i in range(n)]
            self.path.obs.extend([b.as_r() for b in ms])
            return ms
        if isinstance(res, IdxSet):
            res = res.materialize()
        if isinstance(res, (list, tuple)):
            res = NP.asarray(list(res), dtype="i8")
        if not isinstance(res, SymArray) or res.ndim != 1:
            self.fail("%s is not a 1-d array" % label)
            raise Stop()
        if res.size and res._k != "i8":
            self.fail("%s is not an integer array" % label)
            raise Stop()
        ix = [v.concretize() for v in res]
        self.check(all(0 <= i < n for i in ix), "%s within range" % label)
        self.check(all(a < b for a, b in zip(ix, ix[1:])), "%s sorted without duplicates" % label)
        ms = [TRUE if i in ix else FALSE for i in range(n)]
        self.path.obs.extend([b.as_r() for b in ms])
        return ms

    def snapshot(self, a):
        return list(symnp.base_of(a).reshape(-1))

    def unchanged(self, a, snap, label):
        now = list(symnp.base_of(a).reshape(-1))
        for i, (x, y) in enumerate(zip(now, snap)):
            if x is y:
                continue
            if isinstance(x, R) and isinstance(y, R):
                if x.sp or y.sp:
                    self.check(x.sp == y.sp, label)
                elif x.key() != y.key():
                    self.require(r_cmp(x, y, "=="), label)

    def not_alias(self, res, a, label):
        if isinstance(res, SymArray):
            self.check(not np.shares_memory(symnp.base_of(res), symnp.base_of(a)), label)

    # ------------------------------------------------------------------ obligations
    def require(self, b, label):
        b = core.to_bo(b)
        self.path.obl.append((b, label))

    def check(self, pybool, label):
        self.path.obl.append((TRUE if pybool else FALSE, label))

    def fail(self, label):
        self.path.obl.append((FALSE, label))

    def close(self, a, b, label, tol=Fraction(1, 10 ** 9)):
        if isinstance(a, C) or isinstance(b, C):
            a, b = C.of(a), C.of(b)
            self.close(a.re, b.re, label, tol)
            self.close(a.im, b.im, label, tol)
            return
        a = symnp.num(a)
        b = symnp.num(b)
        if any(at.kind in ("abs", "ite") for at in CTX.atoms.values()):
            a, b = core.r_resolve(a), core.r_resolve(b)
        self.path.obl.append((close_bo(a, b, tol), label))

    def iff(self, a, b, label):
        self.path.pairs.append((to_bo(a), to_bo(b)))
        self.require(bo_iff(to_bo(a), to_bo(b)), label)

    # ------------------------------------------------------------------ oracle arithmetic
    def isnan(self, v):
        return symnp.num(v).sp == "nan"

    def special(self, v):
        """None, 'nan', 'inf' or '-inf'"""
        return symnp.num(v).sp

    nan = property(lambda s: R.const(math.nan, "f8"))

    def sum(self, xs):
        t = R.const(0, "f8")
        for x in xs:
            t = t + x
        return t

    def sqrt(self, v):
        return core.r_sqrt(symnp.num(v).wk("f8"))

    def csqrt(self, v):
        return core.c_sqrt(C.of(v))

    def cplx(self, re, im):
        return C(symnp.num(re), symnp.num(im))

    def exp(self, v):
        return core.r_exp(symnp.num(v).wk("f8"))

    def log(self, v):
        return core.r_log(symnp.num(v).wk("f8"))

    def erf(self, v):
        return core.r_erf(symnp.num(v)).wk("f8")

    def atan(self, v):
        return core.r_atan(symnp.num(v).wk("f8"))

    def atan2(self, y, x):
        return core.r_atan2(symnp.num(y).wk("f8"), symnp.num(x).wk("f8"))

    def cos(self, v):
        return core.r_cos(symnp.num(v).wk("f8"))

    def sin(self, v):
        return core.r_sin(symnp.num(v).wk("f8"))

    def tan(self, v):
        return core.r_tan(symnp.num(v).wk("f8"))

    def pow(self, v, e):
        return core.r_pow(symnp.num(v).wk("f8"), R.const(e))

    def abs(self, v):
        return abs(v)

    def round(self, v, d):
        return core.r_round(symnp.num(v).wk("f8"), d)

    def ite(self, c, a, b):
        return r_ite(to_bo(c), symnp.num(a), symnp.num(b))

    def order(self, xs, k):
        return symnp.order_stat([symnp.num(x).wk("f8") for x in xs], k)

    def min(self, xs):
        return self.order(xs, 0)

    def max(self, xs):
        return self.order(xs, len(xs) - 1)

    def median(self, xs):
        n = len(xs)
        if n % 2:
            return self.order(xs, n // 2)
        return (self.order(xs, n // 2 - 1) + self.order(xs, n // 2)) / 2

    def eq(self, a, b):
        return r_cmp(symnp.num(a), symnp.num(b), "==")

    def gt(self, a, b):
        return r_cmp(symnp.num(a), symnp.num(b), ">")

    def ge(self, a, b):
        return r_cmp(symnp.num(a), symnp.num(b), ">=")

    def lt(self, a, b):
        return r_cmp(symnp.num(a), symnp.num(b), "<")

    def le(self, a, b):
        return r_cmp(symnp.num(a), symnp.num(b), "<=")

    def and_(self, *xs):
        return bo_and(*xs)

    def or_(self, *xs):
        return bo_or(*xs)

    def not_(self, x):
        return bo_not(x)

    def implies(self, a, b):
        return bo_implies(a, b)

    true = TRUE
    false = FALSE

    def decide(self, b):
        """branch on a condition in the harness"""
        return bool(b)

    def same(self, a, b):
        """the two values agree at the path's witness; use close to establish it for the whole path"""
        a, b = symnp.num(a), symnp.num(b)
        k = self.path.known(self.eq(a, b))
        if k or self.path.ev is None:
            return bool(k)
        d = self.path.ev.r(a - b)
        return abs(d) <= 1e-9 * (1 + abs(self.path.ev.r(a)))

    def follow(self, b):
        """restrict the configuration to the side of b its base point lies on (the other side belongs to another configuration)"""
        b = core.to_bo(b)
        k = self.path.known(b)
        if k is None:
            k = self.path.ev.bo(b) if self.path.ev is not None else True
            self.path.assume(b if k else core.bo_not(b))
        return k

    # ------------------------------------------------------------------ library stand-ins
    def interp_weights(self, xs, x, kind):
        return [R.const(w) for w in stubs.lin_weights(xs, x, kind)]

    def ls_weights(self, rows, row):
        return [R.const(core.norm_c(w)) for w in symnp.ls_weights([[Fraction(v) for v in r] for r in rows],
                                                               [Fraction(v) for v in row])]

    def peak(self, xs):
        """(largest value, its first index), restricted to the index the base point has"""
        m, at = self.max(xs), None
        for k, v in enumerate(xs):
            if self.follow(self.eq(v, m)) and at is None:
                at = k
        if at is None:
            raise PathAbort("no maximum")
        return m, at

    def kde(self, pts, qs):
        """scipy.stats.gaussian_kde of 2-d points at the query points (library function)"""
        ds = from_list([v.wk("f8") for r in pts for v in r], (len(pts), len(pts[0])), "f8")
        q = from_list([symnp.num(v).wk("f8") for r in qs for v in r], (len(qs), len(qs[0])), "f8")
        return list(stubs.gaussian_kde(ds)(q))

    def set_random(self, obj):
        symnp.STATE["random"] = obj

    def set_eigh(self, f):
        symnp.STATE["eigh"] = f

    def set_opt(self, **k):
        stubs.OPT.update(k)
