"""fminbound: bounded minimisation for every sequence of function values"""
import math
import operator
from .common import raises
MOD, F = "proadv.statistics.optimize.optimize", "fminbound"
BUDGET = {"quick": 40, "thorough": 600}
BOUNDS = ("bounds and tolerance symbolic with up to 3 evaluations, fixed with every value symbolic up to 4 evaluations; up to 12 (thorough 20) evaluations after a "
          "fixed history of values with 1 or 2 symbolic values; defaults, extra parameters, NaN values, equal bounds, both output forms, error "
          "conditions; at least 2 evaluations allowed; |x| <= 100, |f| <= 1000")
FIX = [(-1, 2, 0.25), (1, 1.5, 0.0625), (-8, -3, 1.5)]
STARTS = [(1, 0.5), (0.5, 1), (-2, -2)]
CURVES = {"square": (lambda x: (x - 0.6) ** 2, -1, 3), "abs": (lambda x: abs(x + 0.4), -2, 1.5), "edge": (lambda x: x, -1, 4), "top": (lambda x: -x, -3, 2),
          "wave": (lambda x: math.cos(3 * x) + x / 4, -0.5, 2.5), "quartic": (lambda x: (x - 1.1) ** 4, -2, 3), "step": (lambda x: 1.0 if x > 0.37 else 0.5, 0, 1),
          "bump": (lambda x: -math.exp(-8 * (x - 1.5) ** 2), -2, 4)}


def configs(tier):
    out = []
    T = tier != "quick"
    for mx in (2, 3):
        for full in (True, False):
            out.append(dict(id="values-%d-%d" % (mx, full), mx=mx, full=full, weight=1))
    for k, fix in enumerate(FIX):
        out.append(dict(id="fixed-4-%d" % k, mx=4, full=k != 1, fix=fix, weight=3))
        for j, e in enumerate(STARTS):
            out.append(dict(id="start-%d-%d" % (k, j), mx=4 + T, full=(k + j) % 3 != 1, fix=fix, start=e, weight=2))
    for nm in CURVES:
        for mx in (4, 5, 6, 8, 10, 12) if not T else range(4, 21):
            for free in (1,) if nm == "top" else (1, 2) if mx == 5 or T and mx < 8 else (1,):
                out.append(dict(id="tail-%s-%d-%d" % (nm, mx, free), mx=mx, full=mx % 2 == 0, curve=nm, tols=2 ** -8, free=free, weight=free))
        out.append(dict(id="tail-%s-wide" % nm, mx=7 + 2 * T, full=True, curve=nm, tols=0.5, free=1))
    for form in ("none", "full", "kw"):
        for nm in ("square", "abs"):
            out.append(dict(id="default-%s-%s" % (nm, form), mx=500, full=form != "none", curve=nm, free=1, form=form))
    for k, x0 in enumerate((0.0, 50.0)):
        out.append(dict(id="default-width-%d" % k, mx=2, full=True, form="one", narrow=x0))
    for form in ("plain", "full"):
        out.append(dict(id="limit-" + form, mx=500, limit=True, full=form == "full"))
    for k in range(4):
        out.append(dict(id="nan-%d" % k, mx=4, full=True, curve="square", tols=0.125, free=1, nan=k))
    out.append(dict(id="same", mx=5, full=True, same=True))
    out.append(dict(id="error-order", err="order"))
    for i, b in enumerate(((math.inf, 1), (0, math.inf), (-math.inf, 0), (math.nan, 1), (0, math.nan))):
        out.append(dict(id="error-bound-%d" % i, err="finite", b=[str(v) for v in b]))
    out.append(dict(id="hist", mx=2, full=True, hist=True, fix=FIX[0]))
    for k in ("int", "np", "par"):
        out.append(dict(id="kind-" + k, mx=3, full=True, kind=k, fix=FIX[0]))
    for c in out:
        c["branch_timeout"] = 1.5
        if "curve" in c:
            f, lo, hi = CURVES[c["curve"]]
            tol = c.get("tols", 1e-5)
            vals = []

            def val(k, x):
                vals.append(round(f(x) * 1024) / 1024 if c.get("nan") != k else math.nan)
                return vals[-1]
            brentmin(Floats, lo, hi, val, tol, c["mx"], bool)
            last = len(vals) - (1 if c.get("nan") is None else 1 + (c["nan"] == len(vals) - 1))
            c["vals"] = [v if v == v else None for v in vals]
            c["symf"] = [last - j for j in range(c["free"])]
            c["fix"] = (lo, hi, tol)
            c["base"] = {"f%d" % k: vals[k] for k in c["symf"]}
    return out


class Floats:
    """just enough to run the reference on plain numbers"""
    eq, gt, ge, lt, le = (staticmethod(f) for f in (operator.eq, operator.gt, operator.ge, operator.lt, operator.le))
    abs, const = staticmethod(abs), staticmethod(float)
    not_ = staticmethod(operator.not_)
    sqrt = staticmethod(math.sqrt)
    and_ = staticmethod(lambda *a: all(a))
    isnan = staticmethod(math.isnan)
    assume = staticmethod(lambda b: None)

    @staticmethod
    def require(b, label):
        assert b, label


class Fun:
    """the function: its value at every point the reference evaluates is an input"""

    def __init__(self, env, pts, vals, rule=None, kind=None):
        self.env, self.pts, self.vals, self.rule, self.kind, self.seen, self.extra = env, pts, vals, rule, kind, [], []

    def __call__(self, x, *extra):
        env = self.env
        v = env.val(x)
        self.extra.append(extra)
        if self.rule:
            k = len(self.seen)
            y = self.rule(k, v)
        else:
            k = next((i for i, p in enumerate(self.pts) if env.same(v, p)), None)
            if k is not None:
                env.close(v, self.pts[k], "evaluation point %d" % k)
            y = self.vals[k] if k is not None else env.real("g%d" % len(self.seen), -1000, 1000)
        self.seen.append((v, k))
        return env.npfloat(y) if self.kind == "np" else env.pyfloat(y)


def lemma(env, b, label):
    env.require(b, label)
    env.assume(b)


def brentmin(env, lo, hi, val, tol, mx, dec):
    pts, vals = [], []
    nan = lambda v: v != v if isinstance(v, float) else env.special(v) == "nan"

    def ev(x):
        pts.append(x)
        vals.append(val(len(vals), x))
        return vals[-1]
    gr, eps = env.const(0.5) * (env.const(3.0) - env.sqrt(env.const(5.0))), env.sqrt(env.const(2.2e-16))
    a, b = lo, hi
    x = w = v = a + gr * (b - a)
    fx = fw = fv = last = ev(x)
    d = e = env.const(0)
    flag = 0
    while True:
        m = (a + b) / 2
        t = eps * env.abs(x) + tol / 3
        if len(vals) > 1 and len(vals) >= mx:
            flag = 1
            break
        if not dec(env.gt(env.abs(x - m), 2 * t - (b - a) / 2)):
            lemma(env, env.and_(env.le(x - a, 2 * t), env.le(b - x, 2 * t)), "minimum bracketed within the tolerance")
            break
        gold, adj = True, False
        if w is not v and w is not x and v is not x and dec(env.gt(env.abs(e), t)):
            r = (x - w) * (fx - fv)
            q = (x - v) * (fx - fw)
            p = (x - v) * q - (x - w) * r
            q = 2 * (q - r)
            pos = dec(env.gt(q, 0))
            if pos:
                p = -p
            q = env.abs(q)
            old, e = e, d
            if dec(env.lt(env.abs(p), env.abs(q * old / 2))) and dec(env.lt(q * (a - x), p)) and dec(env.lt(p, q * (b - x))):
                gold = False
                d = p / q
                u = x + d
                if dec(env.lt(u - a, 2 * t)) or dec(env.lt(b - u, 2 * t)):
                    d = t if dec(env.ge(m, x)) else -t
                    adj = True
        if gold:
            e = a - x if dec(env.ge(x, m)) else b - x
            d = gr * e
        up = dec(env.gt(d, 0)) or dec(env.eq(d, 0))
        s = d if up else -d
        if adj or not dec(env.gt(s, t)):
            s = t
        u = x + s if up else x - s
        lemma(env, env.and_(env.le(a, u), env.le(u, b)), "new point inside the bracket")
        fu = last = ev(u)
        if dec(env.le(fu, fx)):
            if dec(env.ge(u, x)):
                a = x
            else:
                b = x
            v, fv, w, fw, x, fx = w, fw, x, fx, u, fu
        else:
            if dec(env.lt(u, x)):
                a = u
            else:
                b = u
            if dec(env.le(fu, fw)) or w is x:
                v, fv, w, fw = w, fw, u, fu
            elif dec(env.le(fu, fv)) or v is x or v is w:
                v, fv = u, fu
    if nan(fx) or nan(last):
        flag = 2
    return dict(x=x, fx=fx, flag=flag, pts=pts, vals=vals)


def run(env, cfg):
    if cfg.get("err"):
        f = Fun(env, [], [], rule=lambda k, x: x * x)
        lo, hi = env.real("lo", -100, 100), env.real("hi", -100, 100)
        if cfg["err"] == "order":
            env.assume(env.gt(lo, hi))
            args = [env.pyfloat(lo), env.pyfloat(hi)]
        else:
            args = [float(v) for v in cfg["b"]]
        raises(env, ["ValueError"], MOD, F, f, *args)
        return
    mx, full = cfg["mx"], cfg["full"]
    lo, hi, tol = env.real("lo", -100, 100), env.real("hi", -100, 100), env.real("tol", 0, 100)
    if "fix" in cfg:
        lo, hi, tol = [env.const(v) for v in cfg["fix"]]
    form, kind = cfg.get("form"), cfg.get("kind")
    if "narrow" in cfg:
        w = env.real("w", 0, 2.0 ** -12)
        env.assume(env.gt(w, env.const(2.0 ** -20)))
        lo = env.const(cfg["narrow"])
        hi = lo + w
    if form:
        tol = env.const(1e-5)
    if cfg.get("limit"):
        # equal values and no tolerance: the bracket keeps shrinking without ever being small enough
        u = env.real("u", -100, 100)
        f = Fun(env, [], [], rule=lambda k, x: u)
        r = env.call(MOD, F, f, 1.0, 2.0, tolerance=-1.0, **(dict(detailed_output=True) if full else {}))
        env.check(len(f.seen) == 500, "500 evaluations by default")
        if full:
            env.check(isinstance(r, tuple) and len(r) == 4 and int(r[2]) == 1 and int(r[3]) == 500, "flag and count")
        return
    if cfg.get("same"):
        hi = lo
    else:
        env.assume(env.lt(lo, hi))
    env.assume(env.gt(tol, 0))
    dec = env.follow if form and form != "one" else env.decide

    def val(k, x):
        if k < 2 and "start" in cfg:
            return env.const(cfg["start"][k])
        if k < len(cfg.get("vals", ())) and k not in cfg["symf"]:
            return env.const(cfg["vals"][k] if cfg["vals"][k] is not None else math.nan)
        return env.real("f%d" % k, -1000, 1000)
    ref = brentmin(env, lo, hi, val, tol, mx, dec)
    f = Fun(env, ref["pts"], ref["vals"], kind=kind)
    if cfg.get("hist"):
        env.call(MOD, F, Fun(env, [], [], rule=lambda k, x: x * x), -1.0, 1.0, (), 0.5, 3)
    par = (3, "p") if kind == "par" else ()
    if form:
        args, kw = [f, env.pyfloat(lo), env.pyfloat(hi)], dict(none={}, one=dict(max_evaluations=2, detailed_output=True), full=dict(detailed_output=True), kw=dict(max_evaluations=500, tolerance=1e-5, parameters=(), detailed_output=True))[form]
    elif kind == "int":
        args, kw = [f, -1, 2, (), 0.25, mx, full], {}
    else:
        args, kw = [f, env.pyfloat(lo), env.pyfloat(hi), par, env.pyfloat(tol), mx, full], {}
    r = env.call(MOD, F, *args, **kw)
    if full:
        env.check(isinstance(r, tuple) and len(r) == 4, "point, value, flag and count")
        env.check(int(r[2]) == ref["flag"], "flag")
        env.check(int(r[3]) == len(ref["vals"]) == len(f.seen), "number of evaluations")
        env.close(env.val(r[1]), ref["fx"], "value")
        r = r[0]
    env.close(env.val(r), ref["x"], "point")
    env.check(len(f.seen) == len(ref["vals"]) and all(k is not None for _, k in f.seen), "evaluation points")
    env.check(all(e == par for e in f.extra), "parameters passed on")
    if cfg.get("nan") is None:
        for k, v in enumerate(ref["vals"]):
            env.require(env.le(ref["fx"], v), "no evaluated value is smaller than the reported one")
